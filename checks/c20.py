"""C20: what a transfer may do to a destination that is not empty (spec/Dest.tla)."""
import e2e
import fam
import tx
LEVEL = "trace_validation"
SRC = [("srcf_0", 1500, 0), (".wdt.log", 1000, 1), ("srcf_2", 3000, 2)]
KNOWN = [
 ("logname", "np=2 files=srcf_0:1500:0,.wdt.log:1000:1,srcf_2:3000:2 o.enable_download_resumption=1 logmon=1 seed=511025150 mode=1 stay=30 gap=0 changes=5 horizon=500"),
]


def run(c):
    cfg = dict(before=[], known=True, ow=False, rdel=False, tree=False, skip=False, hidden=[], outside=[], fine=False, res=True, wantres=True)
    demos = []
    for tag, line in KNOWN:
        s = e2e.Fixed(line, tag, **cfg)
        s.cfg["files"] = fam.spec_files(SRC)
        demos.append(s)
    tx.run(c, demos)
