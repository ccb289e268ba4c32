"""C11: peers of different versions (spec/Transfer.tla, spec/Admit.tla)."""
import e2e
import tx
LEVEL = "trace_validation"
OLD = [
 "np=2 files=srcf_0:1500,srcf_1:1025 seg=3000 cap=65536 rstdrop=1 sv=16 rv=16 faults=0:0:0:6034:rst:6000,1:1:0:31:fin:300,0:0:0:307:refuse:300,1:0:0:1011:fin:30000 seed=16499392 mode=1 stay=60 gap=0 changes=2 horizon=150",
 "np=2 files=srcf_0:2048,srcf_1:10 seg=100 cap=65536 rstdrop=1 sv=16 rv=16 faults=0:1:0:325:refuse:30000,0:1:0:14:fin:6000,1:0:0:617:fin:0,1:1:0:14:rst:30000 seed=986944945 mode=0 stay=30 gap=0 changes=1 horizon=40",
]


def run(c):
    tx.run(c, [e2e.Fixed(l, "oldversion16-20", v=16, sv=16, rv=16) for l in OLD])
