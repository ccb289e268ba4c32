"""C21: who may write (spec/Admit.tla, spec/Transfer.tla)."""
import e2e
import tx
LEVEL = "trace_validation"
DOWN = [
 "np=1 files=srcf_d0/srcf_0:5000,srcf_1:1025,srcf_2:1024,srcf_3:1023 seg=100 cap=1000 rstdrop=0 o.encryption_type=aes128ctr rogue=byte:0:3 seed=1052891837 mode=0 stay=60 gap=0 changes=3 horizon=150",
 "np=1 files=srcf_0:1023,srcf_1:0,srcf_2:3000,srcf_3:1 seg=0 cap=65536 rstdrop=0 o.encryption_type=aes128gcm o.encryption_tag_interval_bytes=4194304 rogue=byte:0:0 seed=840727779 mode=0 stay=85 gap=0 changes=3 horizon=500",
]


def run(c):
    tx.run(c, [e2e.Fixed(l, "downgrade", enc=True, gcm=True, lax=True, keep=True, own=True, must="none") for l in DOWN])
