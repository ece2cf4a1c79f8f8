import sys
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/contracts')
from session import *
import sparmat
s = Session('sparmat.cc', opaque=['VElem'], timeout=8000)
sparmat.contracts(s.contracts)
want = sys.argv[1:]
for cs in list(s.contracts.by.values()):
    for c in cs:
        if c.inline or (want and not any(w in c.name for w in want)): continue
        report(s.verify(c))
print(f"rejected {len(s.ip.rejected)} solver {s.solver.stats.time:.1f}s calls {s.solver.stats.calls}")
if want:
    for x in s.ip.loop_log: print(x)
    if '-r' in want:
        for x in s.ip.rejected: print(x)
