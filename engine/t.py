import sys
sys.path[:0]=['/verif/engine','/verif/contracts','/verif/checks','/verif']
import check
unit=sys.argv[1]
s=check.session(unit)
want=[x for x in sys.argv[2:] if not x.startswith('-')]
from session import report
for cs in list(s.contracts.by.values()):
    for c in cs:
        if c.inline or c.assumed or (want and not any(w in c.name for w in want)): continue
        report(s.verify(c))
print(f"rejected {len(s.ip.rejected)} solver {s.solver.stats.time:.1f}s calls {s.solver.stats.calls}")
if '-l' in sys.argv:
    for x in s.ip.loop_log: print(x)
if '-r' in sys.argv:
    for x in s.ip.rejected: print(x)
