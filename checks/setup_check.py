"""setup: nothing to build ahead; make sure the tools the checks use are there."""
import shutil
import sys
missing = [t for t in ('clang++', 'g++', 'cvc5') if not shutil.which(t)]
try:
    import z3, cvc5  # noqa
except ImportError as ex:
    missing.append(str(ex))
print('setup:', 'missing ' + ', '.join(missing) if missing else 'ok')
sys.exit(1 if missing else 0)
