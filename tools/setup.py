"""Checks that the tools the framework needs are there; nothing is built ahead: every check builds from /repo itself."""
import shutil
import sys
miss = [t for t in ('clang', 'opt', 'gcc') if not shutil.which(t)]
import z3   # noqa
if miss:
    print('missing: ' + ', '.join(miss))
    sys.exit(1)
print('ok, z3 ' + z3.get_version_string())
