"""Make qopt (from /repo's working tree) and hypothesis importable.

qopt and its dependencies live in /opt/venv, hypothesis in the verification
tool venv. The latter's site-packages is appended *behind* everything else, so
that numpy, scipy, ... always are the ones qopt is installed with.
"""
import os
import sys

REPO = os.environ.get('QOPT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)
try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append(_VT)
