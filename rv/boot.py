"""Process bootstrap: makes /repo and the offline copy of hypothesis importable.

Only hypothesis (and its pure-python dependency sortedcontainers) is taken from
the verification-tools venv; everything else comes from the repository's venv.
"""

import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("RV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_ALLOWED = {
    "hypothesis",
    "sortedcontainers",
    "_hypothesis_globals",
    "_hypothesis_ftz_detector",
}


class _ToolsFinder:
    """Exposes a fixed list of top-level packages of the tools venv."""

    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if path is not None or fullname not in _ALLOWED:
            return None
        return importlib.machinery.PathFinder.find_spec(fullname, [_TOOLS])


def setup():
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if not any(f is _ToolsFinder for f in sys.meta_path):
        sys.meta_path.append(_ToolsFinder)
    import warnings

    warnings.simplefilter("ignore")


setup()
