"""Set up the import paths: /repo/src (code under test), the repo's venv, the amaranth_soc stand-in."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SENTINEL_REPO", "/repo")
VENV = "/opt/venv/lib/python3.12/site-packages"


def setup():
    stubs = os.path.join(HERE, "stubs")
    src = os.path.join(REPO, "src")
    for p in (stubs, src):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, stubs)
    sys.path.insert(0, src)
    if VENV not in sys.path:
        sys.path.append(VENV)


setup()
