"""Make hypothesis importable next to the library's own numpy/scipy, and import the code under test from /repo only."""
import atexit
import glob
import importlib.machinery
import os
import shutil
import sys
import tempfile
import zipfile

REPO = "/repo"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


class _Only:
    """meta path finder which exposes only hypothesis (and what it needs) from the tool environment"""

    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top in ("hypothesis", "sortedcontainers") or top.startswith("_hypothesis"):
            return importlib.machinery.PathFinder.find_spec(name, path if "." in name else [self.path], target)
        return None


def _rm(path, pid):
    if os.getpid() == pid and path.startswith(tempfile.gettempdir()):
        shutil.rmtree(path, ignore_errors=True)


def setup():
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        path = VT
        if not os.path.isdir(os.path.join(VT, "hypothesis")):
            path = tempfile.mkdtemp(prefix="verif_hyp_")
            for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl"):
                for w in glob.glob(os.path.join(WHEELS, pat)):
                    with zipfile.ZipFile(w) as z:
                        z.extractall(path)
        sys.meta_path.append(_Only(path))
        import hypothesis  # noqa: F401
    from hypothesis import configuration
    home = tempfile.mkdtemp(prefix="verif_hyp_home_")
    configuration.set_hypothesis_home_dir(home)
    atexit.register(_rm, home, os.getpid())
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    for k in [k for k in sys.modules if k == "exact_diag" or k.startswith("exact_diag.")]:
        del sys.modules[k]
    import exact_diag
    from exact_diag import ed_base, ed_geometry  # noqa: F401
    if not os.path.realpath(ed_base.__file__).startswith(REPO + "/"):
        raise RuntimeError("exact_diag was not imported from /repo: %s" % ed_base.__file__)
