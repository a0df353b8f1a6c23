"""import pyvc.load as L; L.install() -> flatdata.* now comes instrumented from /repo."""
import sys, os
from .instrument import Finder
from .vc import VC
REPO = os.environ.get("VERIF_REPO", "/repo")
FINDER = None
def install():
    global FINDER
    if FINDER is None:
        for m in [m for m in sys.modules if m == "flatdata" or m.startswith("flatdata.")]: del sys.modules[m]
        FINDER = Finder(VC, [os.path.join(REPO, "flatdata-py"), os.path.join(REPO, "flatdata-generator")])
        sys.meta_path.insert(0, FINDER)
    return FINDER
