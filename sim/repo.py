"""Locates the code under test and imports it from the current working tree (never from a copy or stale bytecode)."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(os.path.realpath(REPO), "src")
CODE_PREFIX = os.path.join(SRC, "infi", "instruct") + os.sep


class HarnessError(Exception):
    """The machinery (not the code under test) is broken: reported with exit status 2."""


def load():
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    sys.path[:] = [SRC] + [p for p in sys.path if not os.path.exists(os.path.join(p or ".", "infi", "instruct"))]
    sys.path_importer_cache.clear()
    import infi
    keep = [p for p in list(infi.__path__) if not p.endswith(os.path.join("src", "infi"))]
    infi.__path__ = keep + [os.path.join(SRC, "infi")]
    import infi.instruct
    if not os.path.realpath(infi.instruct.__file__).startswith(CODE_PREFIX):
        raise HarnessError("infi.instruct imported from %s instead of %s" % (infi.instruct.__file__, CODE_PREFIX))
    for name, mod in sorted(sys.modules.items()):
        f = getattr(mod, "__file__", None)
        if name.startswith("infi.instruct") and f and not os.path.realpath(f).startswith(CODE_PREFIX):
            raise HarnessError("%s imported from %s" % (name, f))
    return infi.instruct
