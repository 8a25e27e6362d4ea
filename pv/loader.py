"""Imports the instrumented javatools and the instrumented contract files in the prover process."""
import sys, os, importlib, importlib.abc, importlib.util
from . import instr, rt, core, vals, api

REPO = os.environ.get("PV_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/python3.12/site-packages"


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name == "javatools" or name.startswith("javatools."):
            fn = os.path.join(REPO, *name.split("."))
        elif name == "specs" or name.startswith("specs."):
            fn = os.path.join(HERE, *name.split("."))
        else:
            return None
        if os.path.isdir(fn):
            init = os.path.join(fn, "__init__.py")
            if not os.path.exists(init):
                if name == "specs":
                    return importlib.util.spec_from_file_location(name, None, loader=None, submodule_search_locations=[fn])
                return None
            sp = importlib.util.spec_from_file_location(name, init, loader=self, submodule_search_locations=[fn])
            return sp
        if os.path.exists(fn + ".py"):
            return importlib.util.spec_from_file_location(name, fn + ".py", loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        fn = mod.__spec__.origin
        with open(fn) as f:
            src = f.read()
        mod.__dict__["_pv"] = rt
        mod.__dict__["_pv_instr"] = True
        code = instr.instrument(src, mod.__name__, fn)
        exec(code, mod.__dict__)


def install():
    sys.dont_write_bytecode = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.meta_path.insert(0, Finder())
    sys.path.insert(0, HERE)
    api.SYM = True


class Lib:
    """L.pack is javatools.pack, L.jt the package itself"""
    def __getattr__(self, name):
        m = importlib.import_module("javatools" if name == "jt" else "javatools." + name)
        setattr(self, name, m)
        return m


_snap = None


def snapshot():
    """module-level mutable containers of the instrumented code, to be restored before each path"""
    global _snap
    _snap = []
    seen = set()
    for nm, m in list(sys.modules.items()):
        if m is None or not getattr(m, "_pv_instr", False):
            continue
        spaces = [vars(m)] + [vars(c) for c in vars(m).values() if isinstance(c, type) and c.__module__ == nm]
        for sp in spaces:
            for v in list(sp.values()):
                if isinstance(v, (vals.PList, vals.PDict, vals.PSet)) and id(v) not in seen:
                    seen.add(id(v))
                    _snap.append((v, v.pv_save()))
    return _snap


def restore():
    for v, s in _snap or ():
        if isinstance(v, vals.PDict) and v.plain() and dict.__len__(v) == len(s[0]):
            continue
        v.pv_restore(s)
