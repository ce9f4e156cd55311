"""Imports freud from a build made by vf.build; extension modules that were not built are stubbed."""
import os, sys, types

freud = None


class _Missing(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return type(name, (), {"__init__": _no})


def _no(self, *a, **k):
    raise ImportError("%s is not part of this check's build" % type(self).__name__)


def load(pkg):
    global freud
    sys.path.insert(0, pkg)
    have = set(f.split(".")[0] for f in os.listdir(os.path.join(pkg, "freud")) if f.endswith(".so"))
    for d in ("box", "cluster", "density", "diffraction", "environment", "locality", "order", "parallel", "pmft", "util"):
        if "_" + d not in have:
            sys.modules["freud._" + d] = _Missing("freud._" + d)
    # "import freud._x" inside freud/x.py binds the attribute through sys.modules only when the
    # import system loads it; for stubs it has to be set on the package as soon as it exists
    class _Setter:
        def find_spec(self, name, path=None, target=None):
            p = sys.modules.get("freud")
            if p is not None and name.startswith("freud."):
                for k, m in list(sys.modules.items()):
                    if k.startswith("freud._") and isinstance(m, _Missing):
                        setattr(p, k.split(".")[1], m)
            return None
    hook = _Setter()
    sys.meta_path.insert(0, hook)
    import freud as f
    sys.meta_path.remove(hook)
    assert os.path.realpath(f.__file__).startswith(os.path.realpath(pkg)), f.__file__
    freud = f
    return f
