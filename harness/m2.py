"""Model functions by name, wherever in the package they are defined."""
import importlib
import pkgutil
from hrosailing.core import modelfunctions as mf


class M2:
    """the functions of one variable"""

    def __getattr__(self, name):
        if hasattr(mf, name):
            return getattr(mf, name)
        for m in pkgutil.iter_modules(mf.__path__):
            mod = importlib.import_module(mf.__name__ + "." + m.name)
            if hasattr(mod, name):
                return getattr(mod, name)
        raise AttributeError(name)


m2 = M2()
