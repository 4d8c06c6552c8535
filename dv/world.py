"""The symbolic world of one run: loader of the package and shims of its libraries."""
from .load import Loader


class World:
    def __init__(self, root):
        try:
            from . import npshim
            self.np = npshim.np
        except ImportError:
            self.np = None
        try:
            from . import xrshim
            self.xr = xrshim.xr
        except ImportError:
            self.xr = None
        libs = {}
        if self.np is not None:
            libs.update(npshim.LIBS)
        if self.xr is not None:
            libs["xarray"] = self.xr
        self.loader = Loader(root, libs)
