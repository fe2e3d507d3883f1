from .core import _NTT


class NTTRecursive(_NTT):
    pass
