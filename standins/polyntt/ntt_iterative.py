from .core import _NTT


class NTTIterative(_NTT):
    pass
