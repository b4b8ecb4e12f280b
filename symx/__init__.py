import sys as _sys
_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3  # noqa: F401
except ImportError:
    _sys.path.append(_P)
    import z3  # noqa: F401
    _sys.path.remove(_P)
