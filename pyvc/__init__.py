import sys as _s
_Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z3 not in _s.path:
    _s.path.append(_Z3)
