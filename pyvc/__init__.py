"""pyvc: verification-condition generator for the Python sources in /repo."""
import fresh as _fresh
import sys as _sys
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in _sys.path:
    _sys.path.append(_VT)
_sys.setrecursionlimit(20000)
import z3
z3.set_option(max_visited=60, max_depth=5, max_args=6, max_lines=12, max_width=150)
