"""access to the code under test (imported from /repo's working tree)"""
import sys

import pyqlaw


def modules():
    return [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "pyqlaw" and m is not None]


def api(name, default=None):
    """public or module-level function by name, wherever the package defines it"""
    for m in [pyqlaw] + modules():
        if hasattr(m, name):
            return getattr(m, name)
    return default


_memo = {}


def memoise_symbolic():
    """The symbolic derivation costs ~1 s per QLaw object and is a pure function: derive once per process."""
    for name in ("symbolic_qlaw_keplerian", "symbolic_qlaw_mee_with_a"):
        orig = getattr(pyqlaw, name)
        if getattr(orig, "_vp_memo", False):
            continue

        def wrap(*a, _o=orig, _n=name, **k):
            key = (_n, repr(a), repr(sorted(k.items())))
            if key not in _memo:
                _memo[key] = _o(*a, **k)
            return _memo[key]
        wrap._vp_memo = True
        wrap._vp_orig = orig
        for m in modules():
            for attr in list(vars(m)):
                if vars(m)[attr] is orig:
                    setattr(m, attr, wrap)


def symbolic(et, *a, **k):
    return getattr(pyqlaw, "symbolic_qlaw_keplerian" if et == "keplerian" else "symbolic_qlaw_mee_with_a")(*a, **k)


LAW_ORDER = ("rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp")
