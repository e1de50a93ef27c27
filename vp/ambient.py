"""process-wide state that a library must leave as it found it"""
import builtins, decimal, gc, locale, os, random, signal, sys, threading, time, warnings

import numpy as np


def fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append((int(f), os.readlink("/proc/self/fd/" + f)))
        except OSError:
            pass
    return sorted(x for x in out if "/proc/" not in x[1] and not x[1].endswith((".ttf", ".otf", ".afm", ".pfb")))     # fonts are matplotlib's own


def files(d):
    out = []
    for r, ds, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(r, f), d) for f in fs] + [os.path.relpath(os.path.join(r, f), d) + "/" for f in ds]
    return sorted(out)


def snapshot(dirs=(), importing=False):
    import matplotlib, matplotlib.pyplot as plt, mpmath, spiceypy
    st = np.random.get_state()
    s = {
        "numpy random state": (st[0], st[1].tobytes(), st[2:]),
        "random state": random.getstate(),
        "floating-point error handling": (tuple(sorted(np.geterr().items())), repr(np.geterrcall()), np.getbufsize()),
        "print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "plot parameters": repr(sorted((k, repr(v)) for k, v in dict(matplotlib.rcParams).items())),
        "figures": tuple(plt.get_fignums()),
        "backend": matplotlib.get_backend(),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "signal handlers": tuple(repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGUSR1, signal.SIGFPE)),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "recursion limit": sys.getrecursionlimit(),
        "import path": tuple(sys.path),
        "switch interval": sys.getswitchinterval(),
        "trace": (sys.gettrace(), sys.getprofile()),
        "threads": tuple(sorted(t.name for t in threading.enumerate())),
        "collector": (gc.isenabled(), gc.get_threshold()),
        "precision": (mpmath.mp.dps, mpmath.mp.prec, repr(decimal.getcontext())),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": time.tzname,
        "builtins": tuple(sorted(k for k in vars(builtins) if k != "_")),
        "exception hook": id(sys.excepthook),
        "kernel pool": spiceypy.ktotal("ALL"),
        "spice errors": spiceypy.erract("GET", 20, ""),
        "files": tuple(tuple(files(d)) for d in dirs),
        "open files": tuple(fds()),
    }
    if importing:
        for k in ("open files", "builtins", "collector"):
            s.pop(k)
    else:
        s["warning filters"] = repr(warnings.filters)
        s["warning hook"] = id(warnings.showwarning)
    return s


def changed(a, b, but=()):
    return [k for k in a if k not in but and a[k] != b[k]]


def disturb(rng):
    """put process-wide settings into some other legitimate state; returns the way back"""
    import matplotlib, mpmath
    old = (np.random.get_state(), random.getstate(), np.geterr(), np.get_printoptions(), dict(matplotlib.rcParams), mpmath.mp.dps, decimal.getcontext().copy(),
           warnings.filters[:], sys.getrecursionlimit())
    np.random.seed(int(rng.integers(1 << 31)))
    random.seed(int(rng.integers(1 << 31)))
    np.seterr(**{k: str(rng.choice(["ignore", "warn"])) for k in ("divide", "over", "under", "invalid")})
    np.set_printoptions(precision=int(rng.integers(1, 12)), suppress=bool(rng.random() < 0.5), threshold=int(rng.integers(1, 50)), sign=str(rng.choice(["-", "+", " "])),
                        linewidth=int(rng.integers(20, 150)))
    matplotlib.rcParams.update({"lines.linewidth": float(rng.uniform(0.5, 4)), "axes.grid": bool(rng.random() < 0.5), "figure.figsize": [float(x) for x in rng.uniform(2, 9, 2)],
                                "lines.marker": str(rng.choice(["None", "o"])), "axes.xmargin": float(rng.uniform(0, 0.3)), "font.size": float(rng.uniform(6, 14))})
    mpmath.mp.dps = int(rng.integers(4, 40))
    decimal.getcontext().prec = int(rng.integers(3, 50))
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(sys.getrecursionlimit() + int(rng.integers(0, 500)))

    def back():
        np.random.set_state(old[0])
        random.setstate(old[1])
        np.seterr(**old[2])
        po = dict(old[3])
        po.pop("override_repr", None)
        np.set_printoptions(**{k: v for k, v in po.items() if k in ("precision", "threshold", "edgeitems", "linewidth", "suppress", "nanstr", "infstr", "formatter", "sign", "floatmode", "legacy")})
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            matplotlib.rcParams.update(old[4])
        mpmath.mp.dps = old[5]
        decimal.setcontext(old[6])
        warnings.filters[:] = old[7]
        warnings._filters_mutated()
        sys.setrecursionlimit(old[8])
    return back
