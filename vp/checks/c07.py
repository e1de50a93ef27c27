"""C07: Runge-Kutta order and step proposal"""
import math
import numpy as np
from numba import njit
from .. import ref
from ..sut import api

ID = "C07"
N = dict(quick=700, thorough=30000)
REQUIRED = ["checked:order", "checked:stages", "checked:propose", "checked:zero_error", "checked:quadrature", "negative_step", "backward_propose", "time_dependent",
            "grew", "shrank", "dims", "checked:inputs", "order_fits"]
RULE = ("analytic initial value problems (linear, oscillator, logistic, Riccati, forced, polynomial quadrature, two-body) with random parameters, start "
        "times, signs and sizes of step; observed local order over halved steps, exactness on cubic quadrature, stage-by-stage independent tableau, "
        "and proposals against the independently computed embedded error; non-trivial = always")
ASSUMPTIONS = ["order is read from halved steps while the error is above rounding"]


@njit
def f_lin(t, y, p):
    return p[0]*y


@njit
def f_osc(t, y, p):
    return np.array([y[1], -p[0]**2*y[0]])


@njit
def f_logi(t, y, p):
    return p[0]*y*(1-y/p[1])


@njit
def f_tdep(t, y, p):
    return p[0]*np.cos(p[1]*t)*y


@njit
def f_ricc(t, y, p):
    return -2*p[0]*t*y*y


@njit
def f_poly(t, y, p):
    return np.array([p[0] + p[1]*t + p[2]*t**2 + p[3]*t**3, p[4]*t**3 - p[0]])


@njit
def f_forced(t, y, p):
    return np.array([y[1], -y[0] + p[0]*np.sin(p[1]*t), p[0]*t*y[2]])


@njit
def f_kepl(t, y, p):
    r = np.sqrt(y[0]**2+y[1]**2+y[2]**2)
    return np.array([y[3], y[4], y[5], -p[0]*y[0]/r**3, -p[0]*y[1]/r**3, -p[0]*y[2]/r**3])


@njit
def f_zero(t, y, p):
    return 0.0*y


FS = dict(lin=f_lin, osc=f_osc, logi=f_logi, tdep=f_tdep, ricc=f_ricc, poly=f_poly, forced=f_forced, kepl=f_kepl, zero=f_zero)
DIM = dict(lin=1, osc=2, logi=2, tdep=3, ricc=1, poly=2, forced=3, kepl=6, zero=4)
NP = dict(lin=1, osc=1, logi=2, tdep=2, ricc=1, poly=5, forced=2, kepl=1, zero=1)


def call(integ, k, t, h, y, p, tol=None):
    P = tuple(float(v) for v in p)
    fn = api(integ)
    if integ == "rk4":
        return np.asarray(fn(FS[k], t, h, y, P)), None
    yn, hn = fn(FS[k], t, h, y, P) if tol is None else fn(FS[k], t, h, y, P, tol)
    return np.asarray(yn), float(hn)


def exact(k, t, h, y, p):
    """exact solution at t+h (None: no closed form)"""
    if k == "lin":
        return y*math.exp(p[0]*h)
    if k == "osc":
        w = p[0]
        c, s = math.cos(w*h), math.sin(w*h)
        return np.array([y[0]*c + y[1]*s/w, -y[0]*w*s + y[1]*c])
    if k == "logi":
        E = math.exp(p[0]*h)
        return p[1]*y*E/(p[1]+y*(E-1))
    if k == "tdep":
        return y*math.exp(p[0]/p[1]*(math.sin(p[1]*(t+h))-math.sin(p[1]*t)))
    if k == "ricc":
        return y/(1+y*p[0]*((t+h)**2-t**2))
    if k == "poly":
        F = lambda s: np.array([p[0]*s + p[1]*s**2/2 + p[2]*s**3/3 + p[3]*s**4/4, p[4]*s**4/4 - p[0]*s])
        return y + F(t+h) - F(t)
    if k == "zero":
        return y.copy()
    return None


def warm(tier):
    for k in FS:
        y = np.linspace(0.5, 1.0, DIM[k])
        p = [0.3]*NP[k]
        call("rk4", k, 0.0, 0.1, y, p)
        call("rkf45", k, 0.0, 0.1, y, p)
        call("rkf45", k, 0.0, 0.1, y, p, 1e-6)


def gen(rng, tier):
    L = []
    for _ in range(6):
        k = str(rng.choice(list(FS)))
        p = [float(v) for v in rng.uniform(0.4, 1.6, NP[k])*rng.choice([-1, 1], NP[k])]
        if k in ("osc", "kepl", "zero"):
            p[0] = abs(p[0])
        if k == "logi":
            p[1] = abs(p[1])*3
        if k in ("tdep", "forced"):
            p[1] = abs(p[1])
        if k == "ricc":
            p[0] = abs(p[0])
        t = float(rng.uniform(-3, 3)) if rng.random() < 0.8 else 0.0
        y = [float(v) for v in rng.uniform(0.3, 1.5, DIM[k])*(rng.choice([-1, 1], DIM[k]) if k not in ("logi", "ricc", "kepl") else 1)]
        if k == "kepl":
            q = ref.kep2sv(np.array([1.0, rng.uniform(0, 0.3), 0.4, 1.0, 0.3, rng.uniform(-3, 3)]), p[0])
            y = [float(v) for v in q]
        h = float(rng.choice([-1, 1]))*float(rng.uniform(0.02, 0.25))
        L.append(dict(k=k, p=p, t=t, y=y, h=h, tol=float(10**rng.uniform(-14, -2)), tol2=float(10**rng.uniform(-12, -1))))
    return dict(ivps=L)


def run(case, obs):
    for c in case["ivps"]:
        k, p, t, h = c["k"], c["p"], c["t"], c["h"]
        y = np.array(c["y"])
        f = FS[k].py_func
        P = tuple(p)
        rhs = lambda tt, yy: np.asarray(f(tt, yy, P))
        obs.count("dims", DIM[k])
        if h < 0:
            obs.count("negative_step")
        if k in ("tdep", "ricc", "poly", "forced"):
            obs.count("time_dependent")
        for integ in ("rk4", "rkf45"):
            ctx = dict(ivp=c, integrator=integ)
            y0 = y.copy()
            got, _ = call(integ, k, t, h, y0, p)
            obs.check(np.array_equal(y0, y), "inputs", "step modifies the state it starts from", **ctx)
            if not obs.check(got.shape == y.shape and np.all(np.isfinite(got)), "finite", "next state misshapen or not finite", got=got, **ctx):
                continue
            w4, w5 = ref.rk_step(rhs, t, h, y.copy(), integ)
            sc = np.max(np.abs(y))+np.max(np.abs(w4))+1
            obs.close(got, w4, 1e-12*sc, "stages", "step is not the fourth-order method's", **ctx)
            if k in ("poly",):
                ex = exact(k, t, h, y, p)
                obs.close(got, ex, 1e-11*sc*(1+abs(t))**4, "quadrature", "cubic quadrature is not exact", **ctx)
            ex = exact(k, t, h, y, p)
            if ex is not None and k not in ("poly", "zero"):
                # local error over a ladder of step sizes: fifth order
                H = h
                hs, es = [], []
                for _ in range(6):
                    g, _ = call(integ, k, t, H, y.copy(), p)
                    e = np.linalg.norm(g-exact(k, t, H, y, p))
                    hs.append(abs(H)); es.append(e)
                    H /= 2
                es = np.array(es)
                use = es > 3e-14*sc
                m = len(use) if use.all() else int(np.argmin(use))
                if m >= (3 if k in ("lin", "osc") else 4):
                    # pairwise slopes; a sign change of the error can spoil some of them, never all
                    sl = np.log(es[:m-1]/es[1:m])/math.log(2)
                    obs.count("order_fits")
                    obs.check(sl.max() > 4.2, "order", "observed local order %.2f below five" % sl.max(), errors=es, **ctx)
                    if k in ("lin", "osc"):
                        obs.check(sl.min() > 4.5, "order", "observed local order %.2f below five" % sl.min(), errors=es, **ctx)
        # proposal of the embedded method
        w4, w5 = ref.rk_step(rhs, t, h, y.copy(), "rkf45")
        err = float(np.linalg.norm(w5-w4))
        ctx = dict(ivp=c)
        sc = np.max(np.abs(y))+np.max(np.abs(w4))+1
        _, h1 = call("rkf45", k, t, h, y.copy(), p, c["tol"])
        _, h2 = call("rkf45", k, t, h, y.copy(), p, c["tol2"])
        obs.check(math.isfinite(h1) and h1*h > 0, "propose", "proposed step is not finite with the sign of the step", got=h1, **ctx)
        if h < 0:
            obs.count("backward_propose")
        if err > 1e3*2.3e-16*sc:
            rel = 4*2.3e-16*sc/err*6 + 1e-9
            r = h1/h*(err/c["tol"])**0.25
            obs.check(0.5 <= r <= 1.0+rel, "propose", "proposal does not scale with the fourth root of tolerance over the error estimate", got=h1, h=h, err=err, factor=r, **ctx)
            r2 = h2/h*(err/c["tol2"])**0.25
            obs.check(abs(r2-r) <= (2*rel+1e-9)*r, "propose", "proposal does not follow the tolerance with the fourth root", got=[h1, h2], tols=[c["tol"], c["tol2"]], **ctx)
            if not hasattr(run, "_c"):
                run._c = r
            obs.check(abs(r-run._c) <= 0.02*run._c, "propose", "safety factor is not a constant", got=r, seen=run._c, **ctx)
            for hh, tol in ((h1, c["tol"]), (h2, c["tol2"])):
                if err > tol*(1+rel):
                    obs.check(abs(hh) < abs(h), "propose", "error above tolerance but the step does not shrink", got=hh, err=err, tol=tol, **ctx)
                    obs.count("shrank")
                if err < 0.05*tol:
                    obs.check(abs(hh) > abs(h), "propose", "error well below tolerance but the step does not grow", got=hh, err=err, tol=tol, **ctx)
                    obs.count("grew")
        if k == "zero" or err == 0.0:
            obs.check(math.isfinite(h1) and abs(h1) > abs(h) and h1*h > 0, "zero_error", "zero error must propose a finite larger step", got=h1, **ctx)
        # the estimate is the true local error to leading order
        ex = exact(k, t, h, y, p)
        if ex is not None and k not in ("poly", "zero"):
            te = float(np.linalg.norm(w4-ex))
            if te > 1e-12*sc and err > 1e-12*sc and abs(h) < 0.1:
                obs.count("estimate_vs_true")
