"""C26: target test and element safeguards"""
import math
import numpy as np
from .. import ref
from ..sut import api

ID = "C26"
N = dict(quick=1500, thorough=80000)
PER = 10
REQUIRED = ["true", "false", "turns", "zero_weight", "nan", "inf", "ties", "checked:keplerian", "checked:mee", "checked:safety", "clipped", "five_bounds",
            "one_element_off", "small_angles", "all_zero_weights"]
RULE = ("random element/target/weight/tolerance/bound vectors incl. exact ties, infinities, NaN, whole turns, differences within a few ulps to many "
        "orders of tolerance; decided element by element independently; non-trivial = always")
ASSUMPTIONS = ["angular differences within 1e-15 of the tolerance accept either answer (rounding of the reduction modulo whole turns)"]


def warm(tier):
    z = np.zeros(6)
    for n in ("check_convergence_keplerian", "check_convergence_mee"):
        api(n)(np.ones(6), np.ones(5), np.ones(5), np.ones(5))
    api("elements_safety")(np.ones(6), np.zeros(5), np.ones(5))


def gen(rng, tier):
    L = []
    for _ in range(PER):
        tol = 10.0**rng.uniform(-13, 0, 5)
        T = rng.normal(size=5)*10**rng.uniform(-1, 1)
        w = rng.choice([0.0, 1.0, 1.0, 1.0, 0.3, 1e-12, 5.0], 5)
        k = rng.uniform(0.0, 0.95, 5)
        r = rng.random()
        off = []
        if r < 0.55:
            for j in rng.permutation(5)[:int(rng.integers(1, 3))]:
                k[j] = float(rng.choice([1.05, 1.5, 10.0, 1e4]))
                off.append(int(j))
        oe = np.append(T + k*tol*rng.choice([-1, 1], 5), rng.normal()*10)
        if rng.random() < 0.15:
            j = int(rng.integers(5))
            oe[j] = T[j] = float(rng.choice([1.0, 2.0, 0.5, 0.0]))
            tol[j] = 2.0**-int(rng.integers(3, 30))
            oe[j] += tol[j]*float(rng.choice([-1, 1]))     # exact tie
        turns = [0, 0]
        if rng.random() < 0.5:
            turns = [int(v) for v in rng.integers(-4, 5, 2)]
        ex = rng.random()
        if ex < 0.08:
            oe[int(rng.integers(6))] = float("nan")
        elif ex < 0.12:
            oe[int(rng.integers(5))] = float(rng.choice([np.inf, -np.inf]))
        elif ex < 0.15:
            T[int(rng.integers(5))] = float("nan")
        elif ex < 0.2:
            tol[int(rng.integers(5))] = np.inf
        elif ex < 0.24:
            w[:] = 0
        L.append(dict(oe=enc(oe), T=enc(T), w=enc(w), tol=enc(tol), turns=turns))
    B = []
    for _ in range(PER):
        lo = rng.normal(size=5)
        hi = lo + np.abs(rng.normal(size=5))*10**rng.uniform(-2, 1)
        x = np.append(lo + (hi-lo)*rng.uniform(-0.6, 1.6, 5), rng.normal()*30)
        for j in range(5):
            r = rng.random()
            if r < 0.1:
                lo[j] = -np.inf
            elif r < 0.2:
                hi[j] = np.inf
            elif r < 0.25:
                x[j] = lo[j]
            elif r < 0.3:
                x[j] = hi[j]
            elif r < 0.33:
                x[j] = float(rng.choice([np.inf, -np.inf]))
        six = bool(rng.random() < 0.5)
        B.append(dict(x=enc(x), lo=enc(np.append(lo, x[5]+1.0)) if six else enc(lo), hi=enc(np.append(hi, x[5]-1.0)) if rng.random() < 0.5 else enc(hi)))
    return dict(conv=L, safe=B)


def enc(v):
    return [float(x) if math.isfinite(x) else repr(float(x)) for x in v]


def dec(v):
    return np.array([float(x) for x in v])


def verdict(d, w, tol, band):
    """three-valued per element: (certainly within, possibly within)"""
    yes = may = True
    for j in range(5):
        if w[j] == 0:
            continue
        if np.isnan(d[j]) or np.isnan(tol[j]):
            return False, False
        yes &= bool(abs(d[j]) <= tol[j] - band[j]) if band[j] else bool(abs(d[j]) <= tol[j])
        may &= bool(abs(d[j]) <= tol[j] + band[j])
    return yes, may


def run(case, obs):
    for c in case["conv"]:
        oe, T, w, tol = dec(c["oe"]), dec(c["T"]), dec(c["w"]), dec(c["tol"])
        for kind in ("keplerian", "mee"):
            x, t = oe.copy(), T.copy()
            band = np.zeros(5)
            with np.errstate(all="ignore"):
                if kind == "keplerian":
                    x[3] += 2*math.pi*c["turns"][0]
                    t[4] += 2*math.pi*c["turns"][1]
                d = x[:5]-t
                if kind == "keplerian":
                    band[3:] = 4e-16*(np.abs(x[3:5])+np.abs(t[3:5])+4)
                    d[3:] = np.where(np.isfinite(d[3:]), d[3:] - 2*math.pi*np.round(d[3:]/(2*math.pi)), np.nan)
            yes, may = verdict(d, w, tol, band)
            x0, t0, w0, l0 = x.copy(), t.copy(), w.copy(), tol.copy()
            with np.errstate(all="ignore"):
                got = api("check_convergence_" + kind)(x, t, w, tol)
            obs.check(all(np.array_equal(p, q, equal_nan=True) for p, q in ((x, x0), (t, t0), (w, w0), (tol, l0))), "inputs", "target test changed its inputs")
            obs.count("checked:" + kind)
            if yes != may:
                obs.count("ties_skipped")
                continue
            if bool(got) != yes:
                obs.fail(kind, "target test says %s" % bool(got), want=yes, oe=x, oeT=t, woe=w, tol=tol, diff=d)
            if isinstance(got, (bool, np.bool_)) is False:
                obs.fail(kind, "target test does not return a boolean", got=repr(got))
            obs.count("true" if yes else "false")
            fin = np.isfinite(d)
            if np.any(np.isnan(x[:5])) or np.any(np.isnan(t)):
                obs.count("nan")
            if np.any(np.isinf(x)) or np.any(np.isinf(tol)):
                obs.count("inf")
            if np.any((np.abs(d) == tol) & (w != 0)):
                obs.count("ties")
            if np.any(w == 0):
                obs.count("zero_weight")
            if not w.any():
                obs.count("all_zero_weights")
            if kind == "keplerian" and any(c["turns"]):
                obs.count("turns")
            if kind == "keplerian" and np.any((tol[3:] < 1e-8) & (w[3:] != 0)):
                obs.count("small_angles")
            if not yes and np.sum((np.abs(d) > tol) & (w != 0)) == 1 and fin.all():
                obs.count("one_element_off")
    for b in case["safe"]:
        x, lo, hi = dec(b["x"]), dec(b["lo"]), dec(b["hi"])
        want = x.copy()
        want[:5] = np.minimum(np.maximum(x[:5], lo[:5]), hi[:5])
        l0, h0 = lo.copy(), hi.copy()
        got = np.asarray(api("elements_safety")(x.copy(), lo, hi))
        obs.check(got.shape == (6,) and np.array_equal(got, want), "safety", "safeguard is not element-wise clipping of the slow elements", x=x, lo=lo, hi=hi,
                  got=got, want=want)
        obs.check(np.array_equal(lo, l0) and np.array_equal(hi, h0), "safety", "safeguard changed its bounds")
        if np.any(want != x):
            obs.count("clipped")
        if len(lo) == 5:
            obs.count("five_bounds")
