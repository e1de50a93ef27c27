"""C22: compiled kernels are memory-safe and equal their Python semantics"""
import math
import numpy as np
from .. import core, flows, ref, shadow, twin
from ..flows import rand_spec

ID = "C22"
N = dict(quick=3000, thorough=90000)
FUNCS = ["check_convergence_keplerian", "check_convergence_mee", "elements_safety", "get_inclination", "get_raan", "get_eccentricity", "get_omega", "get_trueanom",
         "get_semiMajorAxis", "get_period", "sv2kep", "kep2sv", "get_orbit_coordinates", "kep2mee", "mee2kep", "mee_with_a2mee", "mee_with_a2kep", "mee2mee_with_a",
         "kep2mee_with_a", "mee_with_a2sv", "ta2ea", "mee2ea", "eom_kep_gauss", "eom_mee_gauss", "eom_mee_with_a_gauss", "rk4", "rkf45", "_u_to_thrust_angles",
         "perturbation_third_body_battin", "perturbation_J2", "pxformECI2RTN", "rotmat1", "rotmat2", "rotmat3", "law:keplerian", "law:mee_with_a"]
REQUIRED = ["fn:" + f for f in FUNCS if not f.startswith("_")] + ["solves", "solve_exit:-2", "solve_exit:-1", "five_element_bounds", "canary_runs", "checked:inputs", "checked:oob", "checked:python"]
RULE = ("every compiled function and the control law on random valid inputs (minimal sizes, special angles, both directions), and whole solves of every kind, run three "
        "ways: compiled, compiled with bounds checks, and interpreted; arrays are embedded between canary cells whose content must neither change nor matter; "
        "uninitialised memory is dirtied before each call; non-trivial = compared with the interpreted run")
ASSUMPTIONS = ["results may differ by rounding of elementary functions", "inputs at which a division by zero occurs are outside the valid inputs"]
JOBS = 4
CASE_LIMIT = 240
TWINS = {}
TWO_PI = 2*math.pi


def warm(tier):
    if not TWINS:
        TWINS["bounds"] = twin.Twin("c22-bounds", dict(NUMBA_BOUNDSCHECK="1", NUMBA_DISABLE_JIT="0"))
        TWINS["python"] = twin.Twin("c22-python", dict(NUMBA_DISABLE_JIT="1", NUMBA_BOUNDSCHECK="0"))
    flows.warm_all()


# ------------------------------------------------------------------ inputs
def special(rng, x):
    return float(rng.choice([0.0, math.pi/2, math.pi, -math.pi/2, -math.pi, TWO_PI, 0.5])) if rng.random() < 0.15 else x


def kep(rng):
    k = flows.rand_kep(rng, emin=0.001, emax=0.9, imin=0.0, imax=3.0)
    for j in (3, 4, 5):
        k[j] = special(rng, k[j])
    return k


def args_for(name, rng):
    mu = flows.logu(rng, 0.1, 10)
    k = kep(rng)
    m = [float(v) for v in ref.kep2meea(np.array(k))]
    p = [float(v) for v in ref.kep2mee(np.array(k))]
    sv = [float(v) for v in ref.kep2sv(np.array(k), mu)]
    if name.startswith("check_convergence"):
        n, nT = int(rng.choice([5, 6])), int(rng.choice([5, 6]))
        x = rng.uniform(-2, 2, n)
        d = rng.uniform(-1, 1, 5)*10**rng.uniform(-6, 0)
        T = np.append(x[:5]+d, rng.normal())[:nT]
        if rng.random() < 0.3 and "kep" in name:
            T[3:5] += TWO_PI*rng.integers(-2, 3, 2)
        tol = np.abs(d)*rng.choice([0.5, 2.0, 2.0, 2.0], 5)+1e-12
        return [x, T, np.array(rng.choice([0.0, 1.0, 2.5], 5)), tol]
    if name == "elements_safety":
        n = int(rng.choice([5, 6]))
        lo, hi = rng.uniform(-2, 0, int(rng.choice([5, 6]))), rng.uniform(0, 2, int(rng.choice([5, 6])))
        if rng.random() < 0.3:
            lo[rng.integers(5)] = -np.inf
            hi[rng.integers(5)] = np.inf
        return [rng.uniform(-3, 3, n), lo, hi]
    if name in ("get_inclination", "get_raan"):
        return [np.array(sv)]
    if name in ("get_eccentricity", "get_omega", "get_trueanom", "get_semiMajorAxis", "get_period", "sv2kep"):
        return [np.array(sv), mu]
    if name == "kep2sv":
        return [np.array(k), mu]
    if name == "get_orbit_coordinates":
        a = [np.array(k), mu]
        return a if rng.random() < 0.3 else a + [int(rng.choice([1, 2, 3, 50, 200]))]
    if name in ("kep2mee", "kep2mee_with_a"):
        return [np.array(k)]
    if name in ("mee2kep", "mee2mee_with_a"):
        return [np.array(p)]
    if name in ("mee_with_a2mee", "mee_with_a2kep", "mee2ea"):
        return [np.array(m)]
    if name == "mee_with_a2sv":
        return [np.array(m), mu]
    if name == "ta2ea":
        return [float(rng.uniform(-10, 10)), float(rng.uniform(0, 0.95))]
    if name.startswith("eom") or name in ("rk4", "rkf45"):
        f = name if name.startswith("eom") else ["eom_kep_gauss", "eom_mee_gauss", "eom_mee_with_a_gauss"][int(rng.integers(3))]
        y = k if "kep" in f else m if "with_a" in f else p
        param = (mu, rng.normal(size=3)*1e-3, [float(v) for v in rng.normal(size=5)], [float(v) for v in rng.normal(size=5)], [float(v) for v in rng.normal(size=5)],
                 rng.normal(size=3)*1e-4)
        param = (param[0], param[1], [np.float64(v) for v in param[2]], [np.float64(v) for v in param[3]], [np.float64(v) for v in param[4]], param[5])
        t = float(rng.uniform(-5, 5))
        if name.startswith("eom"):
            return [t, np.array(y), param]
        h = float(rng.uniform(-0.3, 0.3))
        a = [("fn", f), t, h, np.array(y), param]
        if name == "rkf45":
            a.append(flows.logu(rng, 1e-12, 1e-2))
        return a
    if name == "_u_to_thrust_angles":
        return [rng.normal(size=3)*10**rng.uniform(-8, 8)]
    if name == "perturbation_third_body_battin":
        return [rng.normal(size=3), rng.normal(size=3)*10**rng.uniform(0.5, 4), flows.logu(rng, 1e-3, 1e6)]
    if name == "perturbation_J2":
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        return [rng.normal(size=3)*2, np.ascontiguousarray(q), mu, 1e-3, 1.0]
    if name == "pxformECI2RTN":
        return [np.array(sv[:3]), np.array(sv[3:])]
    if name.startswith("rotmat"):
        return [special(rng, float(rng.uniform(-10, 10)))]
    if name.startswith("law:"):
        et = name[4:]
        x = flows.rand_oe(rng, et)
        T = flows.rand_target(rng, et, x)
        lw = ref.LAW_DEFAULT
        return [mu, float(rng.choice([-1, 1]))*flows.logu(rng, 1e-5, 1e-2), np.array(x), np.array(T)] + [0.1*x[0], lw["m_petro"], lw["n_petro"], lw["r_petro"], lw["b_petro"],
                lw["k_petro"], lw["wp"], rng.uniform(0, 2, 5)]
    raise KeyError(name)


GEN_INDEX = True


def gen(rng, tier, j):
    if j % 20 == 0:
        s = rand_spec(rng, nsteps=20)
        et = shadow.et_of(s)
        if et == "keplerian":
            s["law"]["oe_min"] = s["law"]["oe_min"][:5]
            s["law"]["oe_max"] = s["law"]["oe_max"][:5]
            if rng.random() < 0.3:
                s["law"].pop("oe_min")
                s["law"].pop("oe_max")
        elif rng.random() < 0.3:
            s["law"]["oe_min"], s["law"]["oe_max"] = [1e-3, -10, -10, -10, -10], [1e3, 10, 10, 10, 10]
        s["kind"] = "solve"
        return s
    return dict(kind="call", name=FUNCS[j % len(FUNCS)] if j % 20 != 10 else FUNCS[int(rng.integers(len(FUNCS)))], seed=int(rng.integers(1 << 40)))


# ------------------------------------------------------------------ canaries
def embed(args, fillv):
    """copies of the arguments, arrays in the middle of a larger buffer"""
    bufs = []

    def one(x):
        if isinstance(x, np.ndarray) and x.dtype == np.float64:
            b = np.full(x.size + 32, fillv)
            b[16:16+x.size] = x.ravel()
            bufs.append((b, x.size))
            return b[16:16+x.size].reshape(x.shape)
        if isinstance(x, tuple) and not (len(x) == 2 and x[0] == "fn"):
            return tuple(one(v) for v in x)
        if isinstance(x, list):
            return list(x)
        return x
    return [one(a) for a in args], bufs


def canaries_ok(bufs, fillv):
    for b, n in bufs:
        g = np.concatenate((b[:16], b[16+n:]))
        if not (np.all(np.isnan(g)) if math.isnan(fillv) else np.all(g == fillv)):
            return False
    return True


def same(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    na, nb = ~np.isfinite(a), ~np.isfinite(b)
    if np.any(na != nb):
        return False
    d = np.abs(np.where(na, 0, a) - np.where(nb, 0, b))
    s = max(1.0, float(np.max(np.abs(np.where(na, 0, a)), initial=0)))
    # whole turns of an angle may come out either way when the input sits on the branch cut
    return bool(np.all((d <= tol*s) | (np.abs(d-TWO_PI) <= 1e-6)))


WRITES = {"elements_safety": 0}


def run(case, obs):
    if case["kind"] == "solve":
        return run_solve(case, obs)
    name = case["name"]
    rng = np.random.default_rng(case["seed"])
    with np.errstate(all="ignore"):
        args = args_for(name, rng)
    if name == "elements_safety" and any(len(a) == 5 for a in args):
        obs.count("five_element_bounds")
    req = ("call", name, args)
    for k in ("bounds", "python"):
        TWINS[k].post(req)
    outs = []
    for fillv in (math.nan, 1.2345e6, -7.0):
        a, bufs = embed(args, fillv)
        before = [b.copy() for b, _ in bufs]
        r = twin.execute(("call", name, a))
        if r[0] == "absent":
            break
        outs.append(r)
        obs.check(canaries_ok(bufs, fillv), "oob", "%s writes outside its arrays" % name, args=repr(args)[:400])
        changed = [i for i, ((b, n), o) in enumerate(zip(bufs, before)) if not np.array_equal(b, o, equal_nan=True)]
        obs.check(all(WRITES.get(name) == i for i in changed), "inputs", "%s modifies its input" % name, which=changed, args=repr(args)[:400])
        obs.count("canary_runs")
    rb, rp = TWINS["bounds"].get(), TWINS["python"].get()
    if not outs or rp[0] == "absent":
        obs.trivial = True
        obs.count("absent:" + name)
        obs.count("fn:" + name)          # nothing of that name to check
        return
    obs.count("fn:" + name)
    for r, w in ((rb, "bounds-checked"), (rp, "interpreted")):
        if r[0] == "died":
            obs.fail("died", "%s ends the %s process" % (name, w), args=repr(args)[:400])
            return
    if any(o[0] == "exc" and o[1] == "ZeroDivisionError" for o in outs) or rb[:2] == ("exc", "ZeroDivisionError"):
        obs.trivial = True
        obs.count("skipped_division")
        return
    if all(o[0] == "exc" for o in outs + [rb, rp]):
        obs.trivial = True           # rejected by the code itself in every mode
        obs.count("rejected_everywhere")
        return
    obs.check(rb[0] == "ok", "oob", "%s: bounds-checked run raises %s" % (name, rb[1:]), args=repr(args)[:400])
    obs.check(rp[0] == "ok", "python", "%s: interpreted run raises %s" % (name, rp[1:]), args=repr(args)[:400])
    obs.check(all(o[0] == "ok" for o in outs), "python", "%s: compiled run raises" % name, out=[o for o in outs if o[0] != "ok"], args=repr(args)[:400])
    if not all(o[0] == "ok" for o in outs + [rb, rp]):
        return
    for o in outs[1:]:
        obs.check(np.array_equal(o[1], outs[0][1], equal_nan=True), "canary", "%s: result depends on memory outside its arrays" % name, got=o[1], other=outs[0][1],
                  args=repr(args)[:400])
    tol = 1e-6 if not name.startswith("law") else 1e-5
    if name == "rkf45":            # the proposed step is a high power of a small difference
        a0, p0 = outs[0][1], rp[1]
        obs.check(a0.shape == p0.shape and same(a0[:-1], p0[:-1]) and (abs(a0[-1]/p0[-1]-1) < 1e-2 or abs(a0[-1]) > 50*abs(args[2])), "python",
                  "rkf45: compiled and interpreted results differ", got=a0, want=p0)
    else:
        obs.check(same(outs[0][1], rp[1], tol), "python", "%s: compiled and interpreted results differ" % name, got=outs[0][1], want=rp[1], args=repr(args)[:400])
        obs.check(same(outs[0][1], rb[1], tol), "bounds", "%s: compiled and bounds-checked results differ" % name, got=outs[0][1], want=rb[1], args=repr(args)[:400])
    # arguments of the interpreted run too
    arr = [x for x in args if isinstance(x, np.ndarray)]
    for i, (x, y) in enumerate(zip(arr, rp[2])):
        obs.check(np.array_equal(x, y, equal_nan=True) or WRITES.get(name) == i, "inputs", "%s modifies its input" % name, which=i)
        if WRITES.get(name) == i:
            obs.check(np.array_equal(outs[0][2][i], y), "python", "%s: compiled and interpreted runs write different values" % name, got=outs[0][2][i], want=y)


def run_solve(case, obs):
    for k in ("bounds", "python"):
        TWINS[k].post(("solve", case))
    r = twin.execute(("solve", case))
    rb, rp = TWINS["bounds"].get(), TWINS["python"].get()
    for o, w in ((r, "compiled"), (rb, "bounds-checked"), (rp, "interpreted")):
        if not obs.check(o[0] == "ok", "oob" if w == "bounds-checked" else "python", "%s solve raises %s" % (w, o[1:])):
            return
    a = r[1]
    if not np.all(np.isfinite(a["x"])) or np.any(ref.ecc_of(shadow.et_of(case), a["x"]) > 0.95):
        obs.trivial = True
        return
    for o, w in ((rb, "bounds-checked"), (rp, "interpreted")):
        b = o[1]
        n = min(len(a["c"]), len(b["c"]))
        # a decision within rounding of its threshold may flip: compare up to there
        tie = np.zeros(n, bool)
        with np.errstate(all="ignore"):
            tie |= (np.abs(a["eta"][:n]-a["bnd"][:n]) < 1e-6).any(axis=1)
            d = np.linalg.norm(a["x"][:n+1]-b["x"][:n+1], axis=1)
        k = int(np.argmax(tie)) if tie.any() else n
        if k < n:
            obs.count("ties")
        sc = np.max(np.abs(a["x"]), axis=0)
        ok = bool(np.all(np.abs(a["x"][:k+1]-b["x"][:k+1]) <= 1e-6*sc)) and np.array_equal(a["c"][:k, 2], b["c"][:k, 2]) \
            and np.allclose(a["t"][:k+1], b["t"][:k+1], rtol=1e-7, atol=0) and np.allclose(a["m"][:k+1], b["m"][:k+1], rtol=1e-7) \
            and np.allclose(a["b"][:k+1], b["b"][:k+1], rtol=1e-6, atol=1e-9) and np.allclose(a["Q"][:k], b["Q"][:k], rtol=1e-4, equal_nan=True)
        if k == n:
            ok = ok and len(a["c"]) == len(b["c"]) and a["exitcode"] == b["exitcode"]
        obs.check(ok, "python", "%s solve differs from the compiled one" % w, n=[len(a["c"]), len(b["c"])], exit=[a["exitcode"], b["exitcode"]], dist=d.max())
    obs.count("solves")
    obs.count("solve_exit:%d" % a["exitcode"])
