"""C25: invalid definitions are rejected at the call that introduces them and leave everything else intact"""
import contextlib, copy, functools, io, math
import numpy as np
from .. import flows, shadow
from ..flows import rand_spec
import pyqlaw

ID = "C25"
N = dict(quick=700, thorough=30000)
REQUIRED = ["ctor:mu", "ctor:elements_type", "ctor:integrator", "ctor:tol_oe", "ctor:relaxed", "setter:mu", "setter:elements_type", "setter:integrator",
            "set:oe0", "set:oeT", "set:woe", "set:mass_min", "solve:eta_a", "solve:eta_r", "solve:unset", "solve:unset_after_reject", "valid", "valid:mass_min",
            "valid:relaxed", "valid:oeT6", "valid:eta_float64", "valid:eta_partial", "valid:eta_object", "valid:eta_one", "checked:intact", "checked:solvable",
            "resolves", "untouched_results", "set:two", "valid:mu_assign", "valid:integrator_assign"]
RULE = ("random sequences of rejected and accepted constructor, assignment, problem and solve calls on one object; every rejected call must raise, leave every setting, "
        "problem value and recorded result as it was, and not reach the client callbacks; the object then solves its last accepted problem exactly as a fresh object "
        "does; non-trivial = at least one rejected call")
ASSUMPTIONS = ["later assignment is validated for the gravitational parameter, element set and integrator"]

ATTRS = ("mu elements_type integrator oe0 oeT woe mass0 tmax mdot tf_max t_step mass_min duty_cycle battery_initial battery_capacity "
         "battery_charge_discharge_rate require_full_recharge tol_oe tol_oe_relaxed exit_at_relaxed ready converge exitcode rpmin k_petro m_petro n_petro r_petro "
         "b_petro wp anomaly_grid_size oe_min oe_max nan_angles_threshold use_sundman times states masses controls etas etas_bounds Qs dQdts battery").split()

BAD = dict(mu=[0.0, -1.0, -1e-300, 0, -398600.44, float("nan"), float("-inf"), -0.0],
           elements_type=["kep", "Keplerian", "mee", "mee_with_A", "", "cartesian", None, " keplerian", "keplerian "],
           integrator=["rk5", "RK4", "rkf", "euler", "", None, "rk45", "rkf45 "],
           relaxed=[0.999999, 0.0, 0, -1.0, -10, float("nan"), math.nextafter(1.0, 0.0)],
           mass_min=[0.0, -1.0, 0.00999, math.nextafter(0.01, 0.0), 1e-300, float("nan"), 0, -0.01],
           eta=["None", "str", "list", "tuple", "dict", "int", "complex", "array"])
LENS = dict(oe0=[0, 1, 3, 5, 7, 12], oeT=[0, 1, 4, 7, 10], woe=[0, 1, 4, 6], tol=[0, 1, 4, 6, 10])
ETA = {"None": None, "str": "0.1", "list": [0.1], "tuple": (0.1,), "dict": {}, "int": 1, "complex": 1j, "array": np.array([0.1, 0.2])}


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    s = rand_spec(rng, units=False, nsteps=8, pert=False)
    alts = [rand_spec(rng, units=False, et=shadow.et_of(s), nsteps=6, pert=False)["prob"] for _ in range(2)]
    kinds = ["ctor:mu", "ctor:elements_type", "ctor:integrator", "ctor:tol_oe", "ctor:relaxed", "setter:mu", "setter:elements_type", "setter:integrator",
             "set:oe0", "set:oeT", "set:woe", "set:mass_min", "set:two", "solve:eta_a", "solve:eta_r", "valid", "valid:mu_assign", "valid:integrator_assign", "resolve"]
    ops = []
    for _ in range(int(rng.integers(3, 9))):
        k = str(rng.choice(kinds))
        ops.append(dict(op=k, r=int(rng.integers(1 << 30)), other=int(rng.integers(1 << 30)), alt=int(rng.integers(2))))
    s["ops"] = ops
    s["alts"] = alts
    s["fresh"] = bool(rng.random() < 0.3)
    return s


def state(p):
    d = {}
    for a in ATTRS:
        if hasattr(p, a):
            v = getattr(p, a)
            if isinstance(v, np.ndarray):
                v = ("nd", v.copy())
            elif isinstance(v, (list, tuple)):
                v = ("seq", len(v), np.array([np.asarray(x, dtype=float) for x in v], dtype=float) if len(v) else 0)
            d[a] = v
    return d


def differs(a, b):
    if set(a) != set(b):
        return sorted(set(a) ^ set(b))[0]
    for k in a:
        u, v = a[k], b[k]
        if isinstance(u, tuple):
            if not isinstance(v, tuple) or u[0] != v[0] or len(u) != len(v) or not all(np.array_equal(x, y, equal_nan=True) if isinstance(x, np.ndarray) else x == y
                                                                                    for x, y in zip(u[1:], v[1:])):
                return k
        elif not (u is v or u == v or (isinstance(u, float) and isinstance(v, float) and math.isnan(u) and math.isnan(v))):
            return k
    return None


def rejected(obs, call, what, **ctx):
    """the call must raise an ordinary exception"""
    obs.count(what)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            call()
    except Exception as e:
        return obs.check(True, "rejected")
    return obs.check(False, "rejected", "invalid definition accepted: %s" % what, **ctx)


def pick(seq, r):
    return seq[r % len(seq)]


def vec(n, seed):
    return np.random.default_rng(seed).uniform(0.05, 0.9, n)


class Eta:
    def __init__(self, v):
        self.v = v

    def __call__(self, t, oe, mass, battery):
        return self.v


def run(case, obs):
    base = dict(law=case["law"], prob=case["prob"])
    if case["fresh"]:
        p = flows.build(base)
        s0 = state(p)
        rejected(obs, lambda: p.solve(), "solve:unset")
        obs.check(differs(s0, state(p)) is None, "intact", "solving an unset problem changed the object: %s" % differs(s0, state(p)))
        kw = flows.prob_kwargs(base)
        k = pick(["oe0", "oeT", "woe", "mass_min"], case["ops"][0]["r"])
        kw[k] = 1e-3 if k == "mass_min" else vec(8, 1)
        rejected(obs, lambda: p.set_problem(**kw), "set:" + k)
        rejected(obs, lambda: p.solve(), "solve:unset_after_reject")
        prob = p
    else:
        prob = flows.build(base)
    fl = flows.Flight()
    prob.set_problem(**flows.prob_kwargs(base))
    cur = copy.deepcopy(base)          # what a fresh object would be given
    have = None
    if case["ops"][0]["r"] % 2:
        flows.solve(prob, cur, fl)
        have = flows.snap(prob, cur)
    calls = []

    def cb(t, oe, m, b):
        calls.append(t)
        return 0.0
    n_rej = 0
    for o in case["ops"]:
        k, r = o["op"], o["r"]
        before = state(prob)
        rej = True
        if k.startswith("ctor:"):
            kw = flows.law_kwargs(base)
            if r & 1:
                kw = {"verbosity": 0}
            f = k[5:]
            if f == "tol_oe":
                n = pick(LENS["tol"], r >> 2)
                kw["tol_oe"] = vec(n, r) if r & 2 else list(vec(n, r))
            elif f == "relaxed":
                kw["relaxed_tol_factor"] = pick(BAD["relaxed"], r >> 2)
            else:
                kw[f] = pick(BAD[f], r >> 2)
            rejected(obs, lambda: pyqlaw.QLaw(**kw), k, kw={a: kw[a] for a in kw if a in (f, "tol_oe", "relaxed_tol_factor")})
        elif k.startswith("setter:"):
            f = k[7:]
            v = pick(BAD[f], r >> 2)
            rejected(obs, lambda: setattr(prob, f, v), k, value=v)
        elif k.startswith("set:"):
            kw = flows.prob_kwargs(dict(prob=case["alts"][o["alt"]]))
            fs = [k[4:]] if k != "set:two" else ["oe0", "woe", "oeT", "mass_min"][r % 3:][:2]
            for f in fs:
                if f == "mass_min":
                    kw[f] = pick(BAD["mass_min"], r >> 2)
                else:
                    n = pick(LENS[f], r >> 2)
                    kw[f] = vec(n, r) if r & 2 else list(vec(n, r))
            rejected(obs, lambda: prob.set_problem(**kw), k, lens={f: (kw[f] if f == "mass_min" else len(kw[f])) for f in fs})
        elif k.startswith("solve:"):
            bad = ETA[pick(BAD["eta"], r >> 2)]
            good = [0.0, 0.3, cb, 1.0][o["other"] % 4]
            kw = {k[6:]: bad, ("eta_r" if k[6:] == "eta_a" else "eta_a"): good}
            n0 = len(calls)
            rejected(obs, lambda: prob.solve(**kw), k, bad=repr(bad), good=repr(good))
            obs.check(len(calls) == n0, "intact", "rejected solve reached the client callback")
            if have is not None:
                obs.count("untouched_results")
        else:
            rej = False
            obs.count(k)
            if k == "valid":
                cur["prob"] = copy.deepcopy(case["alts"][o["alt"]])
                if r & 1:
                    cur["prob"]["mass_min"] = 0.01
                    obs.count("valid:mass_min")
                kw = flows.prob_kwargs(cur)
                if r & 2:
                    kw["oeT"] = np.append(kw["oeT"], float(r % 7))
                    obs.count("valid:oeT6")
                if r & 4 and "woe" in kw:
                    kw["woe"] = list(kw["woe"])
                prob.set_problem(**kw)
                have = None
            elif k == "valid:mu_assign":
                cur["law"] = dict(cur["law"], mu=flows.par(cur, "mu")*1.01)
                prob.mu = cur["law"]["mu"]
                obs.check(prob.mu == cur["law"]["mu"], "accepted", "assignment of mu has no effect")
                have = None
            elif k == "valid:integrator_assign":
                cur["law"] = dict(cur["law"], integrator=["rk4", "rkf45"][r % 2])
                prob.integrator = cur["law"]["integrator"]
                obs.check(prob.integrator == cur["law"]["integrator"], "accepted", "assignment of the integrator has no effect")
                have = None
            elif k == "resolve":
                have = resolve(prob, cur, obs, r)
        if rej:
            n_rej += 1
            after = state(prob)
            d = differs(before, after)
            obs.check(d is None, "intact", "rejected call (%s) changed %s" % (k, d), before=before.get(d), after=after.get(d))
    resolve(prob, cur, obs, case["ops"][0]["other"])
    # accepted boundary of the constructor
    law = dict(cur["law"], relaxed_tol_factor=[1, 1.0][case["ops"][0]["r"] % 2])
    with contextlib.redirect_stdout(io.StringIO()):
        q = flows.build(dict(law=law, prob=cur["prob"]))
    obs.check(np.array_equal(q.tol_oe_relaxed, q.tol_oe), "accepted", "relaxation factor one")
    obs.count("valid:relaxed")
    obs.trivial = n_rej == 0


def resolve(prob, cur, obs, r):
    """the object solves its current problem as a fresh one does"""
    kinds = ["plain", "eta_float64", "eta_partial", "eta_object", "eta_one", "eta_lambda"]
    kd = kinds[r % len(kinds)]
    v = {"plain": 0.0, "eta_float64": np.float64(0.4), "eta_partial": functools.partial(lambda c, t, oe, m, b: c, 0.4), "eta_object": Eta(0.4), "eta_one": 1.0,
         "eta_lambda": lambda t, oe, mass, battery: 0.4}[kd]
    w = {"plain": 0.0, "eta_one": 1.0}.get(kd, 0.4)
    which = "eta_a" if r & 64 else "eta_r"
    with contextlib.redirect_stdout(io.StringIO()):
        prob.solve(**{which: v})
    obs.count("valid:" + kd)
    a = flows.snap(prob, cur, obs=obs)
    ref = flows.build(cur)
    ref.set_problem(**flows.prob_kwargs(cur))
    with contextlib.redirect_stdout(io.StringIO()):
        ref.solve(**{which: w})
    b = flows.snap(ref, cur)
    d = flows.same_histories(a, b)
    obs.check(d is None, "solvable", "object does not solve its last accepted problem as a fresh object does: %s" % d, kind=kd)
    obs.count("resolves")
    return a
