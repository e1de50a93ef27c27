"""C12: truthful outcome at the first opportunity"""
import contextlib, copy, io, math, re
import numpy as np
from .. import flows, shadow, ref
from ..flows import rand_spec

ID = "C12"
N = dict(quick=700, thorough=40000)
REQUIRED = ["exit1", "exit2", "exit-1", "exit-2", "exit-3", "relaxed_nodes", "undefined_commands", "summaries", "outcomes_decided", "ignored_weight",
            "backward", "single_limit"]
RULE = ("a pilot flight with tight tolerances gives the errors at every node; tolerances, weights, relaxation count, mass and time limits are "
        "then placed exactly around a chosen node and the outcome recomputed from the record; singular circular orbits produce undefined "
        "commands; non-trivial = outcome decided")
ASSUMPTIONS = ["initial state not already at target (the target test applies to reached nodes)",
               "nodes whose error is within rounding of the tolerance are not decided"]


def warm(tier):
    flows.warm_all()


def structured(tier):
    out = []
    # undefined commands: exactly circular equinoctial orbit with inactive or active weights
    for thr in (0, 1, 2, 5, 10):
        for it in ("rk4", "rkf45"):
            out.append(dict(kind="nan", law=dict(nan_angles_threshold=thr, integrator=it),
                            prob=dict(oe0=[1.0, 0.0, 0.0, 0.1, 0.05, 0.3], oeT=[1.2, 0.1, 0.0, 0.1, 0.1], mass0=1.0, tmax=1e-3, mdot=1e-4,
                                      tf_max=1.0, t_step=0.07)))
            # kicked off the singularity by an impulse at step 3
            out.append(dict(kind="nan", law=dict(nan_angles_threshold=thr, integrator=it),
                            prob=dict(oe0=[1.0, 0.0, 0.0, 0.1, 0.05, 0.3], oeT=[1.2, 0.1, 0.0, 0.1, 0.1], mass0=1.0, tmax=1e-3, mdot=1e-4,
                                      tf_max=1.0, t_step=0.07), pert=dict(kind="impulse", a=[1e-3, 1e-3, 0.0], at=[3])))
    return out


def gen(rng, tier):
    if rng.random() < 0.08:
        thr = int(rng.integers(0, 8))
        k = int(rng.integers(0, 10))
        st = float(rng.uniform(0.02, 0.1))
        s = dict(kind="nan", law=dict(nan_angles_threshold=thr, integrator=str(rng.choice(["rk4", "rkf45"]))),
                 prob=dict(oe0=[flows.logu(rng, 0.5, 3), 0.0, 0.0, 0.1, 0.05, float(rng.uniform(-3, 3))], oeT=[1.2, 0.1, 0.0, 0.1, 0.1], mass0=1.0,
                           tmax=1e-3, mdot=1e-4, tf_max=st*float(rng.uniform(1, 15)), t_step=st))
        if rng.random() < 0.6:
            s["pert"] = dict(kind="impulse", a=[1e-3, 1e-3, 0.0], at=[k])
        return s
    s = rand_spec(rng, nsteps=40, pert=False if rng.random() < 0.8 else None)
    s["kind"] = "place"
    p = s["prob"]
    # targets close to the start so that errors shrink within the flight
    p["oeT"] = flows.rand_target(rng, shadow.et_of(s), p["oe0"], size=flows.logu(rng, 0.003, 0.1))
    g0 = flows.par(s, "mu")/p["oe0"][0]**2
    p["tmax"] = p["mass0"]*g0*flows.logu(rng, 1e-3, 3e-2)
    s["pick"] = [float(rng.random()) for _ in range(4)]
    s["mode"] = str(rng.choice(["tol", "relaxed", "mass", "time", "one", "both"]))
    s["extra"] = float(rng.choice([1.0, 1.0 + 1e-6, 1.5]))
    s["rfac"] = float(rng.choice([1.0, 2.0, 10.0, 1e6]))
    s["nrel"] = int(rng.integers(1, 6))
    s["turns"] = [int(x) for x in rng.integers(-2, 3, 2)]
    return s


def errors(et, x, oeT):
    d = x[:, :5] - np.asarray(oeT)[:5]
    if et == "keplerian":
        d[:, 3:5] = ref.wrap_pi(d[:, 3:5])
    return np.abs(d)


def run(case, obs):
    new = flows.build(case)
    obs.check(new.exitcode == 0 and not new.converge, "unsolved", "an object that has not solved anything claims an outcome", exitcode=new.exitcode, converge=new.converge)
    new.set_problem(**flows.prob_kwargs(case))
    obs.check(new.exitcode == 0 and not new.converge, "unsolved", "an object that has only been given a problem claims an outcome", exitcode=new.exitcode, converge=new.converge)
    if case["kind"] == "nan":
        fl = flows.fly(case, obs=obs)
        shadow.outcome(case, fl, obs)
        X = fl.x[:-1]
        sing = (X[:, 1] == 0) & (X[:, 2] == 0)
        und = np.isnan(fl.bnd).any(axis=1)
        shadow.vec(obs, und & ~sing, "undef_elsewhere", "command undefined at a regular state", oe=X)
        obs.check(not np.any(fl.c[und, 2] == 1), "undef_thrust", "throttle one on an undefined command")
        thr = flows.par(case, "nan_angles_threshold")
        nxt = fl.x[-1, 1] == 0 and fl.x[-1, 2] == 0
        if nxt and abs(fl.t[-1]) < abs(flows.par(case, "tf_max")):
            obs.check(fl.exitcode == -3 and int(und.sum()) == thr, "status-3", "undefined-command limit not applied", exitcode=fl.exitcode,
                      undefined=int(und.sum()), allowed=thr)
        summary(case, fl, obs)
        return
    pilot = flows.fly(case, obs=obs)
    shadow.outcome(case, pilot, obs)
    et = shadow.et_of(case)
    if not np.isfinite(pilot.x).all() or pilot.n < 5:
        obs.trivial = True
        return
    s = copy.deepcopy(case)
    p, law = s["prob"], s["law"]
    if et == "keplerian":
        p["oeT"][3] += 2*math.pi*case["turns"][0]
        p["oeT"][4] += 2*math.pi*case["turns"][1]
    err = errors(et, pilot.x, p["oeT"])
    w = np.asarray(flows.par(s, "woe")) != 0
    # node at which the weighted errors are jointly small (or any node)
    sc = err/np.maximum(err.max(axis=0), 1e-12)
    q = np.where(w, sc, 0).max(axis=1)
    k = int(np.argmin(q[1:]))+1 if case["pick"][0] < 0.5 else 1 + int(case["pick"][1]*(pilot.n-1))
    mode = case["mode"]
    tol = err[k]*case["extra"] + 1e-9
    if mode == "one":          # only one element decides
        j = int(case["pick"][2]*5) % 5
        tol = np.full(5, 1e9)
        tol[j] = err[k, j]*case["extra"] + 1e-9
        obs.count("single_limit")
    if mode in ("relaxed", "both"):
        law["relaxed_tol_factor"] = case["rfac"]
        law["exit_at_relaxed"] = case["nrel"]
        tol = tol/case["rfac"]
    if mode == "time":
        p["tf_max"] = pilot.t[k]*(0.999 if case["pick"][2] < 0.5 else 1.0)
        tol = np.full(5, 1e-12)
    if mode in ("mass", "both") and pilot.m[0] > pilot.m[k] > 0.0101:
        p["mass_min"] = pilot.m[k]*(1.0 if case["pick"][2] < 0.5 else 1-1e-9)
        if mode == "mass":
            tol = np.full(5, 1e-12)
    if not w.all():
        tol = np.where(w, tol, 1e-13)     # ignored elements have impossible tolerances
        obs.count("ignored_weight")
    law["tol_oe"] = [float(v) for v in tol]
    yes, may = shadow.within(et, pilot.x[0], p["oeT"], flows.par(s, "woe"), tol)
    fl = flows.fly(s, obs=obs)
    shadow.outcome(s, fl, obs)
    summary(s, fl, obs)
    if p["t_step"] < 0:
        obs.count("backward")
    obs.trivial = obs.counters["outcomes_decided"] == 0


NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def summary(spec, fl, obs):
    """printed summary reports status, flag, final state, time, mass"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fl.prob.pretty_results()
    txt = out.getvalue()
    m = re.search(r"[Ee]xit\s*code\s*:\s*(-?\d+)", txt)
    obs.check(bool(m) and int(m.group(1)) == fl.exitcode, "summary", "exit code not reported", text=txt[:400], want=fl.exitcode)
    m = re.search(r"[Cc]onverged?\s*:\s*(True|False)", txt)
    obs.check(bool(m) and (m.group(1) == "True") == bool(fl.converge), "summary", "converged flag not reported", text=txt[:400])

    def near(label, want, k=0):
        m = re.search(label + r"\s*:\s*(" + NUM + ")", txt)
        ok = bool(m) and abs(float(m.group(1))-want) <= 2e-4*abs(want) + 1e-300
        obs.check(ok, "summary", "%s not reported" % label, text=txt[:600], want=want)
    for j, nm in enumerate(fl.prob.element_names[:5]):
        near(r"(?m)^\s*" + re.escape(nm), float(fl.x[-1, j]))
    near(r"[Tt]ransfer time", float(fl.t[-1]))
    near(r"[Ff]inal mass", float(fl.m[-1]))
    obs.count("summaries")
