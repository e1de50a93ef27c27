"""C18: perturbations act exactly once per step as given"""
import copy
from .. import flows, shadow
from ..flows import rand_spec

ID = "C18"
N = dict(quick=600, thorough=35000)
REQUIRED = ["queries", "replayed_thrust", "replayed_coast", "zero_equiv", "impulses", "combo:keplerian/rk4", "combo:keplerian/rkf45", "combo:mee_with_a/rk4",
            "combo:mee_with_a/rkf45", "backward", "checked:flow", "coast_perturbed", "undefined_command_perturbed"]
RULE = ("random solves with an attached perturbation model (constant, periodic, state-dependent, single-step impulses, zero) that logs every query; "
        "exactly-once log check, shadow replay with the returned acceleration, bookkeeping monitors; non-trivial = at least one query")
ASSUMPTIONS = ["model duck-typed at the documented interface get_perturbations_RTN(t, oe, elements_type)"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    if rng.random() < 0.07:
        # exactly circular equinoctial orbit: the law has no command, the perturbation still acts (out of plane keeps it circular)
        st = float(rng.uniform(0.02, 0.1))
        a = float(rng.choice([-1, 1]))*10**rng.uniform(-5, -2)
        s = dict(nan=True, law=dict(nan_angles_threshold=int(rng.integers(3, 60)), integrator=str(rng.choice(["rk4", "rkf45"]))),
                 prob=dict(oe0=[flows.logu(rng, 0.5, 3), 0.0, 0.0, 0.1, 0.05, float(rng.uniform(-3, 3))], oeT=[1.2, 0.1, 0.0, 0.1, 0.1], mass0=1.0,
                           tmax=1e-3, mdot=1e-4, tf_max=st*float(rng.uniform(3, 30)), t_step=st))
        s["pert"] = dict(kind="const", a=[0.0, 0.0, a]) if rng.random() < 0.6 else dict(kind="impulse", a=[a, 0.5*a, a], at=[int(rng.integers(0, 6))])
        return s
    s = rand_spec(rng, nsteps=45, pert=True)
    if rng.random() < 0.5:      # strong perturbations so that a lost or doubled one is visible at once
        g0 = flows.par(s, "mu")/s["prob"]["oe0"][0]**2
        s["pert"]["a"] = [v*0 + float(x) for v, x in zip(s["pert"]["a"], g0*3e-3*rng.normal(size=3))]
    return s


def run(case, obs):
    fl = flows.fly(case, obs=obs)
    shadow.perturbation_calls(case, fl, obs)
    shadow.dynamics(case, fl, obs)
    shadow.law_record(case, fl, obs)
    shadow.mass(case, fl, obs)
    if case["prob"].get("battery_capacity"):
        shadow.battery(case, fl, obs)
    if case.get("nan"):
        obs.count("undefined_command_perturbed", sum(1 for k in range(min(3, fl.n)) if fl.c[k, 2] == 0 and fl.model.vals[k].any()))
    obs.count("combo:%s/%s" % (shadow.et_of(case), flows.par(case, "integrator")), fl.n)
    if case["pert"]["kind"] == "impulse":
        obs.count("impulses", sum(1 for v in fl.model.vals if v.any()))
    if case["prob"]["t_step"] < 0:
        obs.count("backward", fl.n)
    if case["pert"]["kind"] not in ("zero", "impulse"):
        obs.count("coast_perturbed", int((fl.c[:, 2] == 0).sum()))
    if case["pert"]["kind"] == "zero":
        a = copy.deepcopy(case)
        a.pop("pert")
        d = flows.same_histories(flows.fly(a, obs=obs), fl, 1e-12)
        obs.check(d is None, "zero_model", "a zero perturbation model changes the solve: %s" % d)
        obs.count("zero_equiv")
    obs.trivial = not fl.ptrb_log
