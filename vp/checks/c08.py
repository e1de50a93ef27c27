"""C08: every recorded step is flown as recorded"""
from .. import flows, shadow
from ..flows import rand_spec

ID = "C08"
N = dict(quick=700, thorough=40000)
REQUIRED = ["replayed_thrust", "replayed_coast", "unforced_coast", "commands", "backward_steps", "combo:keplerian/rk4", "combo:keplerian/rkf45",
            "combo:mee_with_a/rk4", "combo:mee_with_a/rkf45", "perturbed_steps", "default_bounds", "clipped_states"]
RULE = ("random transfers over element sets, integrators, step modes, directions, duty/battery/effectivity throttling and injected "
        "perturbations; every recorded step is re-flown from its recorded state, command, mass and duration by an independent model; "
        "non-trivial = at least one step re-flown")
ASSUMPTIONS = ["command and Gauss coefficient columns of the slow elements are held over a step (the package's documented scheme)",
               "steps within 2e-3 of an element-set singularity are not compared"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    s = rand_spec(rng, nsteps=50 if rng.random() < 0.95 else 400)
    if rng.random() < 0.2 and not s.get("units"):
        s["law"].pop("oe_min", None)
        s["law"].pop("oe_max", None)
        s["default_bounds"] = True
    elif rng.random() < 0.15:
        flows.clip_bounds(s, rng)
        s["clip"] = True
    return s


def run(case, obs):
    fl = flows.fly(case, obs=obs)
    shadow.dynamics(case, fl, obs)
    shadow.law_record(case, fl, obs)
    et, it = shadow.et_of(case), flows.par(case, "integrator")
    obs.count("combo:%s/%s" % (et, it), fl.n)
    if case.get("pert"):
        obs.count("perturbed_steps", fl.n)
    if case.get("default_bounds"):
        obs.count("default_bounds", fl.n)
    if case.get("clip") and et == "keplerian":
        lo, hi = fl.prob.oe_min[:5], fl.prob.oe_max[:5]
        obs.count("clipped_states", int(((fl.x[:-1, :5] == lo) | (fl.x[:-1, :5] == hi)).any(axis=1).sum()))
    obs.trivial = obs.counters["replayed_steps"] == 0
