"""C13: duty cycles"""
import math
from .. import flows, shadow
from ..flows import rand_spec

ID = "C13"
N = dict(quick=800, thorough=45000)
REQUIRED = ["on_steps", "off_steps", "on_windows", "off_windows", "automaton_complete", "backward", "with_battery", "with_eta", "pure_duty", "sundman",
            "checked:on_no_thrust", "exact_edges"]
RULE = ("duty-heavy random solves (window lengths from below one step to many steps, exact multiples of the step, both directions, anomaly steps, "
        "with batteries and thresholds); window automaton over the record; non-trivial = at least one OFF step")
ASSUMPTIONS = ["comparisons within 1e-9 of a window edge fork the automaton (either branch accepted)"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    bw = bool(rng.random() < 0.4)
    s = rand_spec(rng, nsteps=60, duty=True, backward=bw, battery=(not bw) and bool(rng.random() < 0.35), eta=bool(rng.random() < 0.3))
    if rng.random() < 0.25:
        # dyadic steps and windows: times are exact, so the window edges are decided exactly
        s = rand_spec(rng, nsteps=60, duty=True, backward=bw, battery=False, sundman=False, eta=bool(rng.random() < 0.3))
        p = s["prob"]
        st = math.copysign(2.0**round(math.log2(abs(p["t_step"]))), p["t_step"])*int(rng.choice([1, 3, 5]))
        p["tf_max"] = st*60
        p["t_step"] = st
        p["duty_cycle"] = [abs(st)*int(rng.integers(0, 9)), abs(st)*int(rng.integers(0, 7))]
        if rng.random() < 0.3:
            p["duty_cycle"][int(rng.integers(2))] += abs(st)*float(rng.choice([0.5, 0.25]))
        s["exact_times"] = True
    return s


def run(case, obs):
    fl = flows.fly(case, obs=obs)
    shadow.duty(case, fl, obs)
    if case.get("exact_times"):
        obs.count("exact_edges", fl.n)
    obs.trivial = obs.counters["off_steps"] == 0
    if case["prob"]["t_step"] < 0:
        obs.count("backward", fl.n)
    if case["prob"].get("battery_capacity"):
        obs.count("with_battery", fl.n)
    else:
        obs.count("pure_duty", fl.n)
    if case.get("eta_a") or case.get("eta_r"):
        obs.count("with_eta", fl.n)
    if flows.par(case, "use_sundman"):
        obs.count("sundman", fl.n)
