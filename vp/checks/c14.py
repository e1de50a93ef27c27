"""C14: battery"""
from .. import flows, shadow
from ..flows import rand_spec

ID = "C14"
N = dict(quick=800, thorough=45000)
REQUIRED = ["floor_stops", "floor_steps", "full_steps", "full_recharges", "on_steps", "off_steps", "automaton_complete", "with_duty", "with_eta", "rk4", "rkf45",
            "sundman", "start_at_floor", "full_required", "not_required", "large_units"]
RULE = ("battery-heavy random solves (levels starting anywhere incl. at the bounds, lifetimes from 1.5 steps, recharge rules, duty cycles, "
        "thresholds, battery units over 13 decades); energy automaton over the record; non-trivial = at least one step starting or ending on the floor "
        "or an OFF step")
ASSUMPTIONS = ["forward propagation; initial level within the bounds", "comparisons within 1e-9 of a limit fork the automaton"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    s = rand_spec(rng, nsteps=70, battery=True, backward=False, duty=bool(rng.random() < 0.35), eta=bool(rng.random() < 0.3))
    p = s["prob"]
    if rng.random() < 0.35:
        sc = 10**float(rng.uniform(-5, 8))
        p["battery_capacity"] = [v*sc for v in p["battery_capacity"]]
        p["battery_charge_discharge_rate"] = [v*sc for v in p["battery_charge_discharge_rate"]]
        b0 = p["battery_initial"]*sc
        p["battery_initial"] = min(max(b0, p["battery_capacity"][0]), p["battery_capacity"][1])
        for nm in ("eta_a", "eta_r"):
            if isinstance(s.get(nm), dict):
                s[nm]["b"] = s[nm]["b"]*sc
    return s


def run(case, obs):
    fl = flows.fly(case, obs=obs)
    shadow.grid(case, fl, obs)
    shadow.battery(case, fl, obs)
    p = case["prob"]
    obs.trivial = obs.counters["off_steps"] == 0 and obs.counters["floor_stops"] == 0
    if p.get("duty_cycle"):
        obs.count("with_duty", fl.n)
    if case.get("eta_a") or case.get("eta_r"):
        obs.count("with_eta", fl.n)
    obs.count(flows.par(case, "integrator"), fl.n)
    if flows.par(case, "use_sundman"):
        obs.count("sundman", fl.n)
    if p["battery_initial"] == p["battery_capacity"][0]:
        obs.count("start_at_floor")
    obs.count("full_required" if p.get("require_full_recharge") else "not_required")
    if p["battery_capacity"][1] > 1e4:
        obs.count("large_units")
