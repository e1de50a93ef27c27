"""C10: anomaly stepping"""
import math
import numpy as np
from .. import flows, shadow
from ..flows import rand_spec

ID = "C10"
N = dict(quick=900, thorough=50000)
REQUIRED = ["anomaly_steps", "coast_gain_steps", "periapsis_crossings", "apoapsis_crossings", "turns", "backward", "et:keplerian", "et:mee_with_a",
            "large_steps", "mu_not_1"]
RULE = ("anomaly-step solves over all eccentricities, starting anomalies (many turns, exactly at the apses), step angles of either sign, mu, "
        "throttle patterns; each step's duration against Kepler's equation at the recorded state; non-trivial = at least one decided step")
ASSUMPTIONS = ["states within 1e-6 of circular (MEE) or 1e-3 (Keplerian) are not compared"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    et = str(rng.choice(["keplerian", "mee_with_a"]))
    s = rand_spec(rng, et=et, sundman=True, nsteps=40, small_thrust=True, battery=bool(rng.random() < 0.15), backward=bool(rng.random() < 0.4))
    p = s["prob"]
    if p.get("battery_capacity") and p["t_step"] < 0:
        p["t_step"] = -p["t_step"]
    k = flows.rand_kep(rng, emin=0.002, emax=0.9)
    r = rng.random()
    if r < 0.15:
        k[5] = math.pi*int(rng.integers(-5, 6))
    elif r < 0.3:
        k[5] = float(rng.uniform(-60, 60))
    oe0 = np.array(k)
    p["oe0"] = [float(v) for v in (oe0 if et == "keplerian" else flows.ref.kep2meea(oe0))]
    p["oeT"] = flows.rand_target(rng, et, p["oe0"])
    r = rng.random()
    sg = math.copysign(1.0, p["t_step"])
    if r < 0.25:
        p["t_step"] = sg*float(rng.uniform(0.6, 3.0))
    elif r < 0.35:
        p["t_step"] = sg*float(rng.uniform(3.0, 7.0))
    elif r < 0.6:
        p["t_step"] = sg*flows.logu(rng, 1e-3, 0.1)
    P = flows.period(et, p["oe0"], flows.par(s, "mu"))
    p["tf_max"] = sg*P*abs(p["t_step"])/6.28*30
    s["max_nodes"] = 20000
    p["tmax"] = min(p["tmax"], 2e-3*p["mass0"]*flows.par(s, "mu")/p["oe0"][0]**2)
    if rng.random() < 0.4:      # coast all the way
        s["eta_a"] = 1.5 if rng.random() < 0.5 else dict(fn="const", v=2.0)
        s.pop("pert", None)
    return s


def run(case, obs):
    fl = flows.fly(case, obs=obs)
    shadow.sundman(case, fl, obs)
    obs.trivial = obs.counters["anomaly_steps"] == 0
    n = obs.counters["anomaly_steps"]
    obs.count("et:" + shadow.et_of(case), n)
    st = flows.par(case, "t_step")
    if st < 0:
        obs.count("backward", n)
    if abs(st) > 1.0:
        obs.count("large_steps", n)
    if flows.par(case, "mu") != 1.0:
        obs.count("mu_not_1", n)
