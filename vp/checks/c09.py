"""C09: aligned histories, requested time grid"""
import copy, math
from .. import flows, shadow
from ..flows import rand_spec

ID = "C09"
N = dict(quick=900, thorough=50000)
REQUIRED = ["full_steps", "floor_steps", "ended_by_time", "checked:duration", "checked:overrun", "ended_otherwise", "backward", "sundman",
            "zero_steps", "exact_end", "limit_near_node", "long_flights", "checked:flow", "checked:aligned"]
RULE = ("random transfers of all modes plus time limits that are exact multiples of the step, below one step, or zero; the time-grid "
        "automaton checks every node; flights of 11 000 and 66 000 steps (thorough: 140 000); non-trivial = at least one step flown")
ASSUMPTIONS = ["mass and battery start inside their limits"]


def warm(tier):
    flows.warm_all()


def structured(tier):
    """flights of very many steps: the only limits are the documented ones"""
    mee = [2.0, 0.15, 0.1, 0.2, 0.1, 0.3]
    kep = [2.0, 0.2, 0.6, 0.4, 0.9, 0.3]
    tm, tk = [9.0, 0.0, 0.3, 0.0, 0.3], [9.0, 0.5, 1.2, 1.0, 0.0]
    com = dict(mass0=1.0, tmax=1e-7, mdot=1e-9, mass_min=0.05)

    def one(et, n, h, **law):
        return dict(long=True, law=dict(elements_type=et, integrator="rk4", tol_oe=[1e-6]*5, **law),
                    prob=dict(oe0=mee if et != "keplerian" else kep, oeT=tm if et != "keplerian" else tk, t_step=h, tf_max=abs(h)*n, **com))
    out = [one("mee_with_a", 66000, 0.01, use_sundman=False), one("keplerian", 11000, -0.02, use_sundman=False)]
    if tier == "thorough":
        out += [one("keplerian", 140000, 0.004, use_sundman=False), one("mee_with_a", 110000, -0.003, use_sundman=False)]
    return out


def gen(rng, tier):
    s = rand_spec(rng, nsteps=40, tight=bool(rng.random() < 0.75))
    p = s["prob"]
    r = rng.random()
    if r < 0.05:
        p["tf_max"] = 0.0
    elif r < 0.1 and not s["law"]["use_sundman"]:
        p["tf_max"] = p["t_step"]*float(rng.uniform(0.1, 1.0))
    elif r < 0.3 and not s["law"]["use_sundman"]:
        st = math.copysign(2.0**int(round(math.log2(abs(p["t_step"])))), p["t_step"])   # exact multiples
        p["t_step"] = st
        p["tf_max"] = st*int(rng.integers(1, 60))
    elif r < 0.4:
        p["tf_max"] = -p["tf_max"]      # only the magnitude limits
    if rng.random() < 0.15 and not s.get("units"):
        s["law"].pop("oe_min", None)
        s["law"].pop("oe_max", None)
    s["replay"] = bool(rng.random() < 0.2)
    if rng.random() < 0.4:
        s["limit"] = [float(rng.random()), str(rng.choice(["at", "up", "down", "just_up", "just_down"])), float(rng.uniform(-12, -3))]
    return s


def relimit(case, fl):
    """the same problem with its time limit placed at, one ulp from, or slightly off a recorded node"""
    u, how, x = case["limit"]
    t = abs(float(fl.t[1 + int(u*(fl.n-1))]))
    t = dict(at=t, up=math.nextafter(t, math.inf), down=math.nextafter(t, 0), just_up=t*(1+10**x), just_down=t*(1-10**x))[how]
    s = copy.deepcopy(case)
    s["prob"]["tf_max"] = math.copysign(t, case["prob"]["tf_max"])
    return s


def run(case, obs):
    fl = flows.fly(case, obs=obs)
    shadow.grid(case, fl, obs)
    # the entries of one node belong together: mass, battery and motion fit the recorded times
    shadow.mass(case, fl, obs)
    if case["prob"].get("battery_capacity") and case["prob"]["t_step"] > 0:
        shadow.battery(case, fl, obs)
    if case.get("replay"):
        shadow.dynamics(case, fl, obs, mech="aligned")
    if case.get("limit") and fl.n > 1 and fl.prob is not None:
        s = relimit(case, fl)
        f2 = flows.fly(s, obs=obs)
        shadow.grid(s, f2, obs)
        obs.count("limit_near_node")
        obs.check(f2.exitcode == -2 or f2.n <= fl.n, "grid2", "propagation continued beyond the node at which it ended before", n=[fl.n, f2.n])
    if fl.n == 0:
        obs.check(flows.par(case, "tf_max") == 0.0, "nostep", "no step was flown although time was allotted")
        obs.count("zero_steps")
        obs.trivial = True
        return
    obs.check(flows.par(case, "tf_max") != 0.0, "nostep", "steps flown with no allotted time")
    if case.get("long"):
        obs.count("long_flights", int(fl.n > 10000))
    if fl.exitcode != -2:
        obs.count("ended_otherwise")
    if flows.par(case, "t_step") < 0:
        obs.count("backward")
    if flows.par(case, "use_sundman"):
        obs.count("sundman")
    if abs(fl.t[-1]) == abs(flows.par(case, "tf_max")):
        obs.count("exact_end")
