"""C33: mirrored and time-reversed problems give mirrored and time-reversed flights (pairs of real solves)"""
import copy, math
import numpy as np
from .. import flows, pairs, ref, shadow
from ..flows import rand_spec, logu

ID = "C33"
N = dict(quick=1300, thorough=50000)
SYMS = ("equator", "turn", "reverse", "turn_y", "turn_x")
REQUIRED = ["pairs", "equator", "turn", "reverse", "turn_y", "turn_x", "compositions", "et:keplerian", "et:mee_with_a", "rk4", "rkf45", "sundman", "backward",
            "duty", "battery", "perturbed", "thresholds", "retrograde", "ended:1", "ended:-1", "ended:-2", "checked:trajectory", "checked:outcome", "checked:commands",
            "checked:rate", "checked:effectivity", "compared_steps", "coasting"]
RULE = ("random solves and their images under mirroring at the equator, half turns about a line in the reference plane with time reversed, and plain time reversal (Keplerian, and the "
        "compositions), with targets, perturbations and thresholds transformed alike; histories are mapped back and compared node by node up to the first "
        "ill-conditioned command or threshold tie; non-trivial = a pair compared over at least two steps")
ASSUMPTIONS = ["time reversal is compared at constant mass and without a battery (propellant and charge run backward in backward flights by design)",
               "equinoctial half turns need zero weight on the element whose documented maximum rate is not mirror-symmetric (k, respectively h)"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    et = str(rng.choice(["keplerian", "mee_with_a"]))
    sym = [str(x) for x in rng.permutation(["equator", "turn", "reverse"])[:int(rng.integers(1, 4))]] if et == "keplerian" else \
        [["equator"], ["turn_y"], ["turn_x"], ["equator", "turn_x"], ["equator", "turn_y"]][int(rng.integers(5))]
    timed = any(x != "equator" for x in sym)
    s = rand_spec(rng, et=et, nsteps=35, deplete=bool(not timed and rng.random() < 0.75), battery=False if timed else (True if rng.random() < 0.4 else None), units=False)
    p = s["prob"]
    if et == "keplerian" and rng.random() < 0.3:
        p["oe0"][2] = math.pi - p["oe0"][2] if p["oe0"][2] < 2.9 else p["oe0"][2]
        p["oeT"] = flows.rand_target(rng, et, p["oe0"])
    s["law"]["oe_min"], s["law"]["oe_max"] = ([1e-3, 1e-8, 1e-8, -1e9, -1e9, -1e9], [1e6, 0.999, math.pi-1e-8, 1e9, 1e9, 1e9]) if et == "keplerian" else (None, None)
    if timed:
        p["mdot"] = 0.0
        p["mass_min"] = 0.01
    if p.get("duty_cycle"):
        p["duty_cycle"] = [v*1.0123 for v in p["duty_cycle"]]
    w = list(p.get("woe") or [1.0]*5)
    if "turn_x" in sym:
        w[4] = 0.0
    if "turn_y" in sym:
        w[3] = 0.0
    if sum(w) == 0:
        w[0] = 1.0
    p["woe"] = w
    s["sym"] = sym
    s["conv"] = [float(rng.random()), float(rng.random())]
    if s["conv"][0] < 0.3:
        p["oeT"] = flows.rand_target(rng, et, p["oe0"], size=logu(rng, 0.003, 0.1))
    return s


def image(sym, et, x):
    """image of elements (rows of 6, or 5)"""
    x = np.array(x, dtype=float)
    y = x.copy()
    six = x.shape[-1] == 6
    if et == "keplerian":
        if sym == "equator":
            y[..., 3] = x[..., 3] + math.pi
            y[..., 4] = x[..., 4] + math.pi
        elif sym == "turn":
            y[..., 3], y[..., 4] = -x[..., 3], -x[..., 4]
            if six:
                y[..., 5] = -x[..., 5]
        elif sym == "reverse":
            y[..., 2] = math.pi - x[..., 2]
            y[..., 3] = x[..., 3] + math.pi
            y[..., 4] = math.pi - x[..., 4]
            if six:
                y[..., 5] = -x[..., 5]
    else:
        if sym == "equator":
            y[..., 3], y[..., 4] = -x[..., 3], -x[..., 4]
        elif sym == "turn_x":
            y[..., 2], y[..., 4] = -x[..., 2], -x[..., 4]
            if six:
                y[..., 5] = -x[..., 5]
        elif sym == "turn_y":
            y[..., 1], y[..., 3] = -x[..., 1], -x[..., 3]
            if six:
                y[..., 5] = math.pi - x[..., 5]
    return y


RTN = dict(equator=(1, 1, -1), turn=(1, -1, -1), turn_y=(1, -1, -1), turn_x=(1, -1, -1), reverse=(1, -1, -1))      # image of an acceleration


def transform(s, sym):
    s = copy.deepcopy(s)
    et = shadow.et_of(s)
    p = s["prob"]
    for k in ("oe0", "oeT"):
        p[k] = [float(v) for v in image(sym, et, p[k])]
    timed = sym != "equator"
    if timed:
        p["t_step"], p["tf_max"] = -p["t_step"], -p["tf_max"]
    q = s.get("pert")
    if q:
        a = [v*f for v, f in zip(q["a"], RTN[sym])]
        if q["kind"] == "state":          # a*(sin of the fast angle, cos of the fast angle, second element)
            if sym in ("turn", "turn_x", "reverse"):
                a[0] = -a[0]
            elif sym == "turn_y":
                a[1], a[2] = -a[1], -a[2]
        q["a"] = a
        if timed:
            q["w"] = -q["w"]
    for nm in ("eta_a", "eta_r"):
        e = s.get(nm)
        if isinstance(e, dict):
            if timed:
                e["w"] = -e["w"]
            if sym == "turn_y" and e["fn"] == "lat":        # v*(0.5+0.5 cos L)
                e["fn"] = "tal"
    return s


def back(sym, et, b):
    """histories of an image flight mapped back (the inverse of each image is itself, up to whole turns)"""
    x = image(sym, et, b.x)
    c = b.c.copy()
    t, dQ = b.t, b.dQ
    if sym == "equator":
        c[:, 1] = -c[:, 1]
    else:
        t, dQ = -b.t, -b.dQ
        c[:, 0] = -c[:, 0]
    return pairs.mapped(b, x=x, c=c, t=t, dQ=dQ)


def run(case, obs):
    base = copy.deepcopy(case)
    et = shadow.et_of(base)
    a = flows.fly(base, obs=obs)
    if a.n < 2 or not np.all(np.isfinite(a.x)):
        obs.trivial = True
        return
    if case["conv"][0] < 0.4:
        d = a.x[:, :5] - np.asarray(base["prob"]["oeT"])[:5]
        if et == "keplerian":
            d[:, 3:5] = ref.wrap_pi(d[:, 3:5])
        k = 1 + int(case["conv"][1]*(a.n-1))
        base["law"]["tol_oe"] = [float(v) for v in np.abs(d[k])*1.02 + 1e-9]
        a = flows.fly(base, obs=obs)
    sc = base
    for y in case["sym"]:
        sc = transform(sc, y)
    b = flows.fly(sc, obs=obs)
    for y in reversed(case["sym"]):
        b = back(y, et, b)
    # whole turns introduced by mapping there and back
    turn = np.round((b.x[0]-a.x[0])/(2*math.pi))*2*math.pi
    turn[:3] = 0
    if et != "keplerian":
        turn[:5] = 0
    b.x = b.x - turn
    k, *masks = pairs.conditioned(base, a, min(a.n, b.n))
    obs.count("compared_steps", k)
    if k < 2:
        obs.trivial = True
        return
    pairs.compare(obs, base, a, b, k, masks, "+".join(case["sym"]), sym=" ".join(case["sym"]))
    if k == min(a.n, b.n) and not pairs.near_limit(base, a, k):
        obs.check(a.n == b.n and a.exitcode == b.exitcode and bool(a.converge) == bool(b.converge), "outcome", "outcome differs", a=[a.n, a.exitcode, a.converge],
                  b=[b.n, b.exitcode, b.converge], sym=case["sym"])
        obs.count("ended:%d" % a.exitcode)
    p = base["prob"]
    obs.count("pairs")
    for y in case["sym"]:
        obs.count(y)
    obs.count("compositions", len(case["sym"]) > 1)
    obs.count("et:" + et)
    obs.count(flows.par(base, "integrator"))
    obs.count("sundman", bool(flows.par(base, "use_sundman")))
    obs.count("backward", p["t_step"] < 0)
    obs.count("retrograde", et == "keplerian" and p["oe0"][2] > math.pi/2)
    obs.count("duty", bool(p.get("duty_cycle")))
    obs.count("battery", bool(p.get("battery_capacity")))
    obs.count("perturbed", bool(base.get("pert")))
    obs.count("thresholds", bool(base.get("eta_a")) or bool(base.get("eta_r")))
    obs.count("coasting", int((a.c[:k, 2] == 0).sum()))
