"""C32: stopping conditions only cut a flight, and a flight can be resumed from any of its nodes (pairs of real solves)"""
import copy, math
import numpy as np
from .. import flows, pairs, ref, shadow
from ..flows import rand_spec, logu

ID = "C32"
N = dict(quick=1800, thorough=50000)
REQUIRED = ["extended", "extended:time", "extended:mass", "extended:target", "extended:relaxed", "extended:undefined", "prefix_steps", "resumed", "resumed:same_object",
            "resumed:other_object", "resumed:window", "resumed:battery", "resumed:from_floor", "resumed:thresholds", "resumed:perturbed", "resumed:coasting_node", "segments",
            "et:keplerian", "et:mee_with_a", "rk4", "rkf45", "sundman", "backward", "ended:1", "ended:2", "ended:-1", "ended:-2", "checked:trajectory", "checked:outcome",
            "checked:prefix", "cut:time", "cut:mass", "checked:commands", "resumed_steps"]
RULE = ("random solves flown (a) with some of their stopping conditions relaxed (later time, lower mass minimum, tighter tolerance, larger counts) or tightened to end at a chosen node, and (b) in 2-4 "
        "segments, each started from the recorded state, mass and battery level at which the previous one was cut (on the same or a new object); the first "
        "histories must be beginnings of the second, bit by bit in (a), and the concatenated segments must be the unsegmented flight in (b); non-trivial = at "
        "least two steps compared")
ASSUMPTIONS = ["resumption is only claimed at nodes where an ON window begins (with a duty cycle), where no full recharge is pending, and where no "
               "decision is within rounding of its threshold"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    s = rand_spec(rng, nsteps=35, deplete=bool(rng.random() < 0.3))
    p, law = s["prob"], s["law"]
    if p.get("duty_cycle"):
        p["duty_cycle"] = [v*1.0123 for v in p["duty_cycle"]]
    s["mode"] = "extend" if rng.random() < 0.4 else "resume"
    s["conv"] = [float(rng.random()), float(rng.random())]
    if s["conv"][0] < 0.45:
        p["oeT"] = flows.rand_target(rng, shadow.et_of(s), p["oe0"], size=logu(rng, 0.003, 0.1))
        if rng.random() < 0.5:
            law["exit_at_relaxed"] = int(rng.integers(1, 4))
            s["relaxed"] = True
    if s["mode"] == "extend":
        s["ext"] = dict(tf=float(rng.uniform(1.0, 1.6)) if rng.random() < 0.7 else 1.0, mass=bool(rng.random() < 0.7), tol=bool(rng.random() < 0.7),
                        count=bool(rng.random() < 0.7), nan=bool(rng.random() < 0.7))
        s["cut"] = [[float(rng.random()), float(rng.random()), str(rng.choice(["time", "mass", "mass"]))] for _ in range(3)]
        if rng.random() < 0.12:                      # undefined commands: start at the target, nothing to correct
            et = shadow.et_of(s)
            p["oeT"] = list(p["oe0"][:5])
            law["nan_angles_threshold"] = int(rng.integers(0, 6))
            s.pop("pert", None)
            s["undef"] = True
            s["conv"][0] = 1.0
            law["tol_oe"] = [-1.0]*5
    else:
        s["cuts"] = [float(x) for x in rng.random(int(rng.integers(1, 4)))]
        s["reuse"] = bool(rng.random() < 0.5)
        if p.get("battery_capacity") and rng.random() < 0.75:
            p.pop("duty_cycle", None)
    return s


def windows(spec, t):
    """nodes at which an ON window begins, or None when a window edge is within rounding of a node"""
    on, off = flows.par(spec, "duty_cycle")
    starts, duty, ton, toff = [], True, 0.0, 0.0
    for i, ti in enumerate(t):
        if duty:
            if abs(abs(ti-ton)-on) < 1e-8*abs(on):
                return None
            if abs(ti-ton) > on:
                duty, toff = False, ti
        if not duty:
            if off > 0 and abs(abs(ti-toff)-off) < 1e-8*off:
                return None
            if abs(ti-toff) > off:
                duty, ton = True, ti
                starts.append(i)
    return starts


def pending(spec, b):
    """nodes at which a full recharge is pending although the battery is above its floor"""
    cap = flows.par(spec, "battery_capacity")
    out, ch = np.zeros(len(b), bool), False
    for i, v in enumerate(b):
        if v >= cap[1]:
            ch = False
        out[i] = ch
        if v <= cap[0] + 1e-11*max(1.0, cap[1]):
            ch = True
            out[i] = False
    return out


def at_node(spec, fl, k):
    """the same problem from node k of flight fl on, time counted from there"""
    s = copy.deepcopy(spec)
    p = s["prob"]
    tk = float(fl.t[k])
    p["oe0"] = [float(v) for v in fl.x[k]]
    p["mass0"] = float(fl.m[k])
    p["battery_initial"] = float(fl.b[k])
    p["tf_max"] = p["tf_max"]-tk
    for nm in ("eta_a", "eta_r"):
        e = s.get(nm)
        if isinstance(e, dict):
            e["ph"] += e["w"]*tk
            e["t"] -= abs(tk)
    q = s.get("pert")
    if q:
        q["ph"] += q["w"]*tk
        q["at"] = [i-k for i in q["at"]]
    return s


def tail(fl, k):
    return pairs.mapped(fl, t=fl.t[k:]-fl.t[k], x=fl.x[k:], m=fl.m[k:], b=fl.b[k:], c=fl.c[k:], eta=fl.eta[k:], bnd=fl.bnd[k:], Q=fl.Q[k:], dQ=fl.dQ[k:], n=fl.n-k)


def run(case, obs):
    base = copy.deepcopy(case)
    et = shadow.et_of(base)
    with np.errstate(all="ignore"):
        a = flows.fly(base, obs=obs)
    if (a.n < 2 and not case.get("undef")) or not np.all(np.isfinite(a.x)):
        obs.trivial = True
        return
    if case["conv"][0] < 0.45:
        d = a.x[:, :5] - np.asarray(base["prob"]["oeT"])[:5]
        if et == "keplerian":
            d[:, 3:5] = ref.wrap_pi(d[:, 3:5])
        k = 1 + int(case["conv"][1]*(a.n-1))
        tol = np.abs(d[k])*1.02 + 1e-9
        if case.get("relaxed"):
            base["law"]["relaxed_tol_factor"] = 100.0
            tol = tol/100.0
        base["law"]["tol_oe"] = [float(v) for v in tol]
        a = flows.fly(base, obs=obs)
        if a.n < 2:
            obs.trivial = True
            return
    obs.count("ended:%d" % a.exitcode)
    obs.count("et:" + et)
    obs.count(flows.par(base, "integrator"))
    obs.count("sundman", bool(flows.par(base, "use_sundman")))
    obs.count("backward", base["prob"]["t_step"] < 0)
    (extend if case["mode"] == "extend" else resume)(base, case, a, obs)


def extend(base, case, a, obs):
    e = case["ext"]
    s = copy.deepcopy(base)
    if e["tf"] > 1.0:
        s["prob"]["tf_max"] *= e["tf"]
    if e["mass"]:
        s["prob"]["mass_min"] = 0.01
    if e["tol"]:
        s["law"]["tol_oe"] = [v*1e-9 if v > 0 else v for v in flows.par(s, "tol_oe")]
    if e["count"]:
        s["law"]["exit_at_relaxed"] = flows.par(s, "exit_at_relaxed") + 1000
    if e["nan"]:
        s["law"]["nan_angles_threshold"] = flows.par(s, "nan_angles_threshold") + 1000
    with np.errstate(all="ignore"):
        b = flows.fly(s, obs=obs)
    n = a.n
    obs.check(b.n >= n, "prefix", "a flight with relaxed stopping conditions ends earlier", n=[a.n, b.n], ended=[a.exitcode, b.exitcode], ext=e)
    if b.n < n:
        return
    obs.count("extended")
    obs.count("prefix_steps", n)
    if b.n > n:
        obs.count("extended:" + {1: "target", 2: "relaxed", -1: "mass", -2: "time", -3: "undefined"}.get(a.exitcode, "?"))
    xa = a.x.copy()
    if shadow.et_of(base) == "keplerian" and b.n > n and flows.par(base, "oe_min") is not None:     # the next step starts from the safeguarded node
        xa[-1, :5] = np.minimum(np.maximum(xa[-1, :5], base["law"]["oe_min"][:5]), base["law"]["oe_max"][:5])
    beginning(obs, a, b, xa, ext=e)
    # and the longer flight cut at nodes of interest (where thrust starts or stops, or any)
    for u, v, how in case.get("cut", []) if b.n else []:
        th = b.c[:, 2]
        sw = np.flatnonzero(th[1:] != th[:-1]) + 2
        sw = sw[sw <= b.n]
        ks = sw if len(sw) and v < 0.7 else np.arange(1, b.n+1)
        k = int(ks[int(u*len(ks))])
        q = copy.deepcopy(s)
        if how == "time":
            q["prob"]["tf_max"] = math.copysign(abs(float(b.t[k])), q["prob"]["tf_max"])
        elif not (0.01 <= b.m[k] < b.m[0]):
            continue
        else:
            q["prob"]["mass_min"] = float(b.m[k])
        with np.errstate(all="ignore"):
            c = flows.fly(q, obs=obs)
        if not obs.check(c.n <= k, "prefix", "a flight with a tighter stopping condition ends later", n=[c.n, k], how=how):
            continue
        xc = c.x.copy()
        if shadow.et_of(base) == "keplerian" and b.n > c.n and flows.par(base, "oe_min") is not None:
            xc[-1, :5] = np.minimum(np.maximum(xc[-1, :5], base["law"]["oe_min"][:5]), base["law"]["oe_max"][:5])
        beginning(obs, c, b, xc, cut=[how, k])
        obs.count("cut:"+how)


def beginning(obs, a, b, xa, **info):
    ha, hb = flows.histories(a), flows.histories(b)
    ha["x"] = xa
    for k in ha:
        obs.check(np.array_equal(ha[k], hb[k][:len(ha[k])], equal_nan=True), "prefix", "stopping conditions change the flight before its end: " + k,
                  ended=[a.exitcode, b.exitcode], n=[a.n, b.n], **info)


def resume(base, case, a, obs):
    p = base["prob"]
    nodes = np.arange(1, a.n)
    if p.get("duty_cycle"):
        if p.get("battery_capacity"):
            obs.trivial = True
            return
        w = windows(base, a.t)
        if w is None:
            obs.trivial = True
            return
        nodes = np.array([k for k in w if 0 < k < a.n], dtype=int)
    if p.get("battery_capacity") and p.get("require_full_recharge"):
        pend = pending(base, a.b)
        nodes = nodes[~pend[nodes]]
    if len(nodes) == 0:
        obs.trivial = True
        return
    ks = sorted({int(nodes[int(u*len(nodes))]) for u in case["cuts"]})
    prob = flows.build(base) if case["reuse"] else None
    autonomous = not base.get("pert") or base["pert"]["kind"] in ("zero", "const", "state")
    total = 0
    for j, k in enumerate(ks):
        s = at_node(base, a, k)
        b = flows.fly(s, prob=prob, obs=obs)
        t = tail(a, k)
        n = min(t.n, b.n)
        kk, *masks = pairs.conditioned(s, t, n)
        if kk < 1:
            continue
        total += kk
        pairs.compare(obs, s, t, b, kk, masks, "resumed from a node", tol=1e-11 if autonomous else 1e-6, node=k, steps=a.n)
        if kk == n and a.exitcode != -3 and flows.par(base, "exit_at_relaxed") in (1, 100) and not pairs.near_limit(s, t, n):
            obs.check(t.n == b.n and a.exitcode == b.exitcode and bool(a.converge) == bool(b.converge), "outcome", "resumed flight ends differently", node=k,
                      original=[t.n, a.exitcode, a.converge], resumed=[b.n, b.exitcode, b.converge])
        obs.count("resumed")
        obs.count("resumed:same_object" if prob is not None else "resumed:other_object")
        obs.count("resumed:window", bool(p.get("duty_cycle")))
        obs.count("resumed:battery", bool(p.get("battery_capacity")))
        obs.count("resumed:from_floor", bool(p.get("battery_capacity")) and a.b[k] <= flows.par(base, "battery_capacity")[0]*(1+1e-9))
        obs.count("resumed:thresholds", bool(base.get("eta_a")) or bool(base.get("eta_r")))
        obs.count("resumed:perturbed", bool(base.get("pert")))
        obs.count("resumed:coasting_node", a.c[k-1, 2] == 0)
        obs.count("segments", 1 + (j > 0))
    obs.count("resumed_steps", total)
    if total < 2:
        obs.trivial = True
