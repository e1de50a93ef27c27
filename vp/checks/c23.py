"""C23: results do not depend on units, node origin or whole turns of angle (metamorphic pairs of real solves)"""
import copy, math
import numpy as np
from .. import flows, ref, shadow
from ..flows import rand_spec, logu

ID = "C23"
N = dict(quick=1200, thorough=42000)
REQUIRED = ["pairs", "units:length", "units:time", "units:mass", "units:battery", "turns", "node", "target_turns", "et:keplerian", "et:mee_with_a", "sundman", "backward",
            "duty", "battery", "perturbed", "thresholds", "ended:1", "ended:-1", "ended:-2", "checked:trajectory", "checked:outcome", "checked:commands", "compared_steps",
            "kernel_period", "coasting"]
RULE = ("random solves and the same problems re-expressed (length, time, mass and battery units, whole turns of the starting fast angle; Keplerian: common node "
        "rotation, whole turns of target angles); histories are converted back and compared node by node up to the first ill-conditioned command or "
        "threshold tie; non-trivial = a pair compared over at least two steps")
ASSUMPTIONS = ["safeguard bounds are given explicitly and converted", "a decision within 1e-6 of its threshold may flip with rounding"]
TWO_PI = 2*math.pi


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    s = rand_spec(rng, nsteps=35)
    p = s["prob"]
    dt = abs(p["t_step"])
    if p.get("duty_cycle"):
        p["duty_cycle"] = [v*1.0123 for v in p["duty_cycle"]]
    if shadow.et_of(s) == "mee_with_a" and rng.random() < 0.3:
        s["law"]["oe_min"], s["law"]["oe_max"] = [1e-3, -10, -10, -10, -10, -1e9], [1e4, 10, 10, 10, 10, 1e9]
    s["conv"] = [float(rng.random()), float(rng.random())]
    if s["conv"][0] < 0.3:
        p["oeT"] = flows.rand_target(rng, shadow.et_of(s), p["oe0"], size=logu(rng, 0.003, 0.1))
    tr = dict(L=1.0, T=1.0, M=1.0, B=1.0, turn=0, node=0.0, tt=[0, 0])
    if rng.random() < 0.75:
        if rng.random() < 0.4:
            for k in "LTMB":
                tr[k] = float(2.0**(2*int(rng.integers(-6, 7))))
        else:
            tr["L"], tr["T"], tr["M"], tr["B"] = logu(rng, 1e-4, 1e5), logu(rng, 1e-4, 1e5), logu(rng, 0.05, 1e4), logu(rng, 0.05, 1e4)
        for k in "LTMB":
            if rng.random() < 0.3:
                tr[k] = 1.0
        tr["B"] = max(tr["B"], 0.05)
    if rng.random() < 0.5:
        tr["turn"] = int(rng.integers(-3, 4))
    if shadow.et_of(s) == "keplerian":
        if rng.random() < 0.5:
            tr["node"] = float(rng.uniform(-4, 4))
        if rng.random() < 0.4:
            tr["tt"] = [int(x) for x in rng.integers(-2, 3, 2)]
    lo = p["mass_min"]
    if lo*tr["M"] < 0.0101:
        tr["M"] = 0.0101/lo
    s["tr"] = tr
    return s


def transform(s, tr):
    s = copy.deepcopy(s)
    L, T, M, B = (tr[k] for k in "LTMB")
    law, p = s["law"], s["prob"]
    A = L/T**2
    law["mu"] = flows.par(s, "mu")*L**3/T**2
    law["rpmin"] = flows.par(s, "rpmin")*L
    law["tol_oe"] = list(np.array(flows.par(s, "tol_oe"), dtype=float)*np.array([L, 1, 1, 1, 1]))
    for k in ("oe_min", "oe_max"):
        if law.get(k):
            law[k] = [law[k][0]*L] + list(law[k][1:])
    p["oe0"] = [p["oe0"][0]*L] + list(p["oe0"][1:])
    p["oeT"] = [p["oeT"][0]*L] + list(p["oeT"][1:])
    p["oe0"][5] += TWO_PI*tr["turn"]
    p["mass_min"] = flows.par(s, "mass_min")*M
    p["mass0"] *= M
    p["tmax"] *= M*A
    p["mdot"] *= M/T
    p["tf_max"] *= T
    if not flows.par(s, "use_sundman"):
        p["t_step"] *= T
    if p.get("duty_cycle"):
        p["duty_cycle"] = [v*T for v in p["duty_cycle"]]
    cap, rate, b0 = flows.par(s, "battery_capacity"), flows.par(s, "battery_charge_discharge_rate"), flows.par(s, "battery_initial")
    p["battery_capacity"] = [v*B for v in cap]
    p["battery_initial"] = b0*B
    p["battery_charge_discharge_rate"] = [v*B/T for v in rate]
    if shadow.et_of(s) == "keplerian":
        p["oe0"][3] += tr["node"]
        p["oeT"][3] += tr["node"] + TWO_PI*tr["tt"][0]
        p["oeT"][4] += TWO_PI*tr["tt"][1]
    for k in ("eta_a", "eta_r"):
        e = s.get(k)
        if isinstance(e, dict):
            e["w"], e["t"], e["m"], e["b"] = e["w"]/T, e["t"]*T, e["m"]*M, e["b"]*B
    if s.get("pert"):
        q = s["pert"]
        if "a" in q:
            q["a"] = [v*A for v in q["a"]]
        if "w" in q:
            q["w"] = q["w"]/T
    return s


def run(case, obs):
    base = copy.deepcopy(case)
    tr = case["tr"]
    et = shadow.et_of(base)
    a = flows.fly(base, obs=obs)
    if a.n < 2 or not np.all(np.isfinite(a.x)):
        obs.trivial = True
        return
    if case["conv"][0] < 0.4:
        d = a.x[:, :5] - np.asarray(base["prob"]["oeT"])[:5]
        if et == "keplerian":
            d[:, 3:5] = ref.wrap_pi(d[:, 3:5])
        k = 1 + int(case["conv"][1]*(a.n-1))
        base["law"]["tol_oe"] = [float(v) for v in np.abs(d[k])*1.02 + 1e-9]
        a = flows.fly(base, obs=obs)
    sc = transform(base, tr)
    b = flows.fly(sc, obs=obs)
    L, T, M, B = (tr[k] for k in "LTMB")
    # convert back
    bx = b.x.copy()
    bx[:, 0] /= L
    bx[:, 5] -= TWO_PI*tr["turn"]
    if et == "keplerian":
        bx[:, 3] -= tr["node"]
    bt, bm, bb, bQ, bdQ = b.t/T, b.m/M, b.b/B, b.Q/T**2, b.dQ/T
    # how far the comparison is well-conditioned
    n = min(a.n, b.n)
    X = shadow.clipped(base, a)[:n]
    reg = shadow.regular(et, X)
    law = shadow.Law(base, X, np.sign(shadow.dts(a)[:n])*base["prob"]["tmax"]/a.m[:n])
    stop = ~reg | ~law.ok | (law.tu > 1e-5)
    en = shadow.enabled(a)[:n]
    stop &= en | (~np.isfinite(a.Q[:n]))
    with np.errstate(all="ignore"):
        stop |= (np.abs(a.eta[:n]-a.bnd[:n]) < 1e-6).any(axis=1)
    # callbacks that switch at a value: a tie there
    for e in (base.get("eta_a"), base.get("eta_r")):
        if isinstance(e, dict):
            for nm, h in (("mass", a.m[:n]-e["m"]), ("batt", a.b[:n]-e["b"]), ("time", np.abs(a.t[:n])-e["t"])):
                if e["fn"] == nm:
                    stop |= np.abs(h) < 1e-9*(1+np.abs(h))
    if base["prob"].get("battery_capacity"):
        # arriving within rounding of a bound without being stopped on it
        cap = base["prob"]["battery_capacity"]
        w = cap[1]-cap[0]
        for c in cap:
            dd = np.abs(a.b[:n]-c)
            stop |= (dd < 1e-8*w) & (dd > 1e-12*w)
    k = int(np.argmax(stop)) if stop.any() else n
    obs.count("compared_steps", k)
    if k < 2:
        obs.trivial = True
        return
    xs = np.max(np.abs(a.x), axis=0)+1e-3
    tol = 1e-6
    ctx = dict(tr=tr, n=[a.n, b.n], k=k)
    err = np.max(np.abs(a.x[:k+1]-bx[:k+1])/xs, axis=1)
    shadow.vec(obs, ~(err <= tol), "trajectory", "trajectory depends on units, turns or node origin", err=err, tr=[tr]*(k+1), want=a.x[:k+1], got=bx[:k+1])
    shadow.vec(obs, ~(np.abs(a.t[:k+1]-bt[:k+1]) <= 1e-7*np.abs(a.t[:k+1])), "times", "times differ", want=a.t[:k+1], got=bt[:k+1], tr=[tr]*(k+1))
    shadow.vec(obs, ~(np.abs(a.m[:k+1]-bm[:k+1]) <= 1e-8*a.m[:k+1]), "mass", "masses differ", want=a.m[:k+1], got=bm[:k+1], tr=[tr]*(k+1))
    cap = flows.par(base, "battery_capacity")
    shadow.vec(obs, ~(np.abs(a.b[:k+1]-bb[:k+1]) <= 1e-6*max(cap)), "battery_level", "battery levels differ", want=a.b[:k+1], got=bb[:k+1], tr=[tr]*(k+1))
    ok = reg[:k] & law.ok[:k]
    with np.errstate(all="ignore"):
        tq = 1e-4*np.abs(a.Q[:k]) + 1e4*law.tq[:k]
        td = 1e-4*np.abs(a.dQ[:k]) + 1e4*law.tr[:k]
    shadow.vec(obs, ok & ~(np.abs(a.Q[:k]-bQ[:k]) <= tq), "Q", "Q does not scale with the time unit squared", want=a.Q[:k], got=bQ[:k], tr=[tr]*k)
    shadow.vec(obs, ok & ~(np.abs(a.dQ[:k]-bdQ[:k]) <= td), "rate", "Q rate does not scale with the time unit", want=a.dQ[:k], got=bdQ[:k], tr=[tr]*k)
    ua, ub = ref.thrust_dir(a.c[:k, 0], a.c[:k, 1]), ref.thrust_dir(b.c[:k, 0], b.c[:k, 1])
    bad = np.linalg.norm(ua-ub, axis=1) > 1e-4 + 1e4*law.tu[:k]
    shadow.vec(obs, en[:k] & bad, "commands", "thrust directions differ", want=ua, got=ub, tr=[tr]*k)
    shadow.vec(obs, a.c[:k, 2] != b.c[:k, 2], "throttle", "coasting decisions differ", want=a.c[:k], got=b.c[:k], tr=[tr]*k)
    shadow.vec(obs, np.isnan(a.bnd[:k]).any(axis=1) != np.isnan(b.bnd[:k]).any(axis=1), "throttle", "thruster enabled at different steps", tr=[tr]*k)
    if k == n:
        # outcome, unless an error sits on its tolerance or a mass/time on its limit
        near = False
        oT, tl = np.asarray(base["prob"]["oeT"])[:5], np.asarray(flows.par(base, "tol_oe"), dtype=float)
        d = a.x[:n+1, :5]-oT
        if et == "keplerian":
            d[:, 3:5] = ref.wrap_pi(d[:, 3:5])
        for f in (1.0, float(flows.par(base, "relaxed_tol_factor"))):
            near |= bool(np.any(np.abs(np.abs(d[1:])-f*tl) < 1e-5*xs[:5]))
        near |= bool(np.any(np.abs(a.m[:n+1]-flows.par(base, "mass_min")) < 1e-8*a.m[0]))
        near |= bool(np.any(np.abs(np.abs(a.t[:n+1])-abs(base["prob"]["tf_max"])) < 1e-7*abs(base["prob"]["tf_max"])))
        if not near:
            obs.check(a.n == b.n and a.exitcode == b.exitcode and bool(a.converge) == bool(b.converge), "outcome", "outcome differs", a=[a.n, a.exitcode, a.converge],
                      b=[b.n, b.exitcode, b.converge], **{"tr": tr})
            obs.count("ended:%d" % a.exitcode)
    p = base["prob"]
    obs.count("pairs")
    for nm, key in (("length", "L"), ("time", "T"), ("mass", "M"), ("battery", "B")):
        if tr[key] != 1.0 and (nm != "battery" or p.get("battery_capacity")):
            obs.count("units:" + nm)
    obs.count("turns", tr["turn"] != 0)
    obs.count("node", tr["node"] != 0)
    obs.count("target_turns", any(tr["tt"]))
    obs.count("et:" + et)
    obs.count("sundman", bool(flows.par(base, "use_sundman")))
    obs.count("kernel_period", bool(flows.par(base, "use_sundman")) and tr["T"] != 1.0)
    obs.count("backward", p["t_step"] < 0)
    obs.count("duty", bool(p.get("duty_cycle")))
    obs.count("battery", bool(p.get("battery_capacity")))
    obs.count("perturbed", bool(base.get("pert")))
    obs.count("thresholds", bool(base.get("eta_a")) or bool(base.get("eta_r")))
    obs.count("coasting", int((a.c[:k, 2] == 0).sum()))
