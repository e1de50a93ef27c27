"""comparison of two flights that must be the same flight (metamorphic pairs), up to the first ill-conditioned decision"""
import copy, math

import numpy as np

from . import flows, ref, shadow


def conditioned(base, a, n=None):
    """number of leading steps of flight a over which rounding cannot change a command or a decision; step masks"""
    et = shadow.et_of(base)
    n = a.n if n is None else min(n, a.n)
    X = shadow.clipped(base, a)[:n]
    reg = shadow.regular(et, X)
    law = shadow.Law(base, X, np.sign(shadow.dts(a)[:n])*base["prob"]["tmax"]/a.m[:n])
    en = shadow.enabled(a)[:n]
    stop = (~reg | ~law.ok | (law.tu > 1e-5)) & (en | ~np.isfinite(a.Q[:n]))
    with np.errstate(all="ignore"):
        stop |= (np.abs(a.eta[:n]-a.bnd[:n]) < 1e-6).any(axis=1)
    for e in (base.get("eta_a"), base.get("eta_r")):
        if isinstance(e, dict):                                   # callbacks that switch at a value: a tie there
            for nm, h, sc in (("mass", a.m[:n]-e["m"], e["m"]), ("batt", a.b[:n]-e["b"], e["b"]), ("time", np.abs(a.t[:n])-e["t"], e["t"])):
                if e["fn"] == nm:
                    stop |= np.abs(h) < 1e-8*(abs(sc)+np.abs(h))
    p = base["prob"]
    if p.get("battery_capacity"):                                 # arriving within rounding of a bound without being stopped on it
        cap = p["battery_capacity"]
        w = cap[1]-cap[0]
        for c in cap:
            dd = np.abs(a.b[:n]-c)
            stop |= (dd < 1e-8*w) & (dd > 1e-12*w)
    k = int(np.argmax(stop)) if stop.any() else n
    return k, reg, law, en


def near_limit(base, a, n):
    """an error sits on its tolerance, or a mass or time on its limit, within rounding"""
    et = shadow.et_of(base)
    xs = np.max(np.abs(a.x), axis=0)+1e-3
    oT, tl = np.asarray(base["prob"]["oeT"])[:5], np.asarray(flows.par(base, "tol_oe"), dtype=float)
    d = a.x[:n+1, :5]-oT
    if et == "keplerian":
        d[:, 3:5] = ref.wrap_pi(d[:, 3:5])
    near = False
    for f in (1.0, float(flows.par(base, "relaxed_tol_factor"))):
        near |= bool(np.any(np.abs(np.abs(d[1:])-f*tl) < 1e-5*xs[:5]))
    near |= bool(np.any(np.abs(a.m[:n+1]-flows.par(base, "mass_min")) < 1e-8*a.m[0]))
    near |= bool(np.any(np.abs(np.abs(a.t[:n+1])-abs(base["prob"]["tf_max"])) < 1e-7*abs(base["prob"]["tf_max"])))
    return near


def compare(obs, base, a, b, k, masks, what, tol=1e-6, **ctx):
    """flight a (as flown) against flight b (already mapped into the frame of a) over the first k steps"""
    reg, law, en = masks
    xs = np.max(np.abs(a.x), axis=0)+1e-3
    nn = dict((kk, [v]*(k+1)) for kk, v in ctx.items())
    ns = dict((kk, [v]*k) for kk, v in ctx.items())
    err = np.max(np.abs(a.x[:k+1]-b.x[:k+1])/xs, axis=1)
    shadow.vec(obs, ~(err <= tol), "trajectory", "trajectory differs: "+what, err=err, want=a.x[:k+1], got=b.x[:k+1], **nn)
    ts = np.maximum(np.abs(a.t[:k+1]), abs(base["prob"]["tf_max"])*1e-3)
    shadow.vec(obs, ~(np.abs(a.t[:k+1]-b.t[:k+1]) <= 1e-7*ts), "times", "times differ: "+what, want=a.t[:k+1], got=b.t[:k+1], **nn)
    shadow.vec(obs, ~(np.abs(a.m[:k+1]-b.m[:k+1]) <= 1e-8*a.m[:k+1]), "mass", "masses differ: "+what, want=a.m[:k+1], got=b.m[:k+1], **nn)
    cap = flows.par(base, "battery_capacity")
    shadow.vec(obs, ~(np.abs(a.b[:k+1]-b.b[:k+1]) <= 1e-6*max(cap)), "battery_level", "battery levels differ: "+what, want=a.b[:k+1], got=b.b[:k+1], **nn)
    ok = reg[:k] & law.ok[:k]
    with np.errstate(all="ignore"):
        tq = 1e-4*np.abs(a.Q[:k]) + 1e4*law.tq[:k]
        td = 1e-4*np.abs(a.dQ[:k]) + 1e4*law.tr[:k]
        bad = np.linalg.norm(ref.thrust_dir(a.c[:k, 0], a.c[:k, 1])-ref.thrust_dir(b.c[:k, 0], b.c[:k, 1]), axis=1) > 1e-4 + 1e4*law.tu[:k]
        eb = np.abs(a.eta[:k]-b.eta[:k]) > 1e-4 + 1e4*(law.tr[:k]/np.maximum(np.abs(a.dQ[:k]), 1e-300))[:, None]
    shadow.vec(obs, ok & ~(np.abs(a.Q[:k]-b.Q[:k]) <= tq), "Q", "Q differs: "+what, want=a.Q[:k], got=b.Q[:k], **ns)
    shadow.vec(obs, ok & ~(np.abs(a.dQ[:k]-b.dQ[:k]) <= td), "rate", "Q rate differs: "+what, want=a.dQ[:k], got=b.dQ[:k], **ns)
    shadow.vec(obs, en[:k] & bad, "commands", "thrust directions differ: "+what, want=a.c[:k], got=b.c[:k], **ns)
    shadow.vec(obs, a.c[:k, 2] != b.c[:k, 2], "throttle", "coasting decisions differ: "+what, want=a.c[:k], got=b.c[:k], **ns)
    shadow.vec(obs, ok & en[:k] & eb.any(axis=1), "effectivity", "effectivities differ: "+what, want=a.eta[:k], got=b.eta[:k], **ns)
    shadow.vec(obs, (np.isnan(a.bnd[:k]) != np.isnan(b.bnd[:k])).any(axis=1) | (np.abs(a.bnd[:k]-b.bnd[:k]) > 1e-6).any(axis=1), "thresholds",
               "thresholds differ: "+what, want=a.bnd[:k], got=b.bnd[:k], **ns)


def mapped(fl, **over):
    """shallow copy of a flight with replaced histories"""
    g = copy.copy(fl)
    for k, v in over.items():
        setattr(g, k, v)
    return g


def thrusting(fl, k):
    """step k had the thruster enabled (its thresholds were evaluated)"""
    return bool(shadow.enabled(fl)[k])
