"""C19: Cartesian and interpolated histories"""
import contextlib, io, math
import numpy as np
from scipy.interpolate import interp1d
from .. import flows, ref, shadow
from ..flows import rand_spec

ID = "C19"
N = dict(quick=500, thorough=25000)
REQUIRED = ["et:keplerian", "et:mee_with_a", "backward", "checked:nodes", "checked:samples", "checked:span", "checked:through", "checked:converge", "default_steps", "default_short", "default_backward",
            "mu_varied", "kind:linear", "kind:quadratic", "kind:cubic", "checked:unaltered", "checked:between", "coarse"]
RULE = ("random solves of both element sets and directions; node columns against an independent element-to-Cartesian map, interpolated samples (counts 1-500, "
        "linear/quadratic/cubic) against independent interpolation of the record, midpoints against re-flown half steps, and coasting arcs flown with "
        "successively halved steps against Kepler motion; non-trivial = at least four nodes")
ASSUMPTIONS = ["interpolation needs at least four nodes"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    # (time units in which a whole flight lasts less than a default sampling interval too)
    s = rand_spec(rng, nsteps=30, deplete=False, mu=flows.logu(rng, 1e3, 1e7) if rng.random() < 0.12 else None)
    s["samples"] = [[int(rng.choice([1, 2, 3, 10, 57, 200, 500])) if rng.random() < 0.8 else None, str(rng.choice(["linear", "quadratic", "cubic"])),
                     bool(rng.random() < 0.5)] for _ in range(4)]
    s["coast"] = bool(rng.random() < 0.3)
    if rng.random() < 0.12:     # few nodes per revolution: the fast angle advances by more than half a turn per step
        P = flows.period(s["law"]["elements_type"], s["prob"]["oe0"], s["law"]["mu"])
        p, sg = s["prob"], math.copysign(1, s["prob"]["t_step"])
        for k in ("duty_cycle", "battery_capacity", "battery_initial", "battery_charge_discharge_rate", "require_full_recharge"):
            p.pop(k, None)
        n = int(rng.integers(4, 14))
        s["law"]["use_sundman"] = bool(rng.random() < 0.5)
        p["t_step"] = sg*(float(rng.uniform(2.5, 6.0)) if s["law"]["use_sundman"] else P*float(rng.uniform(0.4, 1.6)))
        dt = P if s["law"]["use_sundman"] else abs(p["t_step"])
        p.update(tmax=p["tmax"]*1e-5, mdot=p["mdot"]*1e-4, tf_max=sg*dt*n)
        s.pop("pert", None)
        s["coast"], s["coarse"] = False, True
    return s


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def sv_close(obs, got, want, tol, mech, msg, **ctx):
    """columns of 6, position and velocity scaled separately"""
    if not obs.check(got.shape == want.shape, mech, msg + " (shape)", got=got.shape, want=want.shape, **ctx):
        return
    r = np.linalg.norm(want[:3], axis=0); v = np.linalg.norm(want[3:], axis=0)
    e = np.maximum(np.linalg.norm(got[:3]-want[:3], axis=0)/r, np.linalg.norm(got[3:]-want[3:], axis=0)/v)
    bad = ~(e <= tol)
    obs.count("checked:" + mech, bad.size)
    if bad.any():
        k = int(np.argmax(bad))
        obs.fail(mech, msg, column=k, got=got[:, k], want=want[:, k], err=e[k], **ctx)


def run(case, obs):
    fl = flows.fly(case, obs=obs)
    prob = fl.prob
    et, mu = shadow.et_of(case), flows.par(case, "mu")
    # (a wrecked orbit is no longer an ellipse)
    e = ref.ecc_of(et, fl.x)
    if fl.n < 3 or not np.all(np.isfinite(fl.x)) or np.any(e >= 0.97) or np.any(fl.x[:, 0] <= 0):
        obs.trivial = True
        return
    big = 1e-12*(1+np.max(np.abs(fl.x[:, 3:])))/(1-e.max())**2
    c = np.asarray(quiet(prob.get_cartesian_history))
    sv_close(obs, c, ref.to_sv(et, fl.x, mu).T, big, "nodes", "Cartesian history is not the recorded trajectory")
    for steps, kind, gt in case["samples"]:
        obs.count("kind:" + kind)
        F = quiet(prob.interpolate_states, kind=kind)
        if obs.check(len(F) == 6, "through", "six interpolants"):
            G = np.array([np.asarray(f(fl.t), dtype=float) for f in F]).T
            sc = np.max(np.abs(fl.x), axis=0)
            obs.check(bool(np.all(np.abs(G-fl.x) <= 1e-10*sc+1e-12)), "through", "interpolant misses a recorded node", kind=kind, err=np.max(np.abs(G-fl.x), axis=0))
        kw = dict(interpolate=True, kind=kind)
        if steps is not None:
            kw["steps"] = steps
        else:
            obs.count("default_steps")
            obs.count("default_short", int(abs(fl.t[-1]) < 0.015))
        r = quiet(prob.get_cartesian_history, get_t_evals=True, **kw)
        c, te = np.asarray(r[0]), np.asarray(r[1], dtype=float)
        ns = steps if steps is not None else c.shape[1]
        obs.check(c.shape == (6, ns) and te.shape == (ns,), "samples", "number of samples is not the requested one", shape=c.shape, steps=steps)
        if steps is None:
            wn = min(8000.0, max(2.0, abs(fl.t[-1])/0.01))
            obs.check(2 <= ns <= 8000 and 0.5*wn - 2 <= ns <= 2*wn + 2, "samples", "default number of samples", n=ns, about=wn)
            obs.count("default_backward", fl.t[-1] < -0.1)
        if c.shape != (6, len(te)):
            continue
        want_t = np.linspace(fl.t[0], fl.t[-1], ns)
        obs.check(bool(np.all(np.abs(te-want_t) <= 1e-13*abs(fl.t[-1]))) and te[0] == fl.t[0] and (ns == 1 or te[-1] == fl.t[-1]), "span",
                  "samples do not span the first to last node evenly", got=te[[0, -1]], want=fl.t[[0, -1]])
        with np.errstate(all="ignore"):
            I = np.array([interp1d(fl.t, fl.x[:, j], kind=kind)(want_t) for j in range(6)]).T
        ok = (ref.ecc_of(et, I) < 0.97) & (I[:, 0] > 0) & ((I[:, 1] > 0) | (et != "keplerian"))
        sub = np.where(ok)[0][:60]
        sv_close(obs, c[:, sub], ref.to_sv(et, I[sub], mu).T, big*10+1e-9, "samples", "interpolated sample is not the interpolated orbit", kind=kind)
        if not gt:
            c2 = np.asarray(quiet(prob.get_cartesian_history, **kw))
            obs.check(np.array_equal(c2, c), "samples", "history differs when sample times are asked for")
    d = flows.same_histories(fl, flows.snap(prob, case))
    obs.check(d is None, "unaltered", "reading the trajectory altered it: %s" % d)
    # midpoints of steps: between the neighbouring nodes, close to the re-flown half step
    F = quiet(prob.interpolate_states)
    X = shadow.clipped(case, fl)
    dt = np.diff(fl.t)
    if et != "keplerian" or np.array_equal(X, fl.x):
        reg = shadow.regular(et, X[:-1])
        P = shadow.ptrb_values(case, fl)
        for k in range(1, 0 if case.get("coarse") else min(fl.n-1, 12)):
            if not reg[k] or abs(dt[k]) < 0.3*max(abs(dt[k-1]), abs(dt[k+1])):
                continue
            acc = P[k] + (np.sign(dt[k])*flows.par(case, "tmax")/fl.m[k]*ref.thrust_dir(fl.c[k, 0], fl.c[k, 1]) if fl.c[k, 2] == 1 else 0)
            h = ref.step_frozen(et, X[k], mu, acc, dt[k]/2, flows.par(case, "integrator"))
            g = np.array([float(f(fl.t[k]+dt[k]/2)) for f in F])
            var = np.max(np.abs(np.diff(fl.x, axis=0)), axis=0)
            obs.check(bool(np.all(np.abs(g-h) <= 5.0*var + 1e-12*(1+np.abs(h)))), "between", "interpolant leaves the path between nodes", k=k, got=g, want=h)
    if case["coast"]:
        coast(case, obs, et, mu)
    obs.count("et:" + et)
    if case["prob"]["t_step"] < 0:
        obs.count("backward")
    if np.max(np.abs(np.diff(fl.x[:, 5]))) > math.pi:
        obs.count("coarse")
    if mu != 1.0:
        obs.count("mu_varied")


def coast(case, obs, et, mu):
    """unforced arcs with halved steps: interpolated samples converge to Kepler motion"""
    oe0 = np.array(case["prob"]["oe0"])
    e0 = float(ref.ecc_of(et, oe0))
    if e0 > 0.5:
        return
    P = flows.period(et, oe0, mu)
    sg = math.copysign(1, case["prob"]["t_step"])
    errs = []
    for n in (48, 96, 192):
        spec = dict(law=dict(case["law"], use_sundman=False), prob=dict(case["prob"]), eta_a=0.0, eta_r=0.0)
        for k in ("duty_cycle", "battery_capacity", "battery_initial", "battery_charge_discharge_rate", "require_full_recharge"):
            spec["prob"].pop(k, None)
        spec["prob"].update(tmax=1e-30*mu/oe0[0]**2, mdot=0.0, t_step=sg*P/n, tf_max=sg*P*(1-0.5/n))
        fl = flows.fly(spec)
        c, t = quiet(fl.prob.get_cartesian_history, interpolate=True, steps=101, get_t_evals=True)
        v0 = ref.true_anom(et, oe0)
        E0 = math.atan2(math.sqrt(1-e0*e0)*math.sin(v0), e0+math.cos(v0))
        M = E0-e0*math.sin(E0) + 2*math.pi*np.asarray(t)/P
        E = M.copy()
        for _ in range(60):
            E = E-(E-e0*np.sin(E)-M)/(1-e0*np.cos(E))
        v = np.arctan2(math.sqrt(1-e0*e0)*np.sin(E), np.cos(E)-e0)
        x = np.tile(oe0, (len(E), 1))
        x[:, 5] = v + (oe0[5]-v0)
        w = ref.to_sv(et, x, mu).T
        errs.append(float(np.max(np.linalg.norm(np.asarray(c)[:3]-w[:3], axis=0))/oe0[0]))
    obs.check(errs[0] < 0.5 and errs[1] < errs[0]/3 + 1e-9 and errs[2] < errs[1]/3 + 1e-9, "converge", "interpolated coast does not converge to Kepler motion", errs=errs, e=e0)
