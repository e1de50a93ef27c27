"""Offline monitors over the recorded history of one solve (shadow models)."""
import math

import numpy as np

from . import ref
from .flows import par, lawpar, eta_value, DEF

TIE = 1e-9


# ----------------------------------------------------------------------------------------- helpers
def et_of(spec):
    return par(spec, "elements_type")


def clipped(spec, fl):
    """start-of-step states: Keplerian solves clip the slow elements to the safeguard bounds before each step"""
    X = fl.x.copy()
    if et_of(spec) == "keplerian":
        lo = np.asarray(fl.prob.oe_min, dtype=float)[:5]
        hi = np.asarray(fl.prob.oe_max, dtype=float)[:5]
        X[:-1, :5] = np.minimum(np.maximum(X[:-1, :5], lo), hi)
    return X


def regular(et, X):
    """states away from the singularities of the element set"""
    with np.errstate(all="ignore"):
        if et == "keplerian":
            ok = (X[:, 0] > 0) & (X[:, 1] > 1e-3) & (X[:, 1] < 0.97) & (np.abs(np.sin(X[:, 2])) > 2e-3)
            for tr in (np.sin(X[:, 4]), np.cos(X[:, 4]), np.cos(X[:, 2])):
                ok &= np.abs(tr) > 1e-9
        else:
            e = np.hypot(X[:, 1], X[:, 2])
            # the maximum rates of h, k contain sqrt(1-g^2)+f and sqrt(1-f^2)+g, which are positive for e < 1
            ok = (X[:, 0] > 0) & (e > 1e-6) & (e < 0.97)
    return ok & np.all(np.isfinite(X), axis=1)


def moving(et, X):
    """states at which the motion is regular: equinoctial elements also where the orbit is circular"""
    if et == "keplerian":
        return regular(et, X)
    with np.errstate(all="ignore"):
        return (X[:, 0] > 0) & (np.hypot(X[:, 1], X[:, 2]) < 0.97) & np.all(np.isfinite(X), axis=1)


class Law:
    """reference control law along a set of states, with a tolerance obtained from 1e-11 relative perturbations"""

    def __init__(self, spec, X, f, seed=0):
        et, mu = et_of(spec), par(spec, "mu")
        oeT = np.asarray(par(spec, "oeT"), dtype=float)[:5]
        woe = np.asarray(par(spec, "woe"), dtype=float)
        lp = lawpar(spec)
        f = np.asarray(f, dtype=float)
        self.q, self.G, self.D, self.psi, self.drift = ref.law_eval(et, X, oeT, mu, f, woe, lp)
        self.Dn = np.linalg.norm(self.D, axis=-1)
        with np.errstate(all="ignore"):
            self.u = -self.D/self.Dn[..., None]
        self.rate = f*self.Dn
        rng = np.random.default_rng(seed)
        dq = np.zeros_like(self.q); dr = np.zeros_like(self.q); du = np.zeros_like(self.q); dD = np.zeros_like(self.q)
        with np.errstate(all="ignore"):
            for _ in range(4):
                Y = X*(1 + 1e-11*rng.choice([-1, 1], X.shape))
                q, G, D, _, _ = ref.law_eval(et, Y, oeT, mu, f, woe, lp)
                n = np.linalg.norm(D, axis=-1)
                dq = np.maximum(dq, np.abs(q-self.q))
                dr = np.maximum(dr, np.abs(f*n-self.rate))
                du = np.maximum(du, np.linalg.norm(-D/n[..., None]-self.u, axis=-1))
                dD = np.maximum(dD, np.linalg.norm(D-self.D, axis=-1))
        self.tq, self.tr, self.tu = 5*dq + 1e-9*np.abs(self.q), 5*dr + 1e-9*np.abs(self.rate), 5*du + 1e-8
        self.tD = 5*dD + 1e-9*self.Dn
        self.ok = np.isfinite(self.q) & np.isfinite(self.rate) & (self.Dn > 0) & (self.tr < 0.05*np.abs(self.rate) + 1e-300) \
            & (self.tu < 0.05)


def shape_ok(fl, obs, mech="shape"):
    n = fl.n
    ok = len(fl.t) == n+1 and fl.x.shape == (n+1, 6) and len(fl.m) == n+1 and len(fl.b) == n+1 \
        and len(fl.Q) == n and len(fl.dQ) == n and (n == 0 or (fl.c.shape == (n, 3) and fl.eta.shape == (n, 2)
                                                               and fl.bnd.shape == (n, 2)))
    if not obs.check(ok, mech, "history lengths/shapes do not match", n=n, t=len(fl.t), x=fl.x.shape, m=len(fl.m), b=len(fl.b),
                     Q=len(fl.Q), dQ=len(fl.dQ), c=fl.c.shape, eta=fl.eta.shape, bnd=fl.bnd.shape):
        return False
    return True


def first(mask):
    return int(np.argmax(mask))


def vec(obs, bad, mech, msg, fl=None, **arrs):
    """record a vectorised check; bad is a boolean array (one entry per event)"""
    bad = np.asarray(bad)
    obs.count("checked:" + mech, bad.size)
    if bad.any():
        k = first(bad)
        obs.fail(mech, msg + " (step %d of %d; %d bad)" % (k, bad.size, int(bad.sum())),
                 **{a: (v[k] if np.ndim(v) else v) for a, v in arrs.items()})
        return False
    return True


def dts(fl):
    return np.diff(fl.t)


def requested_dt(spec, X):
    """requested duration of each step"""
    st = par(spec, "t_step")
    if par(spec, "use_sundman"):
        return ref.sundman_dt(et_of(spec), X[:-1], st, par(spec, "mu"))
    return np.full(len(X)-1, float(st))


def dt_tol(fl, want):
    return 1e-9*np.abs(want) + 8e-16*(np.abs(fl.t[1:]) + np.abs(fl.t[:-1]))


def enabled(fl):
    """steps on which the thruster was enabled with a defined command: the thresholds were evaluated and recorded"""
    return ~np.isnan(fl.bnd).any(axis=1) | (fl.c[:, 2] == 1)


def shortened(spec, fl):
    """steps whose duration ends exactly on the battery floor"""
    cap, rate = par(spec, "battery_capacity"), par(spec, "battery_charge_discharge_rate")
    if rate[1] <= 0:
        return np.zeros(fl.n, bool)
    want = (fl.b[:-1]-cap[0])/rate[1]
    dt = dts(fl)
    return np.abs(dt-want) <= 1e-9*np.abs(want) + 1e-15*np.abs(fl.t[1:])*4 + 1e-12/rate[1]


# ----------------------------------------------------------------------------------------- monitors
def grid(spec, fl, obs):
    """C09"""
    if not shape_ok(fl, obs):
        return
    n = fl.n
    et = et_of(spec)
    x0 = np.asarray(par(spec, "oe0"), dtype=float)
    if et == "keplerian":
        lo, hi = np.asarray(fl.prob.oe_min)[:5], np.asarray(fl.prob.oe_max)[:5]
        c0 = np.concatenate([np.minimum(np.maximum(x0[:5], lo), hi), x0[5:]])
    else:
        c0 = x0
    obs.check(np.array_equal(fl.x[0], x0) or np.array_equal(fl.x[0], c0), "start", "first state is not oe0", got=fl.x[0], want=x0)
    obs.check(fl.t[0] == 0.0 and fl.m[0] == par(spec, "mass0") and fl.b[0] == par(spec, "battery_initial"), "start",
              "t/m/b do not start from the given initial values", t=fl.t[0], m=fl.m[0], b=fl.b[0])
    fin = np.isfinite(fl.x).all(axis=1)
    if fin.all():
        ok = np.isfinite(fl.t).all() and np.isfinite(fl.m).all() and np.isfinite(fl.b).all() and np.isfinite(fl.c).all()
        obs.check(ok, "finite", "non-finite history although the motion is finite")
        X = clipped(spec, fl)
        if n:
            reg = regular(et, X[:-1])
            vec(obs, reg & ~(np.isfinite(fl.Q) & np.isfinite(fl.dQ)), "finiteQ", "Q or dQdt not finite", Q=fl.Q, dQ=fl.dQ)
    else:
        obs.count("nonfinite_motion")
        return
    if n == 0:
        return
    sgn = math.copysign(1.0, par(spec, "t_step"))
    dt = dts(fl)
    vec(obs, ~(sgn*dt > 0), "monotone", "time does not advance strictly in the direction of the step", dt=dt)
    X = clipped(spec, fl)
    ok = regular(et, X[:-1]) | (not par(spec, "use_sundman"))
    want = requested_dt(spec, X)
    off = np.abs(dt-want) > dt_tol(fl, want)
    en = enabled(fl)
    sh = shortened(spec, fl) & en & (np.abs(dt) < np.abs(want))
    obs.count("full_steps", int((~off).sum()))
    obs.count("floor_steps", int((off & sh).sum()))
    vec(obs, off & ~sh & ok, "duration", "step duration is neither the requested one nor a stop at the battery floor", dt=dt, want=want)
    tf = abs(par(spec, "tf_max"))
    vec(obs, ~(np.abs(fl.t[:-1]) < tf), "overrun", "a step was flown from a node at or beyond the allotted time", t=fl.t[:-1])
    if fl.exitcode == -2:
        obs.count("ended_by_time")
        obs.check(abs(fl.t[-1]) >= tf, "early", "stopped for time before the allotted time", t=fl.t[-1], tf=tf)
    else:
        obs.check(fl.exitcode in (1, 2, -1, -3), "early", "stopped without a status", exitcode=fl.exitcode)


def sundman(spec, fl, obs):
    """C10"""
    if not shape_ok(fl, obs) or fl.n == 0:
        return
    et, mu, st = et_of(spec), par(spec, "mu"), par(spec, "t_step")
    X = clipped(spec, fl)
    ok = regular(et, X[:-1])
    dt = dts(fl)
    want = ref.sundman_dt(et, X[:-1], st, mu)
    sh = shortened(spec, fl) & enabled(fl) & (np.abs(dt) < np.abs(want))
    bad = np.abs(dt-want) > 1e-8*np.abs(want) + dt_tol(fl, want)
    vec(obs, bad & ok & ~sh, "sundman", "duration is not the Keplerian time of the anomaly step", dt=dt, want=want, oe=X[:-1])
    obs.count("anomaly_steps", int((ok & ~sh).sum()))
    # physical effect while coasting unperturbed: the eccentric anomaly gains the step
    if not spec.get("pert"):
        e = ref.ecc_of(et, X)
        co = ok & ~sh & (fl.c[:, 2] == 0) & (e[:-1] < 0.75)
        if abs(st) <= 0.25 and co.any():
            gain = ref.wrap_pi(ref.ecc_anom(et, X[1:]) - ref.ecc_anom(et, X[:-1]))
            vec(obs, (np.abs(gain-st) > 0.02*abs(st)) & co, "gain", "coasting step does not gain the requested eccentric anomaly", gain=gain)
            obs.count("coast_gain_steps", int(co.sum()))
    E = ref.ecc_anom(et, X[:-1])
    obs.count("periapsis_crossings", int(np.sum((np.abs(E) < abs(st)) & ok)))
    obs.count("apoapsis_crossings", int(np.sum((np.pi-np.abs(E) < abs(st)) & ok)))
    obs.count("turns", int(np.sum(np.abs(X[:, 5]) > 2*math.pi)))


def mass(spec, fl, obs):
    """C11"""
    if not shape_ok(fl, obs) or fl.n == 0:
        return
    mdot, mmin = par(spec, "mdot"), par(spec, "mass_min")
    th = fl.c[:, 2]
    vec(obs, (th != 0) & (th != 1), "throttle01", "throttle is neither 0 nor 1", throttle=th)
    dt = dts(fl)
    dm = np.diff(fl.m)
    want = np.where(th == 1, -mdot*dt, 0.0)
    tol = 1e-10*np.abs(want) + 4e-16*(np.abs(fl.m[1:])+np.abs(fl.m[:-1])) + mdot*8e-16*np.abs(fl.t[1:])
    vec(obs, np.abs(dm-want) > np.where(th == 1, tol, 0.0), "flow", "mass change is not flow rate times thrusting duration", dm=dm, want=want,
        throttle=th)
    tot = fl.m[-1]-fl.m[0]
    obs.check(abs(tot + mdot*np.sum(dt[th == 1])) <= 1e-9*abs(fl.m[0]), "total", "total mass change")
    obs.count("thrust_steps", int((th == 1).sum()))
    obs.count("coast_steps", int((th == 0).sum()))
    if np.isfinite(fl.x).all():
        vec(obs, fl.m[1:-1] <= mmin, "deplete", "propagation continued from a node at or below the minimum mass", m=fl.m[1:-1])
        if fl.m[-1] <= mmin:
            obs.count("depleted")
            obs.check(fl.exitcode == -1 or bool(fl.converge), "deplete", "depleted but status is not -1", exitcode=fl.exitcode, m=fl.m[-1])
        obs.check(fl.exitcode != -1 or fl.m[-1] <= mmin, "deplete", "status -1 without depletion", m=fl.m[-1])


def accel_uses_mass(spec, fl, obs):
    """C11: thrust acceleration uses the current mass (seen through the motion)"""
    dynamics(spec, fl, obs, only_thrust=True, mech="accmass")


def within(et, x, oeT, woe, tol, band=1e-12):
    """(definitely within, possibly within)"""
    d = np.array(x[:5]) - np.asarray(oeT[:5])
    if et == "keplerian":
        d[3:5] = ref.wrap_pi(d[3:5])
    d = np.abs(d)
    w = np.asarray(woe) != 0
    sc = band*(1 + np.abs(np.asarray(x[:5])) + np.abs(np.asarray(oeT[:5])))
    yes = bool(np.all((d <= np.asarray(tol)-sc) | ~w))
    may = bool(np.all((d <= np.asarray(tol)+sc) | ~w))
    return yes, may


def outcome(spec, fl, obs):
    """C12"""
    if not shape_ok(fl, obs):
        return
    et = et_of(spec)
    oeT, woe = par(spec, "oeT"), par(spec, "woe")
    tol = np.asarray(par(spec, "tol_oe"), dtype=float)
    rel = par(spec, "relaxed_tol_factor")*tol
    nrel, mmin, tf = par(spec, "exit_at_relaxed"), par(spec, "mass_min"), abs(par(spec, "tf_max"))
    ec, cv = fl.exitcode, bool(fl.converge)
    obs.check(isinstance(fl.converge, (bool, np.bool_)), "flag", "converged flag is not a boolean", flag=repr(fl.converge))
    obs.check(cv == (ec in (1, 2)), "flag", "converged flag does not match the status", exitcode=ec, converge=cv)
    obs.check(ec in (1, 2, -1, -2, -3), "status", "unknown status", exitcode=ec)
    obs.count("exit%d" % ec)
    n = fl.n
    X = clipped(spec, fl)
    cnt = 0
    for k in range(1, n+1):
        last = k == n
        x = fl.x[k]
        if et == "keplerian" and not last and not np.array_equal(fl.x[k], X[k]) or \
                (et == "keplerian" and not last and np.any((fl.x[k, :5] == np.asarray(fl.prob.oe_min)[:5]) |
                                                           (fl.x[k, :5] == np.asarray(fl.prob.oe_max)[:5]))):
            obs.count("clipped_nodes")
            return          # the raw state that was tested is not in the record
        yes, may = within(et, x, oeT, woe, tol)
        if yes != may:
            obs.count("ties")
            return
        if yes:
            obs.check(last and ec == 1, "status1", "node within tolerance but solve did not end there with status 1", k=k, n=n, exitcode=ec)
            obs.count("outcomes_decided")
            return
        ryes, rmay = within(et, x, oeT, woe, rel)
        if ryes != rmay:
            obs.count("ties")
            return
        if ryes:
            cnt += 1
            obs.count("relaxed_nodes")
            if cnt >= nrel:
                obs.check(last and ec == 2, "status2", "relaxed count reached but solve did not end there with status 2", k=k, n=n,
                          exitcode=ec, cnt=cnt)
                obs.count("outcomes_decided")
                return
        if fl.m[k] <= mmin:
            obs.check(last and ec == -1, "status-1", "mass minimum reached but solve did not end there with status -1", k=k, n=n, exitcode=ec)
            obs.count("outcomes_decided")
            return
    obs.check(ec not in (1, 2, -1), "status", "status %s without its cause" % ec, exitcode=ec, relaxed=cnt)
    # undefined commands
    thr = par(spec, "nan_angles_threshold")
    und = undefined(spec, fl)
    if und is not None:
        nn = int(und.sum())
        obs.count("undefined_commands", nn)
        obs.check(nn <= thr, "status-3", "more undefined commands than allowed were flown", n=nn, allowed=thr)
        if ec == -3:
            obs.check(nn == thr, "status-3", "status -3 after fewer undefined commands than allowed", n=nn, allowed=thr)
            obs.check(abs(fl.t[-1]) < tf, "status-3", "status -3 but time ran out")
    if ec == -2:
        obs.check(abs(fl.t[-1]) >= tf, "status-2", "status -2 before the allotted time", t=fl.t[-1], tf=tf)
    obs.count("outcomes_decided")


def always_enabled(spec):
    """no duty cycle and no battery limit: the thruster is enabled on every step"""
    return par(spec, "duty_cycle")[0] > 1e15 and par(spec, "battery_charge_discharge_rate")[1] == 0 and \
        par(spec, "battery_initial") > par(spec, "battery_capacity")[0] + 1e-9*(1+abs(par(spec, "battery_capacity")[1]))


def undefined(spec, fl):
    """steps flown with an undefined command (law not finite), thruster enabled"""
    if not always_enabled(spec):
        return None
    return np.isnan(fl.bnd).any(axis=1)


# ------------------------------------------------------------------ duty / battery shadow automaton
def automaton(spec, fl, obs, mech, monitor_battery):
    """NFA over (duty, t_on, t_off, charging): forks only where a comparison is within a tie band.

    checks that the enabled flag of every step is one the automaton allows, and (monitor_battery) the energy balance."""
    n = fl.n
    on, off = par(spec, "duty_cycle")
    cap, rate = par(spec, "battery_capacity"), par(spec, "battery_charge_discharge_rate")
    full_req = bool(par(spec, "require_full_recharge"))
    X = clipped(spec, fl)
    want = requested_dt(spec, X)
    dt = dts(fl)
    th = fl.c[:, 2]
    en = enabled(fl)
    et = et_of(spec)
    reg = regular(et, X[:-1])
    btol = 1e-9*max(abs(cap[1]), abs(cap[0]), 1e-300)
    exact = bool(spec.get("exact_times")) and rate[1] == 0

    def gt(a, b, scale):
        """possible truth values of a > b"""
        if exact:           # the workload guarantees that times and windows carry no rounding
            return (a > b,)
        t = TIE*max(abs(a), abs(b), 1e-300) + 1e-14*scale
        if abs(a-b) <= t:
            return (True, False)
        return (a > b,)

    S = {(True, 0.0, 0.0, False)}
    for k in range(n):
        t = fl.t[k]
        if not reg[k]:
            obs.count("automaton_stopped_singular")
            return
        T = set()
        for (d, ton, toff, ch) in S:
            for a in gt(abs(t-ton), on, abs(t)):
                d1, toff1 = d, toff
                if d and a:
                    d1, toff1 = False, t
                for b in gt(abs(t-toff1), off, abs(t)):
                    d2, ton2 = d1, ton
                    if (not d1) and b:
                        d2, ton2 = True, t
                    at_floor = (True,) if fl.b[k] <= cap[0] + 1e-12*max(1.0, cap[1]) else \
                        ((True, False) if fl.b[k] <= cap[0] + btol else (False,))
                    for fl_ in at_floor:
                        d3, toff3, ch3 = d2, toff1, ch
                        if fl_:
                            d3, toff3, ch3 = False, t, True
                        full = (False,) if fl.b[k] < cap[1]-btol else (True, False) if fl.b[k] != cap[1] else (True,)
                        for fu in full:
                            d4 = d3
                            if full_req and ch3 and not fu:
                                d4 = False
                            T.add((d4, ton2, toff3, ch3))
        poss = {s[0] for s in T}
        e = bool(en[k])
        obs.count("automaton_steps")
        obs.count("on_steps" if e else "off_steps")
        if len(poss) > 1:
            obs.count("automaton_forks")
        if e not in poss:
            if e:
                obs.fail(mech + "_thrust_in_off", "step %d: thruster enabled where the duty/battery rules forbid it" % k, t=t,
                         battery=fl.b[k], duty=[on, off], cap=cap, throttle=th[k])
            else:
                obs.fail(mech + "_inhibited", "step %d: thruster inhibited inside an ON window with charge" % k, t=t, battery=fl.b[k],
                         duty=[on, off], cap=cap, throttle=th[k])
            return
        if not e and th[k] != 0:
            obs.fail(mech + "_throttle", "step %d: throttle one while disabled" % k)
        T = {s for s in T if s[0] == e}
        # battery update as recorded
        N = set()
        for (d, ton, toff, ch) in T:
            if (not d) and fl.b[k+1] == cap[1]:
                ch = False
            N.add((d, ton, toff, ch))
            if (not d) and abs(fl.b[k+1]-cap[1]) <= btol and ch:
                N.add((d, ton, toff, False))
        S = N
        if len(S) > 64:
            obs.count("automaton_blowup")
            return
    obs.count("automaton_complete")


def duty(spec, fl, obs):
    """C13"""
    if not shape_ok(fl, obs) or fl.n == 0 or not np.isfinite(fl.x).all():
        return
    on, off = par(spec, "duty_cycle")
    automaton(spec, fl, obs, "duty", False)
    en = enabled(fl)
    th = fl.c[:, 2]
    vec(obs, (~en) & ((th != 0) | (np.diff(fl.m) != 0)), "off_consumes", "propellant or throttle on a disabled step", throttle=th)
    # statement-level consequences, independent of the automaton
    t = fl.t[:-1]
    start = None
    for k in range(fl.n):
        if en[k]:
            if start is None:
                start = t[k] if k else 0.0
            if abs(t[k]-start) > on*(1+TIE) + 1e-12*abs(t[k]):
                obs.fail("on_too_long", "ON window lasts longer than the ON time", k=k, t=t[k], start=start, on=on)
                break
        else:
            if start is not None:
                obs.count("on_windows")
            start = None
    toff = None
    for k in range(fl.n):
        if not en[k]:
            if toff is None:
                toff = t[k]
        else:
            if toff is not None:
                obs.count("off_windows")
                if abs(t[k]-toff) < off*(1-TIE) - 1e-12*abs(t[k]):
                    obs.fail("off_too_short", "OFF window shorter than the OFF time", k=k, t=t[k], start=toff, off=off)
                    break
            toff = None
    obs.count("checked:windows")
    # ON steps really thrust unless coasting is asked for
    if not spec.get("eta_a") and not spec.get("eta_r"):
        X = clipped(spec, fl)
        reg = regular(et_of(spec), X[:-1])
        f = np.sign(dts(fl))*par(spec, "tmax")/fl.m[:-1]
        law = Law(spec, X[:-1], f)
        vec(obs, en & (th != 1) & reg & law.ok, "on_no_thrust", "enabled step without thresholds does not thrust", t=t)


def battery(spec, fl, obs):
    """C14"""
    if not shape_ok(fl, obs) or fl.n == 0 or not np.isfinite(fl.x).all():
        return
    cap, rate = par(spec, "battery_capacity"), par(spec, "battery_charge_discharge_rate")
    full_req = bool(par(spec, "require_full_recharge"))
    sc = max(abs(cap[0]), abs(cap[1]))
    eps = 1e-12*sc
    vec(obs, (fl.b < cap[0]-eps) | (fl.b > cap[1]+eps), "bounds", "battery outside its capacity bounds", b=fl.b)
    en = enabled(fl)
    und = np.isnan(fl.bnd).any(axis=1) & ~en
    X = clipped(spec, fl)
    reg = regular(et_of(spec), X[:-1])
    dt = dts(fl)
    db = np.diff(fl.b)
    tol = 1e-9*np.abs(rate[1]*dt) + 4*eps + 1e-15*np.abs(fl.t[1:])*max(rate)*8
    vec(obs, en & (np.abs(db + rate[1]*dt) > tol), "discharge", "enabled step does not draw rate times duration (or was clipped at the floor)",
        db=db, want=-rate[1]*dt, b=fl.b[:-1], t=fl.t[:-1])
    wantc = np.minimum(fl.b[:-1]+rate[0]*dt, cap[1]) - fl.b[:-1]
    tol = 1e-9*np.abs(rate[0]*dt) + 4*eps + 1e-15*np.abs(fl.t[1:])*max(rate)*8
    vec(obs, (~en) & reg & (np.abs(db - wantc) > tol), "charge", "disabled step does not gain charge rate times duration", db=db, want=wantc)
    th = fl.c[:, 2]
    atfloor = fl.b[:-1] <= cap[0] + 1e-12*max(1.0, cap[1])
    vec(obs, atfloor & (th == 1), "floor_thrust", "thrust from the floor", b=fl.b[:-1])
    want = requested_dt(spec, X)
    cross = en & (fl.b[:-1] - rate[1]*want < cap[0] - 1e-9*sc)
    obs.count("floor_stops", int(cross.sum()))
    vec(obs, cross & (np.abs(fl.b[1:]-cap[0]) > 1e-9*sc), "floor_end", "step that would cross the floor does not end on it", b1=fl.b[1:])
    obs.count("floor_steps", int(atfloor.sum()))
    obs.count("full_steps", int((fl.b[:-1] >= cap[1]-eps).sum()))
    if full_req:
        need = False
        for k in range(fl.n):
            if atfloor[k]:
                need = True
            if need and fl.b[k] >= cap[1]-1e-9*sc:
                need = False
                obs.count("full_recharges")
            if need and th[k] == 1:
                obs.fail("recharge", "thrust before the battery was full again", k=k, b=fl.b[k], t=fl.t[k])
                break
        obs.count("checked:recharge")
    automaton(spec, fl, obs, "battery", True)


# ------------------------------------------------------------------ effectivity
def effectivity(spec, fl, obs):
    """C15"""
    if not shape_ok(fl, obs) or fl.n == 0:
        return
    et, mu = et_of(spec), par(spec, "mu")
    N = int(par(spec, "anomaly_grid_size"))
    X = clipped(spec, fl)[:-1]
    reg = regular(et, X)
    th = fl.c[:, 2]
    ea, er = spec.get("eta_a", 0.0), spec.get("eta_r", 0.0)
    defd = ~np.isnan(fl.bnd).any(axis=1)
    f = np.sign(dts(fl))*par(spec, "tmax")/fl.m[:-1]
    law = Law(spec, X, f)
    use = reg & law.ok
    # thruster-enabled steps must have their thresholds recorded (no duty, no battery: every step is enabled)
    if always_enabled(spec):
        vec(obs, use & ~defd, "recorded", "threshold values are not recorded on an enabled step", bnd=fl.bnd)
    # threshold values
    for j, e, log in ((0, ea, fl.eta_a_log), (1, er, fl.eta_r_log)):
        if isinstance(e, dict):
            want = np.array([eta_value(e, fl.t[k], X[k], fl.m[k], fl.b[k]) for k in range(fl.n)])
            vec(obs, defd & (np.abs(fl.bnd[:, j]-want) > 1e-12), "bound_value", "recorded threshold is not the function's value at the step",
                got=fl.bnd[:, j], want=want)
            idx = {t: k for k, t in enumerate(fl.t[:-1])}
            bad = None
            for (t, oe, m, b, v) in log:
                k = idx.get(t)
                obs.count("callback_calls")
                if k is None:
                    if fl.exitcode == -3:
                        continue
                    bad = (t, "no such step")
                    break
                if not np.allclose(oe, X[k], rtol=1e-13, atol=0) or m != fl.m[k] or b != fl.b[k]:
                    bad = (t, list(oe), m, b, list(X[k]), fl.m[k], fl.b[k])
                    break
            obs.check(bad is None, "callback_args", "threshold function called with values that are not the step's", bad=bad)
        else:
            vec(obs, defd & (fl.bnd[:, j] != float(e)), "bound_value", "recorded threshold is not the given constant", got=fl.bnd[:, j])
    pos = defd & ((fl.bnd > 0).any(axis=1))
    none = defd & ~pos
    vec(obs, none & use & (th != 1), "always_thrust", "step without a positive threshold does not thrust", throttle=th)
    vec(obs, pos & use & np.isnan(fl.eta).any(axis=1), "eta_recorded", "effectivities are not recorded", eta=fl.eta)
    sel = np.where(pos & use)[0]
    if N < 2 or len(sel) == 0:
        return
    th_j = X[sel, 5][:, None] + 2*np.pi*np.arange(1, N+1)/N
    G = np.repeat(X[sel][:, None, :], N, axis=1)
    G[:, :, 5] = th_j
    lg = Law(spec, G, np.repeat(f[sel][:, None], N, axis=1))
    r = np.abs(lg.rate)
    best, worst = r.max(axis=1), r.min(axis=1)
    cur = np.abs(law.rate[sel])
    with np.errstate(all="ignore"):
        wa, wr = cur/best, (cur-worst)/(best-worst)
        t0 = np.max(lg.tr, axis=1) + law.tr[sel]
        ta = 4*t0/best + 1e-9
        tr = 4*t0/(best-worst) + 1e-9
    good = np.isfinite(wa) & np.isfinite(wr) & (tr < 0.05)
    vec(obs, good & (np.abs(fl.eta[sel, 0]-wa) > ta), "eta_a", "absolute effectivity is not current rate over best rate", got=fl.eta[sel, 0], want=wa,
        k=sel, t=fl.t[sel])
    vec(obs, good & (np.abs(fl.eta[sel, 1]-wr) > tr), "eta_r", "relative effectivity is not current rate in the best-worst range",
        got=fl.eta[sel, 1], want=wr, k=sel, t=fl.t[sel])
    vec(obs, good & ((fl.eta[sel] < -tr[:, None]) | (fl.eta[sel] > 1+tr[:, None])).any(axis=1), "range", "effectivity outside [0,1]", eta=fl.eta[sel])
    below = (fl.eta[sel, 0] < fl.bnd[sel, 0]) | (fl.eta[sel, 1] < fl.bnd[sel, 1])
    near = (np.abs(fl.eta[sel]-fl.bnd[sel]) < 1e-12).any(axis=1)
    vec(obs, (below != (th[sel] == 0)) & ~near, "decision", "throttle does not follow the threshold decision", eta=fl.eta[sel], bnd=fl.bnd[sel], throttle=th[sel])
    # decision against the reference values too
    wbelow = (wa < fl.bnd[sel, 0]) | (wr < fl.bnd[sel, 1])
    wnear = (np.abs(wa-fl.bnd[sel, 0]) < 2*ta) | (np.abs(wr-fl.bnd[sel, 1]) < 2*tr)
    vec(obs, good & ~wnear & (wbelow != (th[sel] == 0)), "decision_ref", "throttle differs from the decision on true effectivities", throttle=th[sel])
    obs.count("eta_steps", len(sel))
    obs.count("eta_coast", int((th[sel] == 0).sum()))
    obs.count("eta_thrust", int((th[sel] == 1).sum()))
    obs.count("coast_by_a_only", int(((fl.eta[sel, 0] < fl.bnd[sel, 0]) & (fl.eta[sel, 1] >= fl.bnd[sel, 1])).sum()))
    obs.count("coast_by_r_only", int(((fl.eta[sel, 0] >= fl.bnd[sel, 0]) & (fl.eta[sel, 1] < fl.bnd[sel, 1])).sum()))
    if par(spec, "t_step") < 0:
        obs.count("eta_backward", len(sel))


# ------------------------------------------------------------------ dynamics and law along the trajectory
def dynamics(spec, fl, obs, only_thrust=False, mech="step"):
    """C08 (and, with perturbations, C18): every recorded step re-flown from the record"""
    if not shape_ok(fl, obs) or fl.n == 0:
        return
    et, mu, it = et_of(spec), par(spec, "mu"), par(spec, "integrator")
    X = fl.x            # the record itself: a safeguarded state is recorded as flown
    reg = moving(et, X[:-1])
    dt = dts(fl)
    tmax = par(spec, "tmax")
    th = fl.c[:, 2]
    P = ptrb_values(spec, fl)
    lo = hi = None
    if et == "keplerian":
        lo, hi = np.asarray(fl.prob.oe_min)[:5], np.asarray(fl.prob.oe_max)[:5]
    for k in range(fl.n):
        if not reg[k]:
            obs.count("skipped_singular")
            continue
        if only_thrust and th[k] != 1:
            continue
        acc = P[k].copy()
        if th[k] == 1:
            acc = acc + np.sign(dt[k])*tmax/fl.m[k]*ref.thrust_dir(fl.c[k, 0], fl.c[k, 1])
        # the recorded time difference carries the rounding of t
        y = ref.step_frozen(et, X[k], mu, acc, dt[k], it)
        if not np.all(np.isfinite(y)):
            obs.count("skipped_singular")
            continue
        slow, fast = y[:5]-X[k, :5], y[5]-X[k, 5]
        rate5 = abs(fast/dt[k]) if dt[k] else 0.0
        tr = 4e-16*(abs(fl.t[k])+abs(fl.t[k+1]))
        tol = np.empty(6)
        tol[:5] = 1e-12*(np.abs(X[k, :5])+1e-3) + 1e-7*np.abs(slow) + np.abs(slow/dt[k])*tr
        # slow elements that cancel between components: scale with the total acceleration
        tol[5] = 1e-11*(1+abs(X[k, 5])) + 1e-8*abs(fast) + 10*rate5*tr
        psi = None
        d = np.abs(fl.x[k+1]-y)
        if np.any(d > tol):
            psi = np.abs(ref.gauss(et, X[k], mu)[0]) @ np.abs(acc)*abs(dt[k])
            tol[:5] += 1e-9*psi[:5]
            bad = d > tol
            if et == "keplerian" and k+1 < fl.n and np.any(bad[:5]):
                yc = np.minimum(np.maximum(y[:5], lo), hi)
                bad[:5] &= np.abs(fl.x[k+1, :5]-yc) > tol[:5]
            if bad.any():
                obs.fail(mech, "step %d/%d is not the recorded command integrated from the recorded state" % (k, fl.n), got=fl.x[k+1], want=y,
                         start=X[k], dt=dt[k], control=fl.c[k], mass=fl.m[k], ptrb=P[k], component=int(np.argmax(bad)))
                return
        obs.count("replayed_steps")
        obs.count("replayed_thrust" if th[k] == 1 else "replayed_coast")
        if th[k] != 1 and not P[k].any():
            if np.any(np.abs(fl.x[k+1, :5]-X[k, :5]) > 1e-12*(1+np.abs(X[k, :5]))) and \
                    not (et == "keplerian" and np.any(fl.x[k+1, :5] != X[k, :5])):
                obs.fail(mech, "slow elements move on an unforced coasting step", k=k)
                return
            obs.count("unforced_coast")
    obs.count("checked:" + mech)


def ptrb_values(spec, fl):
    if not spec.get("pert"):
        return np.zeros((fl.n, 3))
    v = getattr(fl.model, "vals", [])
    P = np.zeros((fl.n, 3))
    # attribute by time (a step's query carries its start time)
    idx = {t: j for j, (t, _, _) in enumerate(fl.ptrb_log)}
    for k in range(fl.n):
        j = idx.get(fl.t[k])
        if j is not None and j < len(v):
            P[k] = v[j]
    return P


def law_record(spec, fl, obs):
    """C08: command, Q and rate recorded for a step are the law's at its starting state and current mass"""
    if not shape_ok(fl, obs) or fl.n == 0:
        return
    et = et_of(spec)
    X = fl.x[:-1]
    reg = regular(et, X)
    f = np.sign(dts(fl))*par(spec, "tmax")/fl.m[:-1]
    law = Law(spec, X, f)
    use = reg & law.ok
    vec(obs, use & ~(np.abs(fl.Q-law.q) <= law.tq + 1e-300), "Q", "recorded Q is not Q of the starting state", got=fl.Q, want=law.q, oe=X)
    vec(obs, use & ~(np.abs(fl.dQ-law.rate) <= law.tr + 1e-300), "rate", "recorded Q rate is not the law's at the starting state", got=fl.dQ,
        want=law.rate, oe=X)
    en = enabled(fl)
    u = ref.thrust_dir(fl.c[:, 0], fl.c[:, 1])
    bad = np.linalg.norm(u-law.u, axis=1) > law.tu
    vec(obs, use & en & bad, "command", "recorded command is not the law's at the recorded state", got=u, want=law.u, oe=X, f=f)
    obs.count("commands", int((use & en).sum()))
    obs.count("backward_steps", int((f < 0).sum()))


def perturbation_calls(spec, fl, obs):
    """C18: exactly one query per flown step, with the step's start time, state, element set"""
    if not shape_ok(fl, obs):
        return
    X = clipped(spec, fl)
    L = fl.ptrb_log
    obs.check(len(L) == fl.n, "once", "queries %d for %d steps" % (len(L), fl.n))
    et = et_of(spec)
    for k, (t, oe, e) in enumerate(L[:fl.n]):
        if t != fl.t[k] or not np.allclose(oe, X[k], rtol=1e-14, atol=0) or e != et:
            obs.fail("query", "query %d is not for the step's start" % k, t=t, want_t=fl.t[k], oe=oe, want=X[k], et=e)
            return
        obs.count("queries")
    obs.count("checked:query")
