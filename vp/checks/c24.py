"""C24: Q falls while thrusting, is constant while coasting, and transfers of the documented classes converge"""
import math
import numpy as np
from .. import core, flows, ref, shadow
from ..flows import rand_spec, logu

ID = "C24"
N = dict(quick=460, thorough=11000)
REQUIRED = ["descent_steps", "descent_steps:keplerian", "descent_steps:mee_with_a", "descent_backward", "coast_steps", "off_steps", "transfers", "transfer:keplerian", "transfer:mee_with_a",
            "transfer_backward", "transfer_sundman", "transfer_threshold", "transfer_duty", "transfer_battery", "transfer:rk4", "transfer:rkf45", "transfer_units",
            "transfer_weights", "checked:descent", "checked:coast", "checked:reached", "checked:inside"]
RULE = ("short random flights with steps so small that Q changes by about 1e-4: every unperturbed thrusting step must lower Q (referred to the same thrust "
        "acceleration) at the reported rate, every coasting step must keep it; transfers of the documented classes must reach the target within a bounded multiple of the "
        "time-to-go estimate sqrt(Q); non-trivial = at least one thrusting step or transfer decided")
ASSUMPTIONS = ["states away from the law's singularities and kinks", "transfer families: thrust 1e-3..1e-2 of local gravity, eccentricity below 0.45, Keplerian inclination and "
               "eccentricity bounded from zero, about 60 steps per revolution, tolerance 1e-2 of the elements"]
CASE_LIMIT = 240


def warm(tier):
    flows.warm_all()


GEN_INDEX = True


def gen(rng, tier, j):
    return transfer(rng) if j % 5 < 2 else tiny(rng)


def tiny(rng):
    s = rand_spec(rng, nsteps=8, pert=False, sundman=False, small_thrust=True, battery=None)
    p = s["prob"]
    g0 = flows.par(s, "mu")/p["oe0"][0]**2
    p["tmax"] = p["mass0"]*g0*logu(rng, 1e-4, 1e-2)
    p["oeT"] = flows.rand_target(rng, shadow.et_of(s), p["oe0"], size=logu(rng, 0.03, 0.5))
    if rng.random() < 0.4:
        s["eta_a"] = float(rng.uniform(0, 1.05))
    else:
        s.pop("eta_a", None)
    s.pop("eta_r", None)
    s["kind"] = "tiny"
    s["eps"] = logu(rng, 2e-6, 1e-4)
    return s


def transfer(rng):
    et = str(rng.choice(["keplerian", "mee_with_a"]))
    mu = 1.0 if rng.random() < 0.5 else logu(rng, 1e-2, 1e2)
    if et == "mee_with_a":
        oe0 = flows.rand_oe(rng, et, emin=0.0, emax=0.35, imin=0.0, imax=1.2, amin=0.8, amax=2)
        T = np.array(oe0[:5])
        T[0] *= math.exp(rng.uniform(-.3, .3))
        T[1:3] += rng.uniform(-.1, .1, 2)
        T[3:5] += rng.uniform(-.1, .1, 2)
    else:
        oe0 = flows.rand_kep(rng, emin=0.1, emax=0.4, imin=0.3, imax=1.3, amin=.8, amax=2)
        T = np.array(oe0[:5])
        T[0] *= math.exp(rng.uniform(-.3, .3))
        T[1] += rng.uniform(-.07, .07)
        T[2] += rng.uniform(-.1, .1)
        T[3] += rng.uniform(-.2, .2)
        T[4] += rng.uniform(-.3, .3)
    P = flows.period(et, oe0, mu)
    m0 = logu(rng, 0.5, 100)
    f = mu/oe0[0]**2*logu(rng, 1e-3, 1e-2)
    sg = -1.0 if rng.random() < 0.35 else 1.0
    sund = bool(rng.random() < 0.4)
    law = dict(elements_type=et, integrator=str(rng.choice(["rk4", "rkf45"])), mu=mu, use_sundman=sund, rpmin=0.1*oe0[0], tol_oe=[1e-2*oe0[0]] + [1e-2]*4,
               relaxed_tol_factor=1, anomaly_grid_size=10)
    if et == "keplerian":
        law["oe_min"], law["oe_max"] = [list(v) for v in flows.WIDE[et]]
    w = np.ones(5)
    if rng.random() < 0.3:
        w = rng.choice([0.0, 1.0, 1.0, 2.0], 5)
        w[0] = 1.0
    prob = dict(oe0=oe0, oeT=[float(v) for v in T], mass0=m0, tmax=f*m0, mass_min=0.02*m0, woe=[float(v) for v in w],
                t_step=sg*(2*math.pi/60 if sund else P/60))
    s = dict(kind="transfer", law=law, prob=prob)
    with np.errstate(all="ignore"):
        q = float(ref.law_eval(et, np.array(oe0), T, mu, f, w, shadow.lawpar(s))[0])
    tau = math.sqrt(q)
    mult = 5.0
    r = rng.random()
    if r < 0.15:
        s["eta_a"] = float(rng.uniform(0.05, 0.4))
        mult = 12.0
    elif r < 0.25:
        s["eta_r"] = float(rng.uniform(0.05, 0.4))
        mult = 12.0
    elif r < 0.35:
        # (windows not commensurate with the orbit)
        prob["duty_cycle"] = [P*float(rng.uniform(1.1, 3.3)), P*float(rng.uniform(0.1, 0.7))]
        mult = 10.0
    elif r < 0.45 and sg > 0:
        prob["battery_capacity"] = [0.2, 1.0]
        prob["battery_initial"] = 1.0
        life, ch = P*float(rng.uniform(1.1, 3.3)), P*float(rng.uniform(0.1, 0.7))
        prob["battery_charge_discharge_rate"] = [0.8/ch, 0.8/life]
        prob["require_full_recharge"] = True
        mult = 10.0
    prob["tf_max"] = sg*(mult*tau + 8*P)       # (an orbit or more to phase the last corrections)
    prob["mdot"] = m0*0.25*float(rng.random())/(3*tau)/mult*5 if tau > 0 else 0.0
    s["tau"], s["mult"] = tau, mult
    return s


def run(case, obs):
    if case["kind"] == "transfer":
        return run_transfer(case, obs)
    p = case["prob"]
    et = shadow.et_of(case)
    sg = math.copysign(1, p["t_step"])
    x0 = np.array(p["oe0"], dtype=float)[None, :]
    f0 = sg*p["tmax"]/p["mass0"]
    law = shadow.Law(case, x0, np.array([f0]))
    if not law.ok[0] or not shadow.regular(et, x0)[0]:
        obs.trivial = True
        return
    P = flows.period(et, p["oe0"], flows.par(case, "mu"))
    dt = min(case["eps"]*float(law.q[0]/abs(law.rate[0])), 3e-3*P)
    old = abs(p["t_step"])
    p["t_step"] = sg*dt
    p["tf_max"] = sg*10.5*dt
    p["mdot"] = p["mdot"]*old/dt
    if p.get("duty_cycle"):
        p["duty_cycle"] = [v*dt/old for v in p["duty_cycle"]]
    if p.get("battery_charge_discharge_rate"):
        p["battery_charge_discharge_rate"] = [v*old/dt for v in p["battery_charge_discharge_rate"]]
    fl = flows.fly(case, obs=obs)
    if not shadow.shape_ok(fl, obs) or fl.n < 2 or not np.all(np.isfinite(fl.x)):
        obs.trivial = True
        return
    X = shadow.clipped(case, fl)
    n = fl.n
    f = sg*p["tmax"]/fl.m
    R = np.append(fl.Q, np.nan)*f**2
    reg = shadow.regular(et, X[:n])
    with np.errstate(all="ignore"):
        lw = shadow.Law(case, X[:n], f[:n])
        # the reference law is only consulted for where Q is smooth
        good = reg & lw.ok & (lw.tq < 1e-7*lw.q)
    d = np.diff(fl.t)
    for k in range(n-1):
        if not (good[k] and good[k+1]) or d[k] == 0:
            continue
        dR = (R[k+1]-R[k])/f[k]**2
        if fl.c[k, 2] == 1:
            want = -abs(fl.dQ[k]*d[k])
            noise = 2e-11*abs(fl.Q[k]) + 2*lw.tq[k]*1e-3
            if abs(want) < 20*noise:
                obs.count("below_noise")
                continue
            obs.check(dR < 0 and abs(dR-want) <= 0.03*abs(want) + noise, "descent", "Q does not fall at the reported rate on a short thrusting step", k=k, got=dR,
                      want=want, Q=fl.Q[k], oe=X[k], dt=d[k])
            obs.count("descent_steps")
            obs.count("descent_steps:" + et)
            obs.count("descent_backward", sg < 0)
        else:
            obs.check(abs(dR) <= 2e-11*abs(fl.Q[k]) + 1e-2*lw.tq[k], "coast", "Q changes while coasting", k=k, got=dR, Q=fl.Q[k])
            obs.count("coast_steps")
            obs.count("off_steps", bool(np.isnan(fl.bnd[k]).any()))
    obs.trivial = obs.counters["descent_steps"] + obs.counters["coast_steps"] == 0


def run_transfer(case, obs):
    et, p = shadow.et_of(case), case["prob"]
    if not math.isfinite(case["tau"]) or case["tau"] <= 0:
        obs.trivial = True
        return
    fl = flows.fly(case, obs=obs)
    d = fl.x[-1, :5]-np.asarray(p["oeT"])
    if et == "keplerian":
        d[3:5] = ref.wrap_pi(d[3:5])
    w = np.asarray(p["woe"])
    tol = np.asarray(case["law"]["tol_oe"])
    obs.check(fl.exitcode in (1, 2) and bool(fl.converge), "reached", "transfer of a documented class does not converge in %.0f times its time-to-go estimate plus eight revolutions" % case["mult"],
              exitcode=fl.exitcode, errors=d, n=fl.n, t=fl.t[-1]/case["tau"], mass=fl.m[-1])
    if fl.exitcode in (1, 2):
        obs.check(bool(np.all((np.abs(d) <= tol*(1+1e-9)) | (w == 0))), "inside", "reported success with errors outside tolerance", errors=d, tol=tol)
        obs.count("limit_used_tenths:%02d" % min(99, int(10*abs(fl.t[-1])/abs(p["tf_max"]))))
    obs.count("transfers")
    obs.count("transfer:" + et)
    obs.count("transfer:" + case["law"]["integrator"])
    obs.count("transfer_backward", p["t_step"] < 0)
    obs.count("transfer_sundman", case["law"]["use_sundman"])
    obs.count("transfer_threshold", "eta_a" in case or "eta_r" in case)
    obs.count("transfer_duty", "duty_cycle" in p)
    obs.count("transfer_battery", "battery_capacity" in p)
    obs.count("transfer_units", case["law"]["mu"] != 1.0)
    obs.count("transfer_weights", bool(np.any(w != 1)))
