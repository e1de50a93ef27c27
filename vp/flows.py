"""Solve workloads: JSON spec -> real solve -> recorded histories and client-boundary event log."""
import contextlib, io, math

import numpy as np

from . import ref, sut
from .core import Runaway, Watchdog
import pyqlaw

WIDE = {"keplerian": ([1e-3, 1e-8, 1e-8, -1e9, -1e9, -1e9], [1e6, 0.999, math.pi, 1e9, 1e9, 1e9])}

LAW_ARGS = ("mu", "rpmin", "k_petro", "m_petro", "n_petro", "r_petro", "b_petro", "wp", "elements_type", "integrator",
            "verbosity", "anomaly_grid_size", "tol_oe", "oe_min", "oe_max", "nan_angles_threshold", "print_frequency",
            "use_sundman", "relaxed_tol_factor", "exit_at_relaxed")
PROB_ARGS = ("oe0", "oeT", "mass0", "tmax", "mdot", "tf_max", "t_step", "mass_min", "woe", "duty_cycle", "battery_initial",
             "battery_capacity", "battery_charge_discharge_rate", "require_full_recharge")
ARR = ("tol_oe", "oe_min", "oe_max", "oe0", "oeT", "woe")
TUP = ("duty_cycle", "battery_capacity", "battery_charge_discharge_rate")

DEF = dict(mu=1.0, elements_type="mee_with_a", integrator="rk4", anomaly_grid_size=5, tol_oe=[1e-3]*5, oe_min=None,
           oe_max=None, nan_angles_threshold=10, use_sundman=False, relaxed_tol_factor=10, exit_at_relaxed=100,
           tf_max=100000.0, t_step=0.1, mass_min=0.1, woe=[1.0]*5, duty_cycle=[1e16, 0.0], battery_initial=1.0,
           battery_capacity=[0.2, 1.0], battery_charge_discharge_rate=[0.0, 0.0], require_full_recharge=False)
DEF.update(ref.LAW_DEFAULT)


def par(spec, name):
    d = spec.get("law", {}) if name in LAW_ARGS else spec.get("prob", {})
    v = d.get(name)
    if v is None:
        v = DEF.get(name)
    return v


def lawpar(spec):
    return {k: par(spec, k) for k in ref.LAW_KEYS}


# ----------------------------------------------------------------------------------------- client-side stand-ins
class Model:
    """duck-typed perturbation model: observation and fault-injection point at the client boundary"""

    def __init__(self, spec, log, fault=None):
        self.p, self.log, self.fault = spec, log, fault

    def value(self, t, oe, et):
        p = self.p
        k = p["kind"]
        if k == "zero":
            return np.zeros(3)
        if k == "const":
            return np.array(p["a"], dtype=float)
        if k == "sine":
            return np.array(p["a"], dtype=float)*math.sin(p["w"]*t + p["ph"])
        if k == "state":
            oe = np.asarray(oe, dtype=float)
            return np.array(p["a"], dtype=float)*np.array([math.sin(oe[5]), math.cos(oe[5]), oe[1]])
        if k == "impulse":
            return np.array(p["a"], dtype=float) if len(self.log) - 1 in p["at"] else np.zeros(3)
        raise ValueError(k)

    def get_perturbations_RTN(self, t, oe, elements_type):
        self.log.append((float(t), np.array(oe, dtype=float), elements_type))
        if self.fault is not None and len(self.log) - 1 == self.fault:
            raise ClientError("injected")
        v = self.value(t, oe, elements_type)
        self.vals = getattr(self, "vals", [])
        self.vals.append(v.copy())
        return v


class ClientError(Exception):
    pass


def eta_value(e, t, oe, m, b):
    k = e["fn"]
    if k == "const":
        return e["v"]
    if k == "sine":
        return max(0.0, e["v"]*(0.5 + 0.5*math.sin(e["w"]*t + e["ph"])))
    if k == "mass":
        return e["v"] if m < e["m"] else 0.0
    if k == "batt":
        return e["v"] if b < e["b"] else 0.0
    if k == "tal":
        return e["v"]*(0.5-0.5*math.cos(float(oe[5])))
    if k == "lat":
        return e["v"]*(0.5+0.5*math.cos(float(oe[5])))
    if k == "time":
        return e["v"] if abs(t) > e["t"] else 0.0
    raise ValueError(k)


def make_eta(e, log):
    """threshold: number, or a callable built from a dict"""
    if not isinstance(e, dict):
        return float(e)

    def eta(t, oe, mass, battery):
        v = eta_value(e, float(t), oe, float(mass), float(battery))
        log.append((float(t), np.array(oe, dtype=float), float(mass), float(battery), v))
        if e.get("fault") is not None and len(log) - 1 == e["fault"]:
            raise ClientError("injected")
        return v
    return eta


# ----------------------------------------------------------------------------------------- build / set / fly
def law_kwargs(spec):
    kw = {}
    for k, v in spec.get("law", {}).items():
        if v is None:
            continue
        kw[k] = np.array(v, dtype=float) if k in ARR else v
    kw.setdefault("verbosity", 0)
    return kw


def prob_kwargs(spec):
    kw = {}
    for k, v in spec.get("prob", {}).items():
        if v is None:
            continue
        kw[k] = np.array(v, dtype=float) if k in ARR else tuple(v) if k in TUP else v
    return kw


def build(spec, **over):
    kw = law_kwargs(spec)
    kw.update(over)
    with contextlib.redirect_stdout(io.StringIO()):
        return pyqlaw.QLaw(**kw)


class Flight:
    pass


def max_nodes(spec):
    tf, dt = abs(par(spec, "tf_max")), abs(par(spec, "t_step"))
    if par(spec, "use_sundman"):
        oe = np.asarray(par(spec, "oe0"), dtype=float)
        return 150000
    return int(50*tf/dt) + 2000


def solve(prob, spec, fl=None):
    """run the real solve with the logical-step probe armed"""
    fl = fl or Flight()
    fl.eta_a_log, fl.eta_r_log = [], []
    lim = spec.get("max_nodes") or max_nodes(spec)

    def probe():
        t = getattr(prob, "times", None)
        return t is not None and len(t) > lim
    out = io.StringIO()
    fl.stdout = out
    ea, er = make_eta(spec.get("eta_a", 0.0), fl.eta_a_log), make_eta(spec.get("eta_r", 0.0), fl.eta_r_log)
    old = Watchdog.probe
    Watchdog.probe = probe
    try:
        with contextlib.redirect_stdout(out):
            prob.solve(eta_a=ea, eta_r=er)
    finally:
        Watchdog.probe = old
    return fl


def fly(spec, prob=None, obs=None, **over):
    """build + set + solve + snapshot"""
    prob = prob or build(spec, **over)
    fl = Flight()
    fl.ptrb_log = []
    fl.model = None
    if spec.get("pert"):
        fl.model = Model(spec["pert"], fl.ptrb_log, spec["pert"].get("fault"))
    prob.perturbations = fl.model
    prob.set_problem(**prob_kwargs(spec))
    solve(prob, spec, fl)
    return snap(prob, spec, fl, obs)


def snap(prob, spec, fl=None, obs=None):
    fl = fl or Flight()
    fl.prob = prob
    fl.spec = spec
    fl.exitcode = prob.exitcode
    fl.converge = prob.converge
    fl.t = np.array([float(v) for v in prob.times])
    fl.x = np.array([np.asarray(v, dtype=float) for v in prob.states]).reshape(len(prob.states), 6)
    fl.m = np.array([float(v) for v in prob.masses])
    fl.c = np.array(prob.controls, dtype=float).reshape(len(prob.controls), 3)
    fl.eta = np.array(prob.etas, dtype=float).reshape(len(prob.etas), 2)
    fl.bnd = np.array(prob.etas_bounds, dtype=float).reshape(len(prob.etas_bounds), 2)
    fl.Q = np.array([float(v) for v in prob.Qs])
    fl.dQ = np.array([float(v) for v in prob.dQdts])
    fl.b = np.array([float(v) for v in prob.battery])
    fl.n = len(fl.c)
    if obs is not None:
        obs.count("solves")
        obs.count("steps", fl.n)
    return fl


def histories(fl):
    return dict(t=fl.t, x=fl.x, m=fl.m, c=fl.c, eta=fl.eta, bnd=fl.bnd, Q=fl.Q, dQ=fl.dQ, b=fl.b)


def same_histories(a, b, tol=0.0):
    """None if equal, else name of the first history that differs"""
    if a.exitcode != b.exitcode or bool(a.converge) != bool(b.converge):
        return "outcome"
    ha, hb = histories(a), histories(b)
    for k in ha:
        u, v = ha[k], hb[k]
        if u.shape != v.shape:
            return k + ":shape"
        nu, nv = np.isnan(u), np.isnan(v)
        if np.any(nu != nv):
            return k + ":nan"
        d = np.abs(np.where(nu, 0, u) - np.where(nv, 0, v))
        s = np.maximum(np.abs(np.where(nu, 0, u)), 1e-300)
        if tol == 0.0:
            if np.any(d > 0):
                return k
        elif np.any(d > tol*(1+s)):
            return k
    return None


def warm(specs):
    """compile every kernel combination in the parent before forking"""
    sut.memoise_symbolic()
    for s in specs:
        fly(s)


def warm_all(tier=None, ets=("keplerian", "mee_with_a"), ints=("rk4", "rkf45"), sund=True):
    base = dict(keplerian=([1.0, 0.1, 0.3, 0.4, 0.5, 0.6], [1.1, 0.2, 0.4, 0.5, 0.6]),
                mee_with_a=([1.0, 0.1, 0.1, 0.1, 0.05, 0.6], [1.1, 0.2, 0.1, 0.1, 0.1]))
    specs = []
    for et in ets:
        for it in ints:
            o0, oT = base[et]
            specs.append(dict(law=dict(elements_type=et, integrator=it, use_sundman=bool(sund)),
                              prob=dict(oe0=o0, oeT=oT, mass0=1.0, tmax=1e-3, mdot=1e-4, tf_max=0.3, t_step=0.1),
                              eta_a=0.1, eta_r=0.1))
    warm(specs)


# ----------------------------------------------------------------------------------------- random problems
def logu(rng, lo, hi):
    return float(math.exp(rng.uniform(math.log(lo), math.log(hi))))


def rand_kep(rng, emin=0.02, emax=0.7, imin=0.05, imax=2.6, amin=0.6, amax=3.0, neg_angles=True):
    a = logu(rng, amin, amax)
    e = float(rng.uniform(emin, emax))
    i = float(rng.uniform(imin, imax))
    lo = -math.pi if neg_angles else 0.05
    O, w = float(rng.uniform(lo, math.pi)), float(rng.uniform(lo, math.pi))
    v = float(rng.uniform(-math.pi, math.pi)) + 2*math.pi*int(rng.integers(-1, 2))
    return [a, e, i, O, w, v]


def rand_oe(rng, et, **kw):
    k = rand_kep(rng, **kw)
    if et == "keplerian":
        return k
    return [float(x) for x in ref.kep2meea(np.array(k))]


def rand_target(rng, et, oe0, size=None):
    """target a moderate change away from oe0"""
    s = size if size is not None else logu(rng, 0.01, 0.5)
    o = np.array(oe0[:5], dtype=float)
    if et == "keplerian":
        a = o[0]*math.exp(s*rng.uniform(-1, 1))
        e = min(0.75, max(0.02, o[1] + 0.5*s*rng.uniform(-1, 1)))
        i = min(2.7, max(0.04, o[2] + s*rng.uniform(-1, 1)))
        return [float(v) for v in (a, e, i, o[3]+2*s*rng.uniform(-1, 1), o[4]+2*s*rng.uniform(-1, 1))]
    a = o[0]*math.exp(s*rng.uniform(-1, 1))
    f, g = o[1]+0.5*s*rng.uniform(-1, 1), o[2]+0.5*s*rng.uniform(-1, 1)
    n = math.hypot(f, g)
    if n > 0.75:
        f, g = f*0.75/n, g*0.75/n
    return [float(v) for v in (a, f, g, o[3]+s*rng.uniform(-1, 1), o[4]+s*rng.uniform(-1, 1))]


def period(et, oe, mu):
    return 2*math.pi*math.sqrt(oe[0]**3/mu)


def rand_spec(rng, et=None, integrator=None, nsteps=60, sundman=None, backward=None, pert=None, duty=None, battery=None,
              eta=None, deplete=None, mu=None, tight=True, grid=None, small_thrust=False, units=None):
    """random short solve; None options are drawn"""
    et = et or str(rng.choice(["keplerian", "mee_with_a"]))
    integrator = integrator or str(rng.choice(["rk4", "rkf45"]))
    mu_in = mu
    mu = mu if mu is not None else (1.0 if rng.random() < 0.4 else logu(rng, 0.05, 50.0))
    sundman = bool(rng.random() < 0.35) if sundman is None else sundman
    backward = bool(rng.random() < 0.3) if backward is None else backward
    oe0 = rand_oe(rng, et)
    units = bool(rng.random() < 0.12) if units is None else units          # dimensional problems: km or m, s, kg, J
    if units:
        L = logu(rng, 1e-3, 1e7)
        oe0[0] *= L
        mu = mu_in if mu_in is not None else L**3*logu(rng, 1e-10, 1e4)
    oeT = rand_target(rng, et, oe0)
    P = period(et, oe0, mu)
    g0 = mu/oe0[0]**2
    mass0 = 1.0 if rng.random() < 0.4 else logu(rng, 0.3, 20.0 if not units else 1e5)
    f0 = g0*logu(rng, 1e-5, 3e-3 if small_thrust else 1.5e-2)
    tmax = f0*mass0
    ns = int(nsteps*rng.uniform(0.6, 1.4)) + 3
    sgn = -1.0 if backward else 1.0
    if sundman:
        step = sgn*float(rng.uniform(0.02, 0.6))
        dt = abs(step)/(2*math.pi)*P
    else:
        dt = P*logu(rng, 0.002, 0.04)
        step = sgn*dt
    T = ns*dt
    rpm = float(rng.uniform(0.02, 0.3))
    if rpm > 0.27:
        rpm += 30*(rpm-0.27)                    # orbits that dip below the minimum periapsis
    law = dict(elements_type=et, integrator=integrator, mu=mu, use_sundman=sundman, rpmin=oe0[0]*rpm,
               wp=float(rng.choice([0.0, 1.0, 2.0])), k_petro=float(rng.choice([1.0, 3.0, 0.5])),
               m_petro=float(rng.choice([3.0, 2.0])), n_petro=float(rng.choice([4.0, 2.0])),
               r_petro=float(rng.choice([2.0, 3.0])), b_petro=float(rng.choice([0.01, 0.1])))
    if grid is not None or rng.random() < 0.4:
        law["anomaly_grid_size"] = int(grid if grid is not None else rng.integers(2, 40))
    if et == "keplerian":
        law["oe_min"], law["oe_max"] = [list(v) for v in WIDE[et]]
        if units:
            law["oe_min"][0], law["oe_max"][0] = 1e-3*oe0[0], 1e3*oe0[0]
    if tight:
        law["tol_oe"] = [1e-12]*5
        law["relaxed_tol_factor"] = 1
    prob = dict(oe0=oe0, oeT=oeT, mass0=mass0, tmax=tmax, t_step=step, tf_max=sgn*T*float(rng.uniform(0.95, 1.05)))
    # propellant
    deplete = bool(rng.random() < 0.15) if deplete is None else deplete
    frac = float(rng.uniform(0.001, 0.3))
    prob["mass_min"] = max(0.011, mass0*(1-frac*float(rng.uniform(0.2, 1.0)))) if deplete else max(0.01, 0.02*mass0)
    prob["mdot"] = frac*mass0/T if rng.random() < 0.9 else 0.0
    if deplete and prob["mdot"] == 0.0:
        prob["mdot"] = frac*mass0/T
    if rng.random() < 0.6:
        w = [float(x) for x in rng.choice([0.0, 1.0, 1.0, 0.3, 5.0], 5)]
        if sum(w) == 0:
            w[int(rng.integers(5))] = 1.0
        if rng.random() < 0.2:
            w = [v*logu(rng, 1e-4, 1e4) for v in w]
        prob["woe"] = w
    duty = bool(rng.random() < 0.3) if duty is None else duty
    if duty:
        prob["duty_cycle"] = [dt*logu(rng, 0.5, 15.0), dt*logu(rng, 0.3, 10.0)]
        if rng.random() < 0.3:      # exact multiples exercise the window edges
            prob["duty_cycle"] = [dt*int(rng.integers(1, 8)), dt*int(rng.integers(0, 6))]
    battery = (bool(rng.random() < 0.3) and not backward) if battery is None else battery
    if battery:
        bu = logu(rng, 1e-3, 1e6) if units else 1.0
        lo = bu*float(rng.uniform(0.0, 0.5))
        hi = lo + bu*float(rng.uniform(0.1, 1.0))
        life = dt*logu(rng, 1.5, 25.0)
        ch = dt*logu(rng, 1.5, 25.0)
        b0 = float(rng.choice([lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi)]))
        prob.update(battery_capacity=[lo, hi], battery_initial=b0,
                    battery_charge_discharge_rate=[(hi-lo)/ch, (hi-lo)/life],
                    require_full_recharge=bool(rng.random() < 0.5))
        if rng.random() < 0.1:
            prob["battery_charge_discharge_rate"][0] = 0.0
        elif rng.random() < 0.1:
            prob["battery_charge_discharge_rate"][1] = 0.0
    spec = dict(law=law, prob=prob)
    if units:
        spec["units"] = True
    eta = bool(rng.random() < 0.5) if eta is None else eta
    if eta:
        for nm in ("eta_a", "eta_r"):
            if rng.random() < 0.65:
                spec[nm] = rand_eta(rng, T, mass0, prob)
    if pert is None:
        pert = rng.random() < 0.3
    if pert:
        spec["pert"] = pert if isinstance(pert, dict) else rand_pert(rng, g0, P)
    return spec


def rand_eta(rng, T, mass0, prob):
    r = rng.random()
    v = float(rng.uniform(0.05, 0.98))
    if r < 0.5:
        return v
    k = str(rng.choice(["const", "sine", "mass", "batt", "lat", "time"]))
    cap = prob.get("battery_capacity", [0.2, 1.0])
    return dict(fn=k, v=v, w=2*math.pi/T*float(rng.uniform(1, 6)), ph=float(rng.uniform(0, 6)),
                m=mass0*float(rng.uniform(0.8, 1.0)), b=float(rng.uniform(cap[0], cap[1])), t=T*float(rng.uniform(0, 1)))


def dyadic_grid(spec, rng, n=None):
    """mass, flow and step exactly representable, minimum mass hit exactly at a node after n thrusting steps"""
    p = spec["prob"]
    spec["law"]["use_sundman"] = False
    for k in ("battery_capacity", "battery_initial", "battery_charge_discharge_rate", "require_full_recharge"):
        p.pop(k, None)
    P = period(spec["law"]["elements_type"], p["oe0"], spec["law"]["mu"])
    dt = 2.0**round(math.log2(P*0.01)) * int(rng.choice([1, 1, 3]))
    n = n or int(rng.integers(1, 25))
    q = 2.0**-int(rng.integers(8, 12))           # mass burnt per step
    k = round(math.log2(q/dt))
    p["mdot"] = 2.0**k
    p["mass0"] = 1.0
    burn = 2.0**k*dt
    n = min(n, int(0.7/burn))
    p["mass_min"] = 1.0-n*burn
    p["tmax"] = (spec["law"]["mu"]/p["oe0"][0]**2)*1e-3
    p["t_step"] = dt
    p["tf_max"] = dt*(2*n+20)
    return spec


def clip_bounds(spec, rng):
    """Keplerian safeguard bounds close to the initial elements, so that safeguarding really clips"""
    if spec["law"]["elements_type"] != "keplerian":
        return spec
    o = spec["prob"]["oe0"]
    lo, hi = [list(v) for v in WIDE["keplerian"]]
    for j in range(5):
        if rng.random() < 0.5:
            continue
        d = logu(rng, 1e-7, 1e-2)*(1 if j > 2 else o[j])
        if rng.random() < 0.5:
            lo[j] = o[j]-d*float(rng.choice([1, 1, 0, -1]))
        else:
            hi[j] = o[j]+d*float(rng.choice([1, 1, 0, -1]))
    spec["law"]["oe_min"], spec["law"]["oe_max"] = lo, hi
    return spec


def rand_pert(rng, g0, P):
    k = str(rng.choice(["zero", "const", "sine", "state", "impulse"]))
    amp = g0*logu(rng, 1e-7, 3e-3)
    d = rng.normal(size=3)
    d = d/np.linalg.norm(d)
    return dict(kind=k, a=[float(x) for x in amp*d], w=2*math.pi/P*float(rng.uniform(0.5, 3)), ph=float(rng.uniform(0, 6)),
                at=[int(x) for x in rng.integers(0, 40, 4)])
