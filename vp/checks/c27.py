"""C27: equivalent statements of a problem solve identically"""
import contextlib, copy, io
import numpy as np
from .. import core, flows, shadow
from ..flows import rand_spec
import pyqlaw

ID = "C27"
N = dict(quick=420, thorough=15000)
FORMS = ("omit_all", "omit_some", "list", "tuple", "strided", "readonly", "int", "scalar", "positional", "six", "none", "reversed_view")
REQUIRED = ["form:" + f for f in FORMS] + ["et:keplerian", "et:mee_with_a", "default:" + "elements_type", "default:tol_oe", "default:oe_min", "default:anomaly_grid_size",
            "default:mass_min", "default:t_step", "default:woe", "default:duty_cycle", "default:battery_capacity", "default:require_full_recharge", "default:tf_max",
            "default:relaxed_tol_factor", "default:exit_at_relaxed", "default:nan_angles_threshold", "default:rpmin", "default:wp", "thresholds", "battery", "int_bounds", "undefined_commands", "beyond_default_bounds"]
RULE = ("random problems with a random subset of the options at their documented defaults; each is stated plainly (float arrays, everything explicit) and in equivalent forms "
        "(options omitted, lists, tuples, integer / strided / read-only / reversed-view arrays, numpy scalars, positional arguments, six-element targets) and the "
        "solves compared; non-trivial = at least three steps flown")
ASSUMPTIONS = ["default safeguards only with elements inside them"]

# documented defaults (class and set_problem docstrings / signatures)
LAWDEF = dict(mu=1.0, rpmin=0.1, k_petro=1.0, m_petro=3.0, n_petro=4.0, r_petro=2.0, b_petro=0.01, wp=1.0, elements_type="mee_with_a", integrator="rk4",
              anomaly_grid_size=5, tol_oe=[1e-3]*5, nan_angles_threshold=10, use_sundman=False, relaxed_tol_factor=10, exit_at_relaxed=100)
BND = dict(keplerian=([0.05, 1e-4, 1e-4, 1e-4, 1e-4, 1e-8], [1e2, 0.95, np.pi, np.inf, np.inf, np.inf]))
PROBDEF = dict(tf_max=100000.0, t_step=0.1, mass_min=0.1, woe=[1.0]*5, duty_cycle=[1e16, 0.0], battery_initial=1.0, battery_capacity=[0.2, 1.0],
               battery_charge_discharge_rate=[0.0, 0.0], require_full_recharge=False)
LORDER = ("mu", "rpmin", "k_petro", "m_petro", "n_petro", "r_petro", "b_petro", "wp", "elements_type", "integrator")
PORDER = flows.PROB_ARGS


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    et = str(rng.choice(["keplerian", "mee_with_a"]))
    mu = 1.0 if rng.random() < 0.5 else None
    s = rand_spec(rng, et=et, nsteps=14, mu=mu, units=False, pert=False, tight=bool(rng.random() < 0.5))
    law, prob = s["law"], s["prob"]
    bounds = None
    for k, v in LAWDEF.items():
        law.setdefault(k, v)
    for k, v in PROBDEF.items():
        prob.setdefault(k, v)
    if prob["mass0"] <= 0.11:
        prob["mass0"] = 1.0
    for k in ("rpmin", "k_petro", "m_petro", "n_petro", "r_petro", "b_petro", "wp", "integrator", "anomaly_grid_size", "tol_oe", "nan_angles_threshold",
              "relaxed_tol_factor", "exit_at_relaxed"):
        if rng.random() < 0.5:
            law[k] = copy.deepcopy(LAWDEF[k])
    if not law["use_sundman"] and rng.random() < 0.4 and prob["t_step"] > 0:
        prob["t_step"] = 0.1
    for k in ("mass_min", "woe", "duty_cycle"):
        if rng.random() < 0.5:
            prob[k] = copy.deepcopy(PROBDEF[k])
    if rng.random() < 0.5:
        for k in ("battery_initial", "battery_capacity", "require_full_recharge"):
            prob[k] = copy.deepcopy(PROBDEF[k])
        if rng.random() < 0.5:
            prob["battery_charge_discharge_rate"] = copy.deepcopy(PROBDEF["battery_charge_discharge_rate"])
        elif prob["t_step"] > 0:
            prob["battery_charge_discharge_rate"] = [0.3/abs(prob["t_step"])/5, 0.3/abs(prob["t_step"])/7]
    b0, c = prob["battery_initial"], prob["battery_capacity"]
    if not c[0] <= b0 <= c[1]:
        prob["battery_initial"] = c[1]
    if prob["mass_min"] >= prob["mass0"]:
        prob["mass_min"] = 0.5*prob["mass0"]
    if et == "keplerian" and rng.random() < 0.6:
        # elements inside the default safeguards
        o = prob["oe0"]
        o[3], o[4] = abs(o[3]) + 0.3, abs(o[4]) + 0.3
        if rng.random() < 0.3:
            o[int(rng.integers(3, 5))] *= -1        # or clipped by them
        law["oe_min"], law["oe_max"] = [list(v) for v in BND["keplerian"]]
        if rng.random() < 0.45:
            # one element beyond a default safeguard
            j = int(rng.integers(3))
            new = [(130.0, 0.03), (0.97, 0.953, 3e-5), (3e-5,)][j]
            f = float(o[0])
            o[j] = float(new[int(rng.integers(len(new)))])
            f = (o[0]/f)**1.5
            prob["tf_max"] *= f
            prob["t_step"] *= 1.0 if law["use_sundman"] else f
            prob["tmax"] *= f**(-4/3)
            s["beyond"] = True
    ints = bool(rng.random() < 0.2)
    if et == "keplerian" and rng.random() < 0.35:
        # whole-number bounds on one side, often met; fractional ones on the other
        ints, o = True, prob["oe0"]
        law["oe_max"] = [float(x) for x in (np.ceil(o[0])+1, 1, 3, 50, 50, 1000)]
        law["oe_min"] = [0.6*o[0], float(rng.uniform(0.02, 0.9))*min(o[1], 0.9) if rng.random() < 0.5 else min(1.2*o[1], 0.9), 1e-3, -50.5, -50.5, -1000.5]
        if rng.random() < 0.4:
            law["oe_min"] = [0.0, 0.0, float(rng.choice([0, 1])), -50.0, -50.0, -1000.0]
            law["oe_max"] = [1.5*o[0], float(rng.choice([0.8, 0.95]))*max(o[1], 0.05), 3.1, 50.5, 50.5, 1000.5]
            law["oe_min"][1] = 0.0 if law["oe_max"][1] < 1e-3 else law["oe_min"][1]
    if ints:
        prob["mass0"], prob["mass_min"] = 4.0, 1.0
        prob["woe"] = [float(x) for x in rng.integers(0, 4, 5)]
        prob["woe"][0] = 1.0
        law["wp"], law["k_petro"], law["mu"] = 1.0, 2.0, law["mu"]
        if et == "keplerian":
            prob["oeT"] = [2.0, 0.0, 1.0, 1.0, 1.0]
        else:
            prob["oeT"] = [2.0, 0.0, 0.0, 0.0, 0.0]
    long = bool(rng.random() < 0.08)
    if long and prob["t_step"] > 0:
        # no time limit stated: ends by running out of propellant after a few steps
        prob["tf_max"] = 100000.0
        prob["mdot"] = 0.05*prob["mass0"]/ (abs(prob["t_step"]) if not law["use_sundman"] else 0.1*flows.period(et, prob["oe0"], law["mu"]))
        prob["mass_min"] = max(0.1, 0.4*prob["mass0"]) if rng.random() < 0.5 and prob["mass0"] > 0.2 else prob["mass_min"]
        prob["duty_cycle"] = [1e16, 0.0]
        prob["battery_charge_discharge_rate"] = [0.0, 0.0]
        prob["battery_initial"] = prob["battery_capacity"][1]
        s.pop("eta_a", None), s.pop("eta_r", None)
    if et == "mee_with_a" and rng.random() < 0.08 and prob["t_step"] > 0:
        # undefined commands from the start: ends by the number accepted
        prob["oe0"][1] = prob["oe0"][2] = 0.0
        prob["tf_max"] = max(prob["tf_max"], 16*prob["t_step"])
        prob["duty_cycle"], prob["battery_charge_discharge_rate"], law["use_sundman"] = [1e16, 0.0], [0.0, 0.0], False
        if rng.random() < 0.6:
            law["nan_angles_threshold"] = 10
    for nm in ("eta_a", "eta_r"):
        if nm in s and isinstance(s[nm], dict):
            s[nm] = s[nm]["v"]
    forms = ["omit_all"] + [str(f) for f in rng.choice(FORMS[1:], size=3, replace=False)]
    if ints:
        forms.append("int")
    return dict(spec=s, forms=forms, r=int(rng.integers(1 << 30)), max_nodes=20000)


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(x == y for x, y in zip(a, b))
    return type(a) is type(b) and a == b or (not isinstance(a, (bool, str)) and not isinstance(b, (bool, str)) and a == b)


def solve(case, law, prob, obs, pos=False, eta=float):
    s = case["spec"]
    with contextlib.redirect_stdout(io.StringIO()):
        if pos:
            p = pyqlaw.QLaw(*[law.pop(k) for k in LORDER], verbosity=0, **law)
        else:
            p = pyqlaw.QLaw(verbosity=0, **law)
    spec = dict(s, max_nodes=case["max_nodes"])
    if pos:
        p.set_problem(*[prob[k] for k in PORDER])
    else:
        p.set_problem(**prob)
    fl = flows.Flight()

    def probe():
        t = getattr(p, "times", None)
        return t is not None and len(t) > case["max_nodes"]
    old = core.Watchdog.probe
    core.Watchdog.probe = probe
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            e = [s.get(nm) for nm in ("eta_a", "eta_r")]
            if eta is None:     # thresholds omitted when zero
                p.solve(**{nm: float(v) for nm, v in zip(("eta_a", "eta_r"), e) if v is not None})
            elif pos:
                p.solve(float(e[0] or 0.0), float(e[1] or 0.0))
            else:
                p.solve(eta_a=eta(e[0] or 0.0), eta_r=eta(e[1] or 0.0))
    finally:
        core.Watchdog.probe = old
    return flows.snap(p, spec, fl, obs)


def run(case, obs):
    s = case["spec"]
    rng = np.random.default_rng(case["r"])

    def plain():
        law = {k: np.array(v, dtype=float) if k in flows.ARR else v for k, v in s["law"].items() if v is not None}
        return law, flows.prob_kwargs(s)
    base = solve(case, *plain(), obs)
    obs.trivial = base.n < 3
    defaults_l = dict(LAWDEF)
    et = s["law"]["elements_type"]
    if et in BND:
        defaults_l["oe_min"], defaults_l["oe_max"] = BND[et]
    for f in case["forms"]:
        law, prob = plain()
        eta, pos = float, False
        if f in ("omit_all", "omit_some", "none"):
            for d, defs, src in ((law, defaults_l, s["law"]), (prob, PROBDEF, s["prob"])):
                for k, v in defs.items():
                    if k in src and same(core.jsonable(src[k]), core.jsonable(v)) and (f == "omit_all" or rng.random() < 0.5):
                        if f == "none" and k in ("tol_oe", "oe_min", "oe_max", "woe"):
                            d[k] = None
                        else:
                            d.pop(k, None)
                        obs.count("default:" + k)
            if f == "none":
                law["perturbations"] = None
            eta = None
        elif f in ("list", "tuple"):
            g = list if f == "list" else tuple
            for d in (law, prob):
                for k in d:
                    if isinstance(d[k], np.ndarray):
                        d[k] = g(float(x) for x in d[k])
                    elif isinstance(d[k], tuple):
                        d[k] = g(d[k])
        elif f in ("strided", "readonly", "reversed_view"):
            for d in (law, prob):
                for k in d:
                    if isinstance(d[k], np.ndarray):
                        a = d[k]
                        if f == "strided":
                            b = np.full((len(a), 3), 7.7)
                            b[:, 1] = a
                            d[k] = b[:, 1]
                        elif f == "reversed_view":
                            d[k] = np.array(a[::-1])[::-1]
                        else:
                            a.flags.writeable = False
                    elif isinstance(d[k], tuple):
                        d[k] = np.array(d[k], dtype=float)
        elif f == "int":
            for d in (law, prob):
                for k in d:
                    v = d[k]
                    if rng.random() < 0.15:
                        continue
                    if isinstance(v, np.ndarray) and np.all(np.isfinite(v)) and np.all(v == np.round(v)) and np.all(np.abs(v) < 1e9):
                        d[k] = v.astype(int)
                        obs.count("int_bounds", k in ("oe_min", "oe_max"))
                        obs.count("int_arrays")
                    elif isinstance(v, float) and v == round(v) and abs(v) < 1e9:
                        d[k] = int(v)
                        obs.count("int_scalars")
        elif f == "scalar":
            for d in (law, prob):
                for k in d:
                    if isinstance(d[k], float):
                        d[k] = np.float64(d[k])
                    elif isinstance(d[k], tuple):
                        d[k] = tuple(np.float64(x) for x in d[k])
            eta = np.float64
        elif f == "positional":
            pos = True
        elif f == "six":
            prob["oeT"] = np.append(prob["oeT"][:5], float(rng.choice([0.0, 1.3, -40.0, np.nan])))
        got = solve(case, law, prob, obs, pos, eta)
        d = flows.same_histories(got, base, 1e-11)
        obs.check(d is None, "equiv", "stated in the form '%s' the solve differs: %s" % (f, d), n=[base.n, got.n], ec=[base.exitcode, got.exitcode])
        obs.count("form:" + f)
    obs.count("et:" + et)
    obs.count("beyond_default_bounds", bool(s.get("beyond")))
    obs.count("undefined_commands", base.exitcode == -3)
    if s.get("eta_a") or s.get("eta_r"):
        obs.count("thresholds")
    if s["prob"]["battery_charge_discharge_rate"][1] > 0:
        obs.count("battery")
