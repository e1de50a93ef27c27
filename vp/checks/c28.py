"""C28: console output reports the problem and the solve as they are"""
import contextlib, io, math, re
import numpy as np
from .. import flows, shadow, ref
from ..flows import rand_spec
import pyqlaw

ID = "C28"
N = dict(quick=500, thorough=25000)
REQUIRED = ["problems_printed", "settings_printed", "summaries", "progress_rows", "silent_solves", "message:success", "message:time", "message:mass", "message:nan",
            "et:keplerian", "et:mee_with_a", "turned_errors", "frequency_above_one", "backward", "default_frequency", "default_verbosity", "far_hk"]
RULE = ("random problems and outcomes solved at every verbosity and print frequency; the captured text is parsed and compared with the problem, the settings and the "
        "recorded histories; non-trivial = at least one progress row or summary compared")
ASSUMPTIONS = ["numbers are compared to the printed precision", "labels are read by the element names of the object"]
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    s = rand_spec(rng, nsteps=30, tight=bool(rng.random() < 0.4), deplete=bool(rng.random() < 0.3))
    et = shadow.et_of(s)
    p = s["prob"]
    r = rng.random()
    if r < 0.35:
        p["oeT"] = flows.rand_target(rng, et, p["oe0"], size=10**rng.uniform(-5, -2.5))
        s["law"]["tol_oe"] = [float(10**rng.uniform(-4, -1.5)) for _ in range(5)]
        if rng.random() < 0.5:
            s["law"]["exit_at_relaxed"] = int(rng.integers(1, 5))
            s["law"]["relaxed_tol_factor"] = float(rng.choice([1, 2, 10, 2.5]))
    elif r < 0.45 and et == "mee_with_a":
        p["oe0"][1] = p["oe0"][2] = 0.0      # undefined commands
        s["law"]["nan_angles_threshold"] = int(rng.integers(0, 5))
        s.pop("pert", None)
    if et == "keplerian" and rng.random() < 0.6:
        for j in (3, 4):
            p["oeT"][j] += 2*math.pi*int(rng.integers(-2, 3))
    if et == "mee_with_a" and rng.random() < 0.12:
        p["oeT"][int(rng.integers(3, 5))] += float(rng.choice([-1, 1]))*float(rng.uniform(3.5, 9))      # h, k are no angles
        s["far_hk"] = True
    if r > 0.93:
        s["law"]["anomaly_grid_size"], s["eta_r"] = 1, s.get("eta_r") or 0.4     # degenerate grid: nothing to compare with
    s["verbosity"] = int(rng.integers(0, 5))
    s["freq"] = int(rng.choice([1, 1, 2, 3, 5, 7, 20, 200]))
    s["omit"] = bool(rng.random() < 0.5)                            # leave the documented defaults (verbosity 1, every 200 steps) out
    if s["freq"] == 200 and s["verbosity"] >= 2 and not s["law"].get("use_sundman"):
        # long enough for a second and a third row
        s["prob"]["tf_max"] = float(np.copysign(abs(s["prob"]["t_step"])*rng.uniform(410, 650), s["prob"]["tf_max"]))
        s["prob"]["tmax"] *= 0.05
    return s


def num(txt, label):
    m = re.search(r"(?m)^\s*" + label + r"\s*:\s*(.*)$", txt)
    return m.group(1).strip() if m else None


def vals(txt):
    return [float(x) for x in re.findall(NUM, txt or "")]


def near(a, b, rel=6e-5, ab=0.0):
    return a == b or abs(a-b) <= rel*abs(b) + ab or (math.isnan(a) and math.isnan(b))


def cap(f, *a):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        f(*a)
    return o.getvalue()


def run(case, obs):
    et = shadow.et_of(case)
    v, freq = case["verbosity"], case["freq"]
    if case.get("omit") and (v == 1 or freq == 200):
        kw = dict(flows.law_kwargs(case), verbosity=v, print_frequency=freq)
        if v == 1:
            kw.pop("verbosity")
        if freq == 200:
            kw.pop("print_frequency")
            obs.count("default_frequency", v >= 2)
        obs.count("default_verbosity", v == 1)
        with contextlib.redirect_stdout(io.StringIO()):
            prob = pyqlaw.QLaw(**kw)
    else:
        prob = flows.build(case, verbosity=v, print_frequency=freq)
    fl = flows.Flight()
    fl.ptrb_log, fl.model = [], None
    if case.get("pert"):
        fl.model = flows.Model(case["pert"], fl.ptrb_log)
        prob.perturbations = fl.model
    prob.set_problem(**flows.prob_kwargs(case))
    obs.count("far_hk", bool(case.get("far_hk")))
    names = list(prob.element_names)
    obs.check(len(names) == 6 and len(set(names)) == 6 and names[0] == "a", "names", "element names", names=names)
    oe0, oeT = np.array(case["prob"]["oe0"]), np.array(case["prob"]["oeT"])
    woe = np.array(flows.par(case, "woe"))
    # the transfer
    txt = cap(prob.pretty)
    for j in range(5):
        ln = num(txt, re.escape(names[j]))
        x = vals(ln.replace("->", " ").replace("(", " ").replace(")", " ")) if ln else []
        obs.check(len(x) == 3 and near(x[0], oe0[j]) and near(x[1], oeT[j]) and near(x[2], woe[j], 1e-12, 0.0051), "problem", "printed transfer is not the problem's",
                  line=ln, want=[oe0[j], oeT[j], woe[j]])
    obs.count("problems_printed")
    # the settings
    txt = cap(prob.pretty_settings)
    tol = np.array(flows.par(case, "tol_oe"), dtype=float)
    rel = flows.par(case, "relaxed_tol_factor")*tol

    def arr(label):
        m = re.search(label + r"\s*:\s*\[([^\]]*)\]", txt)
        return [float(x) for x in re.findall(NUM, m.group(1))] if m else []
    t, r = arr(r"(?m)^Tolerance"), arr(r"(?i)relaxed tolerance")
    obs.check(len(t) == 5 and all(near(a, b, 1e-7, 6e-9 if max(tol) > 1e-4 else 0.0) for a, b in zip(t, tol)), "settings", "printed tolerances", got=t, want=tol)
    obs.check(len(r) == 5 and all(near(a, b, 1e-7, 6e-9 if max(rel) > 1e-4 else 0.0) for a, b in zip(r, rel)), "settings", "printed relaxed tolerances", got=r, want=rel)
    obs.check((num(txt, "Element type") or "") == et and (num(txt, "Integrator") or "") == flows.par(case, "integrator"), "settings", "printed type or integrator", text=txt)
    obs.check(vals(num(txt, "Exit at relaxed")) == [flows.par(case, "exit_at_relaxed")], "settings", "printed relaxed count", text=txt)
    nm = num(txt, "Element names") or ""
    obs.check(re.findall(r"'([^']*)'", nm) == names, "settings", "printed names", text=nm)
    obs.count("settings_printed")
    # the solve
    flows.solve(prob, case, fl)
    fl = flows.snap(prob, case, fl, obs)
    txt = fl.stdout.getvalue()
    obs.count("et:" + et)
    if v == 0:
        obs.check(txt.strip() == "", "silent", "verbosity zero prints", text=txt[:300])
        obs.count("silent_solves")
    else:
        says = dict(success=bool(re.search(r"(?i)success", txt)), time=bool(re.search(r"(?i)within time", txt)), mass=bool(re.search(r"(?i)mass", txt)),
                    nan=bool(re.search(r"(?i)nan\b", re.sub(r"(?m)^.*\|.*$", "", txt))))
        want = dict(success=fl.exitcode in (1, 2), time=fl.exitcode == -2, mass=fl.exitcode == -1, nan=fl.exitcode == -3)
        obs.check(says == want, "message", "closing message does not match the status", says=says, exitcode=fl.exitcode, text=txt[-300:])
        for k in want:
            if want[k]:
                obs.count("message:" + k)
    rows = []
    for ln in txt.splitlines():
        f = [x.strip() for x in ln.split("|")]
        if len(f) >= 8 and re.fullmatch(r"\d+", f[0]):
            rows.append([float(x) for x in f[:8]])
    if v < 2:
        obs.check(not rows, "progress", "progress rows below verbosity two", rows=rows[:2])
    else:
        last = fl.n - (1 if fl.exitcode in (1, 2) else 0)
        wi = [k for k in range(last) if k % freq == 0]
        obs.check([int(r[0]) for r in rows] == wi, "progress", "progress rows are not every print-frequency-th step", got=[r[0] for r in rows][:20], want=wi[:20], freq=freq)
        kep = et == "keplerian"
        lo, hi = (np.asarray(prob.oe_min)[:5], np.asarray(prob.oe_max)[:5]) if kep else (None, None)
        for r in rows:
            k = int(r[0])
            if k >= fl.n:
                break
            x = fl.x[k+1]
            ok = near(r[1], fl.t[k+1], 6e-4)
            for j in range(5):
                if kep and (x[j] == lo[j] or x[j] == hi[j]):
                    continue
                d = x[j]-oeT[j]
                g = r[2+j]
                rnd = 4e-16*(abs(x[j])+abs(oeT[j]))
                if kep and j > 2:
                    ok &= abs(ref.wrap_pi(g-d)) <= 6e-5*max(abs(g), abs(d)) + rnd
                else:
                    ok &= near(g, d, 6e-5, rnd)
            ok &= near(r[7], x[5]) or abs(ref.wrap_pi(r[7]-x[5])) < 6e-5*abs(r[7])
            if not obs.check(ok, "progress", "progress row is not the record", row=r, t=fl.t[k+1], x=x, oeT=oeT):
                break
            obs.count("progress_rows")
        if freq > 1 and rows:
            obs.count("frequency_above_one")
        if case["prob"]["t_step"] < 0 and rows:
            obs.count("backward")
    # the result
    txt = cap(prob.pretty_results)
    obs.check(vals(num(txt, r"Exit code")) == [fl.exitcode], "summary", "exit code", text=txt[:200])
    obs.check((num(txt, r"Converged?") or "") == str(bool(fl.converge)), "summary", "converged flag", text=txt[:200])
    for j in range(5):
        ln = num(txt, re.escape(names[j]))
        x = vals(re.sub(r"[():a-df-z]", " ", ln)) if ln else []
        d = fl.x[-1, j]-oeT[j]
        if et == "keplerian" and j > 2:
            if abs(d) > math.pi:
                obs.count("turned_errors")
            d = float(ref.wrap_pi(d))
        obs.check(len(x) == 2 and near(x[0], fl.x[-1, j]) and near(x[1], abs(d), 6e-5, 1e-15*(1+abs(oeT[j])+abs(fl.x[-1, j]))), "summary",
                  "final element or error", line=ln, want=[fl.x[-1, j], abs(d)])
    for lab, want in (("Transfer time", fl.t[-1]), ("Final mass", fl.m[-1])):
        x = vals(num(txt, lab))
        obs.check(len(x) == 1 and near(x[0], want, 1e-4), "summary", lab, got=x, want=want)
    obs.count("summaries")
