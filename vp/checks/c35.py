"""C35: the same results in any process and process state, and no effects beyond the library's own objects and outputs"""
import contextlib, io, json, os, shutil, subprocess, sys, tempfile
import numpy as np
from .. import ambient, core, flows, freshproc, shadow
from ..flows import rand_spec
import pyqlaw
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt

ID = "C35"
N = dict(quick=160, thorough=9000)
OPS = ("build", "set", "solve", "pretty", "pretty_settings", "pretty_results", "cartesian", "interpolated", "export", "export_dict", "plot", "rejected", "interrupted")
REQUIRED = ["processes", "process_flights", "hashseed", "optimised", "locale", "order", "no_home", "ambient_child", "settings_watched", "disturbed", "et:keplerian", "et:mee_with_a",
            "rk4", "rkf45", "relaxed_end"] + ["op:" + o for o in OPS]
RULE = ("fresh interpreters under different hash seeds, locales, time zones, working and home directories, optimisation levels, import orders and process-wide settings fly the same problems "
        "as this process; in this process, every operation is bracketed by snapshots of the process-wide settings, and solves are repeated with those settings disturbed; "
        "results compared bitwise; non-trivial = at least one flight or operation compared")
ASSUMPTIONS = ["floating-point traps that raise, and errors raised from warnings, are not used", "threads and files of the libraries underneath, started on first use, are warmed up before"]
PLOTS = ("plot_elements_history", "plot_battery_history", "plot_controls", "plot_trajectory_2d", "plot_trajectory_3d", "plot_efficiency", "plot_Q")
CASE_LIMIT = 400


def warm(tier):
    flows.warm_all()
    s = dict(law=dict(verbosity=0), prob=dict(oe0=[1.0, 0.1, 0.1, 0.1, 0.05, 0.6], oeT=[1.1, 0.2, 0.1, 0.1, 0.1], mass0=1.0, tmax=1e-3, mdot=1e-4, tf_max=1.0, t_step=0.1))
    fl = flows.fly(s)
    with contextlib.redirect_stdout(io.StringIO()):
        for name in PLOTS:
            f = getattr(fl.prob, name)()[0]
            f.canvas.draw()
            plt.close(f)
        fl.prob.pretty(), fl.prob.pretty_settings(), fl.prob.pretty_results()
        fl.prob.get_cartesian_history(interpolate=True)


def special(rng, s):
    """now and then undefined commands (circular orbits), a one-point grid, or ends by relaxed tolerances"""
    r, p, law = rng.random(), s["prob"], s["law"]
    if r < 0.2 and shadow.et_of(s) == "mee_with_a":
        p["oe0"][1] = p["oe0"][2] = 0.0
        law["nan_angles_threshold"] = int(rng.integers(0, 6))
        s["pert"] = None
    elif r < 0.35:
        law["anomaly_grid_size"] = 1
        s["eta_r"] = s.get("eta_r") or 0.3
    elif r < 0.6:
        law.update(tol_oe=[1e-9*(p["oe0"][0] if k == 0 else 1) for k in range(5)], relaxed_tol_factor=1e12, exit_at_relaxed=int(rng.integers(2, 15)))
    return s


def structured(tier):
    rng = np.random.default_rng(35)
    out = []
    for i in range(16 if tier == "quick" else 90):
        specs = [special(rng, rand_spec(rng, et=et, integrator=str(rng.choice(["rk4", "rkf45"])), nsteps=25)) for et in rng.permutation(["keplerian", "mee_with_a"])]
        out.append(dict(mode="process", specs=specs, hashseed=int(rng.integers(1, 1 << 31)) if i else 0, opt=[0, 1, 0, 2][i % 4], loc=["C", "C.utf8", "POSIX"][i % 3],
                        tz=["UTC", "Asia/Tokyo", "America/New_York"][i % 3], home=i % 2 == 0, threads=int(rng.choice([1, 2, 4])),
                        first=[str(x) for x in rng.permutation(["matplotlib.pyplot", "scipy.linalg", "sympy", "numba", "mpmath", "json"])[:int(rng.integers(0, 5))]],
                        ambient=int(rng.integers(1 << 30)) if i % 3 == 1 else None))
    return out


def gen(rng, tier):
    s = special(rng, rand_spec(rng, nsteps=12))
    return dict(mode="inside", spec=s, r=int(rng.integers(1 << 30)), verbosity=int(rng.choice([0, 0, 1, 3])), plots=[str(x) for x in rng.permutation(PLOTS)[:2]])


def run(case, obs):
    (process if case["mode"] == "process" else inside)(case, obs)


def process(case, obs):
    want = []
    for s in case["specs"]:
        fl = flows.fly(s)
        want += [freshproc.digest(fl)]*2          # (the other process solves twice)
        obs.count("et:" + shadow.et_of(s))
        obs.count(flows.par(s, "integrator"))
    top = tempfile.mkdtemp(prefix="vp35_")
    try:
        cwd, scr = os.path.join(top, "cwd"), os.path.join(top, "scratch")
        os.mkdir(cwd), os.mkdir(scr)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF", "PYTHON", "LC_", "LANG"))}
        env.update(PYTHONHASHSEED=str(case["hashseed"]), LC_ALL=case["loc"], TZ=case["tz"], PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", VERIF_REPO=core.REPO,
                   MPLCONFIGDIR=scr, OMP_NUM_THREADS=str(case["threads"]), NUMBA_NUM_THREADS=str(case["threads"]))
        env["HOME"] = os.path.join(top, "nowhere") if case["home"] else scr
        if case["opt"]:
            env["PYTHONOPTIMIZE"] = str(case["opt"])
        job = dict(here=core.HERE, repo=core.REPO, scratch=scr, first=case["first"], ambient=case["ambient"], specs=case["specs"])
        try:
            r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(core.HERE, "vp", "freshproc.py")], input=json.dumps(job), cwd=cwd, env=env, capture_output=True, text=True,
                               timeout=350)
        except subprocess.TimeoutExpired:
            raise core.Inconclusive("fresh process takes too long")
        if r.returncode < 0:
            raise core.Inconclusive("fresh process ended by signal %d" % -r.returncode)
        if not obs.check(r.returncode == 0 and r.stdout.startswith("{"), "process", "the package fails in a fresh process", rc=r.returncode, err=r.stderr[-600:]):
            return
        d = json.loads(r.stdout)
        obs.check(not d["effects"], "import", "importing the package changes process-wide state: %s" % d["effects"])
        obs.check(d["wrote"] == "", "console", "importing and solving silently writes to standard output", text=d["wrote"][:300])
        obs.check(r.stderr.strip() == "", "console", "importing and solving silently writes to standard error", text=r.stderr[-300:])
        obs.check(d["left"] == [], "files", "importing and solving leaves files in the working directory", files=d["left"][:10])
        for w, g in zip(want, d["flights"]):
            diff = [k for k in w if w[k] != g[k]]
            obs.count("relaxed_end", w["outcome"][0] == 2)
            obs.count("undefined_end", w["outcome"][0] == -3)
            obs.check(not diff, "process", "the same problem gives other results in another process: %s" % diff, hashseed=case["hashseed"], opt=case["opt"], first=case["first"],
                      ambient=case["ambient"])
            obs.count("process_flights")
        obs.count("processes")
        obs.count("hashseed", case["hashseed"] != 0)
        obs.count("optimised", case["opt"] > 0)
        obs.count("locale")
        obs.count("order", bool(case["first"]))
        obs.count("no_home", bool(case["home"]))
        obs.count("ambient_child", case["ambient"] is not None)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def inside(case, obs):
    s = case["spec"]
    rng = np.random.default_rng(case["r"])
    obs.count("et:" + shadow.et_of(s))
    obs.count(flows.par(s, "integrator"))
    alone = flows.fly(s)
    top = os.path.realpath(tempfile.mkdtemp(prefix="vp35_"))
    here = os.getcwd()
    back = None
    plt.close("all")
    try:
        os.mkdir(os.path.join(top, "work"))
        os.chdir(os.path.join(top, "work"))
        if rng.random() < 0.6:
            back = ambient.disturb(rng)
            obs.count("disturbed")

        def op(name, f, but=(), new_files=(), figures=0):
            """run one operation between two snapshots"""
            a = ambient.snapshot([top])
            o, e = io.StringIO(), io.StringIO()
            with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
                ids = (id(sys.stdout), id(sys.stderr))
                try:
                    r = f()
                finally:
                    same = ids == (id(sys.stdout), id(sys.stderr))
            b = ambient.snapshot([top])
            extra = set(b["files"][0]) - set(a["files"][0])
            gone = set(a["files"][0]) - set(b["files"][0])
            d = ambient.changed(a, b, ("files", "figures"))
            obs.check(not d and same, "settings", "%s changes process-wide state: %s" % (name, d))
            obs.check(extra == set(new_files) and not gone, "files", "%s writes or removes other files" % name, new=sorted(extra)[:5], gone=sorted(gone)[:5], want=list(new_files))
            obs.check(len(b["figures"]) == len(a["figures"]) + figures and set(a["figures"]) <= set(b["figures"]), "figures", "%s opens or closes other figures" % name,
                      before=a["figures"], after=b["figures"])
            obs.check(e.getvalue() == "", "console", "%s writes to standard error" % name, text=e.getvalue()[:200])
            obs.count("op:" + name)
            obs.count("settings_watched", len(a))
            return r, o.getvalue()
        prob, txt = op("build", lambda: pyqlaw.QLaw(**dict(flows.law_kwargs(s), verbosity=case["verbosity"])))
        prob.perturbations = flows.Model(s["pert"], []) if s.get("pert") else None
        op("set", lambda: prob.set_problem(**flows.prob_kwargs(s)))
        if rng.random() < 0.4:
            def bad():
                try:
                    prob.solve(eta_a="none")
                except Exception:
                    return True
            op("rejected", bad)
        if rng.random() < 0.4:
            n = [0]

            def stop(t, oe, m, b):
                n[0] += 1
                if n[0] > 3:
                    raise flows.ClientError("stop")
                return 0.0

            def interrupted():
                try:
                    prob.solve(eta_r=stop)
                except flows.ClientError:
                    return True
            op("interrupted", interrupted)
            prob.perturbations = flows.Model(s["pert"], []) if s.get("pert") else None
        ea, er = flows.make_eta(s.get("eta_a", 0.0), []), flows.make_eta(s.get("eta_r", 0.0), [])
        _, txt = op("solve", lambda: prob.solve(eta_a=ea, eta_r=er))
        obs.check(case["verbosity"] > 0 or txt == "", "console", "a silent solve prints", text=txt[:200])
        fl = flows.snap(prob, s)
        d = flows.same_histories(fl, alone)
        obs.check(d is None, "settings_matter", "process-wide settings change the solve: %s" % d, n=[fl.n, alone.n])
        op("pretty", prob.pretty)
        op("pretty_settings", prob.pretty_settings)
        op("pretty_results", prob.pretty_results)
        (cart, _) = op("cartesian", prob.get_cartesian_history)
        (want, _) = (alone.prob.get_cartesian_history(), 0)
        obs.check(np.array_equal(np.asarray(cart), np.asarray(want), equal_nan=True), "settings_matter", "process-wide settings change the Cartesian history")
        if fl.n >= 3 and np.isfinite(fl.x).all():
            op("interpolated", lambda: prob.get_cartesian_history(interpolate=True, steps=50))
        e1, _ = op("export_dict", lambda: prob.save_to_dict(None))
        op("export", lambda: prob.save_to_dict("out.json"), new_files=("work/out.json",))
        j = json.load(open("out.json"))
        for k in ("times", "states", "controls"):
            obs.check(np.array_equal(np.array(j[k], dtype=float), np.array(e1[k], dtype=float), equal_nan=True), "settings_matter", "the exported file does not carry the numbers: " + k)
        op("export", lambda: prob.save_to_dict("out.json"))        # replaces its own file
        for name in case["plots"]:
            r, _ = op("plot", lambda: getattr(prob, name)(**({"interpolate": False} if "trajectory" in name else {})), figures=1)
            plt.close(r[0])
        d = flows.same_histories(flows.snap(prob, s), alone)
        obs.check(d is None, "settings_matter", "operations after the solve change its record: %s" % d)
    finally:
        plt.close("all")
        if back:
            back()
        os.chdir(here)
        shutil.rmtree(top, ignore_errors=True)
