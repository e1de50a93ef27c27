"""C31: solver objects are independent of each other (threads, interleavings, copies)"""
import copy, os, sys, threading
import numpy as np
from .. import core, flows, shadow
from ..flows import rand_spec
import pyqlaw
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt

ID = "C31"
N = dict(quick=160, thorough=7000)
REQUIRED = ["mode:calls", "mode:lines", "mode:free", "mode:copies", "switches", "line_switches", "free_switches", "threads:2", "threads:3", "threads:4", "act:build", "act:solve", "act:plot",
            "act:deepcopy", "copy:shallow", "copy:deep", "copied:new", "copied:set", "copied:solved", "copied:running", "plots_compared", "same_settings", "mixed_elements", "et:keplerian", "et:mee_with_a"]
RULE = ("two to four random flights per case; run alone, then in threads under a seeded scheduler that lets one thread run at a time and switches at client calls or at source lines of "
        "the package (and acts on other objects in between), or freely with a switch interval of a microsecond; every result is compared bitwise with the solo run; objects are copied "
        "before, during and after solves and the copies solved and drawn; non-trivial = at least one switch between running solves, or a copy solved")
ASSUMPTIONS = ["drawing in several threads at once is matplotlib's matter and is not exercised", "solves in threads print nothing"]
CASE_LIMIT = 120
PKG = os.path.dirname(os.path.abspath(pyqlaw.__file__))
PLOTS = ("plot_elements_history", "plot_battery_history", "plot_controls", "plot_trajectory_2d", "plot_trajectory_3d", "plot_efficiency", "plot_Q")


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    mode = str(rng.choice(["calls", "lines", "lines", "free", "copies"]))
    n = 2 if mode == "copies" else int(rng.integers(2, 5))
    specs = [rand_spec(rng, nsteps=8, units=False, tight=bool(rng.random() < 0.7)) for _ in range(n)]
    like = rng.random()
    if like < 0.5 or mode == "copies":
        # the same settings, other problem (or the other way round): what is shared between objects shows
        for k in range(1, n):
            s = copy.deepcopy(specs[0])
            o = rand_spec(rng, et=s["law"]["elements_type"], mu=s["law"]["mu"], sundman=bool(s["law"]["use_sundman"]), nsteps=8, units=False, pert=False)
            if like < 0.25 or mode == "copies":
                s["prob"] = o["prob"]
            else:
                s["law"] = dict(o["law"], integrator=s["law"]["integrator"])
            specs[k] = s
    return dict(mode=mode, specs=specs, r=int(rng.integers(1 << 30)), p=float(rng.choice([0.02, 0.1, 0.4])), acts=bool(rng.random() < 0.5))


class Abort(BaseException):
    pass


class Worker(threading.Thread):
    def __init__(self, idx, spec, sched):
        super().__init__(daemon=True)
        self.idx, self.spec, self.sched, self.err, self.over = idx, spec, sched, None, False
        self.go = threading.Semaphore(0)
        self.prob = flows.build(spec)
        self.prob.set_problem(**flows.prob_kwargs(spec))
        self.model = flows.Model(spec["pert"], []) if spec.get("pert") else None
        self.prob.perturbations = self if self.model else None

    def eta(self, name):
        e = self.spec.get(name) or 0.0

        def f(t, oe, mass, battery):
            self.sched.point(self)
            v = flows.eta_value(e, float(t), oe, float(mass), float(battery)) if isinstance(e, dict) else float(e)
            self.sched.point(self)
            return v
        return f

    def get_perturbations_RTN(self, t, oe, et):
        self.sched.point(self)
        v = self.model.get_perturbations_RTN(t, oe, et)
        self.sched.point(self)
        return v

    def tracer(self, fr, ev, arg):
        return self.line if fr.f_code.co_filename.startswith(PKG) else None

    def line(self, fr, ev, arg):
        if ev == "line":
            self.sched.line(self)
        return self.line

    def run(self):
        try:
            self.sched.enter(self)
            if self.sched.lines:
                sys.settrace(self.tracer)
            self.prob.solve(eta_a=self.eta("eta_a"), eta_r=self.eta("eta_r"))
        except Abort:
            pass
        except BaseException as e:
            self.err = e
        finally:
            sys.settrace(None)
            self.over = True
            self.sched.leave(self)


class Controlled:
    """one thread runs at a time; at every point the seeded scheduler decides who goes on"""

    def __init__(self, rng, p, lines, action=None):
        self.rng, self.p, self.lines, self.action = rng, p, lines, action
        self.back = threading.Semaphore(0)
        self.abort = False
        self.trace, self.nline = [], 0

    def enter(self, w):
        w.go.acquire()
        if self.abort:
            raise Abort()

    def point(self, w):
        self.back.release()
        w.go.acquire()
        if self.abort:
            raise Abort()

    def line(self, w):
        if self.rng.random() < self.p:
            self.nline += 1
            self.point(w)

    def leave(self, w):
        self.back.release()

    def run(self, ws):
        for w in ws:
            w.start()
        live = list(ws)
        try:
            cur = None
            while live:
                if cur not in live or self.rng.random() < 0.7:
                    cur = live[int(self.rng.integers(len(live)))]
                self.trace.append(cur.idx)
                cur.go.release()
                self.back.acquire()
                live = [w for w in live if not w.over]
                if self.action and live and self.rng.random() < 0.04:
                    self.action(live)
        except BaseException:
            self.abort = True
            for w in ws:
                w.go.release()
            raise
        for w in ws:
            w.join()


class Free:
    """threads run as the interpreter likes, preempted as often as it can"""
    lines = False

    def __init__(self, rng, n):
        self.bar, self.log, self.abort = threading.Barrier(n), [], False

    def enter(self, w):
        self.bar.wait(60)

    def point(self, w):
        self.log.append(w.idx)
        if self.abort:
            raise Abort()

    def leave(self, w):
        pass

    def run(self, ws):
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for w in ws:
                w.start()
            while any(w.is_alive() for w in ws):
                for w in ws:
                    w.join(0.5)
        except BaseException:
            self.abort = True
            raise
        finally:
            sys.setswitchinterval(old)


def drawn(*probs):
    """what every plot of the objects shows, read when all of them have been drawn"""
    figs = []
    try:
        for i, prob in enumerate(probs):
            for name in PLOTS:
                kw = dict(interpolate=False) if "trajectory" in name else {}
                figs.append((i, name, getattr(prob, name)(**kw)[0]))
        outs = [[] for _ in probs]
        for i, name, fig in figs:
            for ax in fig.axes:
                for ln in ax.lines:
                    d = ln.get_data_3d() if hasattr(ln, "get_data_3d") else ln.get_data()
                    outs[i].append((name, np.array([np.asarray(v, dtype=float) for v in d])))
    finally:
        for _, _, fig in figs:
            plt.close(fig)
    return outs[0] if len(probs) == 1 else outs


def same_drawn(a, b):
    for (n, x), (m, y) in zip(a, b):
        if n != m or x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
            return n
    return None if len(a) == len(b) else "number of curves"


def fly(prob, spec):
    fl = flows.Flight()
    flows.solve(prob, spec, fl)
    return flows.snap(prob, spec, fl)


def arm(prob, spec):
    prob.perturbations = flows.Model(spec["pert"], []) if spec.get("pert") else None


def compare(obs, got, want, what, **info):
    d = flows.same_histories(got, want)
    return obs.check(d is None, "alone", "%s: differs from the same solve alone: %s" % (what, d), n=[got.n, want.n], ec=[got.exitcode, want.exitcode], **info)


def run(case, obs):
    rng = np.random.default_rng(case["r"])
    specs = case["specs"]
    alone = [flows.fly(s) for s in specs]
    mode = case["mode"]
    obs.count("mode:" + mode)
    ets = {shadow.et_of(s) for s in specs}
    for e in ets:
        obs.count("et:" + e)
    obs.count("mixed_elements", len(ets) > 1)
    obs.count("same_settings", specs[0]["law"] == specs[1]["law"])
    if mode == "copies":
        return copies(case, obs, rng, alone)
    nact = [0]

    def action(live):
        """something done to other objects while solves are in the middle"""
        nact[0] += 1
        k = int(rng.integers(len(specs)))
        what = str(rng.choice(["build", "solve", "plot", "deepcopy"]))
        if nact[0] > 4:
            return
        if what == "build":
            flows.build(specs[k])
        elif what == "solve":
            compare(obs, flows.fly(specs[k]), alone[k], "solved while others are in the middle of a solve")
        elif what == "plot":
            compare_plots(obs, alone[k].prob, drawn(alone[k].prob), ref_drawn(k), "drawn while others solve")
        else:
            w = live[int(rng.integers(len(live)))]
            old, w.prob.perturbations = w.prob.perturbations, None      # (threads are not copyable)
            c = copy.deepcopy(w.prob)
            w.prob.perturbations = old
            arm(c, w.spec)
            compare(obs, fly(c, w.spec), alone[w.idx], "copy of an object in the middle of a solve")
            obs.count("copied:running")
        obs.count("act:" + what)
    refd = {}

    def ref_drawn(k):
        if k not in refd:
            refd[k] = drawn(flows.fly(specs[k]).prob)
        return refd[k]
    if mode == "free":
        sched = Free(rng, len(specs))
    else:
        sched = Controlled(rng, case["p"], mode == "lines", action if case["acts"] else None)
    ws = [Worker(i, s, sched) for i, s in enumerate(specs)]
    lim = [flows.max_nodes(s) for s in specs]

    def probe():
        return any(len(getattr(w.prob, "times", ())) > n for w, n in zip(ws, lim))
    core.Watchdog.probe = probe
    try:
        sched.run(ws)
    finally:
        core.Watchdog.probe = None
    for w in ws:
        if w.err is not None:
            obs.fail("alone", "solve in a thread raises %r" % w.err, thread=w.idx)
            continue
        compare(obs, flows.snap(w.prob, w.spec), alone[w.idx], "solved in a thread next to others", mode=mode, thread=w.idx)
    tr = sched.log if mode == "free" else sched.trace
    n = sum(1 for a, b in zip(tr, tr[1:]) if a != b)
    obs.count("free_switches" if mode == "free" else "switches", n)
    if mode == "lines":
        obs.count("line_switches", sched.nline)
    obs.count("threads:%d" % len(ws))
    obs.trivial = n == 0


def compare_plots(obs, prob, got, want, what):
    d = same_drawn(got, want)
    obs.check(d is None, "plots", "%s: %s does not show the object's own flight" % (what, d))
    obs.count("plots_compared")


def copies(case, obs, rng, alone):
    """copies before the problem, before the solve and after it"""
    a, b = case["specs"]
    stage = str(rng.choice(["new", "set", "solved"]))
    deep = bool(rng.random() < 0.5)
    p = flows.build(a)
    if stage != "new":
        p.set_problem(**flows.prob_kwargs(a))
    if stage == "solved":
        arm(p, a)
        fly(p, a)
        p.perturbations = None
    c = copy.deepcopy(p) if deep else copy.copy(p)
    obs.count("copy:deep" if deep else "copy:shallow")
    obs.count("copied:" + stage)
    if stage == "solved":
        compare(obs, flows.snap(c, a), alone[0], "copy of a solved object")
    order = [(c, b, 1), (p, a, 0)]
    if rng.random() < 0.5:
        order.reverse()
    if rng.random() < 0.3 and stage != "new":
        order = [(c, None, 0)] + order          # the copy knows the problem
    for q, s, k in order:
        if s is not None:
            q.set_problem(**flows.prob_kwargs(s))
        s = case["specs"][k]
        arm(q, s)
        compare(obs, fly(q, s), alone[k], "copy" if q is c else "original", stage=stage, deep=deep)
    # both still hold their own results and draw them
    compare(obs, flows.snap(c, b), alone[1], "copy, later", stage=stage, deep=deep)
    compare(obs, flows.snap(p, a), alone[0], "original, later", stage=stage, deep=deep)
    both = drawn(c, p)
    compare_plots(obs, c, both[0], drawn(alone[1].prob), "copy, drawn with the original")
    compare_plots(obs, p, both[1], drawn(alone[0].prob), "original, drawn with the copy")
    obs.trivial = False
