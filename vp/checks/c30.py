"""C30: an interrupted solve leaves a truthful beginning of the flight"""
import contextlib, io, os, sys
import numpy as np
from .. import core, flows, shadow
from ..flows import rand_spec
import pyqlaw

ID = "C30"
N = dict(quick=220, thorough=9000)
REQUIRED = ["fault:eta_a", "fault:eta_r", "fault:pert", "fault:print", "fault:anywhere", "at_first_call", "at_last_call", "resolved", "used_object", "kind:KeyboardInterrupt",
            "kind:StopIteration", "kind:ValueError", "kind:FloatingPointError", "kind:BrokenPipeError", "kind:Foreign", "et:keplerian", "et:mee_with_a", "exports", "new_problem_after", "steps_kept"]
RULE = ("random flights are recorded once without interruption while every call out to the client (threshold callbacks, perturbation model, console) is counted; then the same "
        "flight is repeated on new or used objects with an exception raised at the first, last and random calls, and with an interrupt raised before a random source line of the "
        "package; what is left is compared bitwise with the beginning of the uninterrupted flight; non-trivial = at least one interruption after a recorded step")
ASSUMPTIONS = ["an interrupt that strikes between two stores may leave the histories one entry apart"]
PKG = os.path.dirname(os.path.abspath(pyqlaw.__file__))


class Foreign(BaseException):
    pass


KINDS = dict(Foreign=Foreign, KeyboardInterrupt=KeyboardInterrupt, StopIteration=StopIteration, ValueError=ValueError, FloatingPointError=FloatingPointError,
             BrokenPipeError=BrokenPipeError, ZeroDivisionError=ZeroDivisionError, AssertionError=AssertionError, AttributeError=AttributeError, TypeError=TypeError)
NODES = ("times", "states", "masses", "battery")
STEPS = ("controls", "etas", "etas_bounds", "Qs", "dQdts")


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    s = rand_spec(rng, nsteps=int(rng.choice([4, 9, 16])), tight=bool(rng.random() < 0.5))
    et = shadow.et_of(s)
    if rng.random() < 0.25:
        s["prob"]["oeT"] = flows.rand_target(rng, et, s["prob"]["oe0"], size=10**rng.uniform(-5, -3))
        s["law"]["exit_at_relaxed"] = int(rng.integers(1, 5))
    if et == "mee_with_a" and rng.random() < 0.06:
        s["prob"]["oe0"][1] = s["prob"]["oe0"][2] = 0.0
        s["law"]["nan_angles_threshold"] = int(rng.integers(0, 5))
        s.pop("pert", None)
    return dict(spec=s, other=rand_spec(rng, et=et, mu=s["law"]["mu"], sundman=bool(s["law"]["use_sundman"]), nsteps=5, units=False, pert=False)["prob"], verbosity=int(rng.choice([0, 1, 2, 3])),
                freq=int(rng.choice([1, 2, 5])), r=int(rng.integers(1 << 30)), npoints=5 if tier == "quick" else 12, nlines=4 if tier == "quick" else 12)


class Tap:
    """counts every call from the solve to its client; raises at call number `at`"""

    def __init__(self, prob, spec, at=None, exc=None):
        self.prob, self.spec, self.at, self.exc, self.log = prob, spec, at, exc, []
        self.model = flows.Model(spec["pert"], []) if spec.get("pert") else None

    def call(self, kind):
        self.log.append((kind, len(self.prob.times)))
        if self.at is not None and len(self.log) - 1 == self.at:
            raise self.exc

    def eta(self, name):
        e = self.spec.get(name) or 0.0

        def f(t, oe, mass, battery):
            self.call(name)
            return flows.eta_value(e, float(t), oe, float(mass), float(battery)) if isinstance(e, dict) else float(e)
        return f

    def get_perturbations_RTN(self, t, oe, et):
        self.call("pert")
        return self.model.get_perturbations_RTN(t, oe, et)

    def write(self, txt):
        self.call("print")
        return len(txt)

    def flush(self):
        pass


def snapshot(p):
    d = {}
    for k in NODES + STEPS:
        if hasattr(p, k):
            v = getattr(p, k)
            d[k] = [np.array(x, dtype=float).copy() for x in v]
    return d, getattr(p, "exitcode", None), getattr(p, "converge", None)


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def make(case, prob=None):
    s = case["spec"]
    p = prob or flows.build(s, verbosity=case["verbosity"], print_frequency=case["freq"])
    p.perturbations = None
    p.set_problem(**flows.prob_kwargs(s))
    return p


def fly(p, case, at=None, exc=None):
    """returns tap, raised exception"""
    s = case["spec"]
    tap = Tap(p, s, at, exc)
    p.perturbations = tap if s.get("pert") else None
    lim = flows.max_nodes(s)
    core.Watchdog.probe = lambda: len(getattr(p, "times", ())) > lim
    err = None
    try:
        with contextlib.redirect_stdout(tap):
            p.solve(eta_a=tap.eta("eta_a"), eta_r=tap.eta("eta_r"))
    except core.Stop:
        raise
    except BaseException as e:
        err = e
    finally:
        core.Watchdog.probe = None
    return tap, err


def beginning(obs, got, U, n, what, **info):
    """histories of n nodes that are the beginning of the uninterrupted ones"""
    for k in NODES + STEPS:
        m = n if k in NODES else n - 1
        if k not in got:
            obs.fail("prefix", "%s: history '%s' is missing" % (what, k), **info)
        elif len(got[k]) != m:
            obs.fail("prefix", "%s: history '%s' has %d entries, %d nodes were flown" % (what, k, len(got[k]), n), **info)
        else:
            obs.check(same(got[k], U[k][:m]), "prefix", "%s: history '%s' is not the beginning of the uninterrupted flight" % (what, k), **info)


def resolve(obs, p, case, U, ec, cv, what, **info):
    tap, err = fly(p, case)
    if err is not None:
        obs.fail("again", "%s: the next solve raises %r" % (what, err), **info)
        return
    d, e2, c2 = snapshot(p)
    bad = [k for k in NODES + STEPS if not same(d[k], U[k])]
    obs.check(not bad and e2 == ec and bool(c2) == bool(cv), "again", "%s: the next solve of the same problem differs" % what, histories=bad, exitcode=[ec, e2], **info)
    obs.count("resolved")


class Line:
    """raises before the j-th line executed in the package (None: only counts)"""

    def __init__(self, j=None):
        self.j, self.n, self.site = j, 0, None
        self.exc = KeyboardInterrupt("injected")

    def glob(self, fr, ev, arg):
        return self.loc if fr.f_code.co_filename.startswith(PKG) else None

    def loc(self, fr, ev, arg):
        if ev == "line":
            self.n += 1
            if self.j is not None and self.n == self.j:
                self.site = fr.f_code.co_name
                raise self.exc
        return self.loc


def run(case, obs):
    s = case["spec"]
    rng = np.random.default_rng(case["r"])
    et = shadow.et_of(s)
    p = make(case)
    tap, err = fly(p, case)
    if err is not None:
        obs.fail("base", "uninterrupted solve raises %r" % err)
        return
    U, ec, cv = snapshot(p)
    n = len(U["times"])
    obs.count("et:" + et)
    cart = np.array(p.get_cartesian_history())
    calls = tap.log
    obs.trivial = True
    used = p
    picks = sorted({0, len(calls)-1} | {int(x) for x in rng.integers(0, max(1, len(calls)), case["npoints"])}) if calls else []
    for kind in ("eta_a", "eta_r", "pert", "print"):        # every kind of call that occurred is hit
        w = [i for i, c in enumerate(calls) if c[0] == kind]
        if w and not any(calls[i][0] == kind for i in picks):
            picks.append(int(rng.choice(w)))
    for i in picks:
        kind, nodes = calls[i]
        name = str(rng.choice(list(KINDS)))
        exc = KINDS[name]("injected")
        fresh = rng.random() < 0.6
        q = make(case, None if fresh else used)
        used = q
        tap, err = fly(q, case, i, exc)
        info = dict(call=kind, index=i, of=len(calls), nodes=nodes, exception=name)
        obs.check(err is exc, "raised", "the exception of the client does not reach the caller", got=repr(err), **info)
        if err is None:
            continue
        d, e1, c1 = snapshot(q)
        beginning(obs, d, U, nodes, "interrupted by a client call", **info)
        ok = (e1 in (0, ec) and bool(c1) in (False, bool(cv))) if kind == "print" else (e1 == 0 and not c1)
        obs.check(ok, "claim", "an interrupted solve claims an outcome", exitcode=e1, converge=c1, full=ec, **info)
        obs.count("fault:" + kind)
        obs.count("kind:" + name)
        obs.count("at_first_call", i == 0)
        obs.count("at_last_call", i == len(calls)-1)
        obs.count("steps_kept", nodes-1)
        obs.count("used_object", not fresh)
        if nodes > 1:
            obs.trivial = False
        # what is left can be used
        if rng.random() < 0.5:
            c = np.array(q.get_cartesian_history())
            obs.check(c.shape == (6, nodes) and np.array_equal(c, cart[:, :nodes]), "usable", "Cartesian history of an interrupted solve", shape=c.shape, **info)
            ex = q.save_to_dict(None)
            obs.check(len(ex["times"]) == len(ex["states"]) == len(ex["controls"]) == nodes and ex["tf"] == U["times"][nodes-1], "usable", "export of an interrupted solve", **info)
            obs.count("exports")
        if rng.random() < 0.35:
            sp = dict(law=s["law"], prob=case["other"])
            fl = flows.fly(sp, prob=q)
            ref = flows.fly(sp)
            w = flows.same_histories(fl, ref)
            obs.check(w is None, "again", "another problem solved after an interruption differs: %s" % w, **info)
            obs.count("new_problem_after")
            make(case, q)
        if rng.random() < 0.6:
            resolve(obs, q, case, U, ec, cv, "after an interruption", **info)
    # interrupts anywhere in the package
    q = make(case)
    ln = Line()
    old = sys.gettrace()
    try:
        sys.settrace(ln.glob)
        fly(q, case)
    finally:
        sys.settrace(old)
    total = ln.n
    for j in (int(x) for x in rng.integers(1, total+1, case["nlines"])):
        q = make(case)
        ln = Line(j)
        try:
            sys.settrace(ln.glob)
            tap, err = fly(q, case)
        finally:
            sys.settrace(old)
        info = dict(line=j, of=total, inside=ln.site)
        obs.check(err is ln.exc, "raised", "an interrupt is swallowed", got=repr(err), **info)
        d, e1, c1 = snapshot(q)
        ln_ = {k: len(d[k]) for k in d}
        started = max(ln_.values(), default=0) > 1 or len(d) == len(NODES + STEPS)
        if started:
            cnt = [ln_.get(k, 0) - (1 if k in NODES else 0) for k in NODES + STEPS]
            obs.check(max(cnt)-min(cnt) <= 1, "prefix", "histories more than one entry apart after an interrupt", lengths=ln_, **info)
            if max(cnt) > 0:
                obs.trivial = False
        for k in d:
            obs.check(same(d[k], U[k][:len(d[k])]), "prefix", "history '%s' is not the beginning of the uninterrupted flight" % k, **info)
        obs.check(e1 in (0, ec) and bool(c1) in (False, bool(cv)), "claim", "an interrupted solve claims another outcome", exitcode=e1, converge=c1, full=ec, **info)
        obs.count("fault:anywhere")
        if rng.random() < 0.5:
            resolve(obs, q, case, U, ec, cv, "after an interrupt", **info)
    obs.count("client_calls", len(calls))
    obs.count("source_lines", total)
