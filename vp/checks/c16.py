"""C16: solving is a pure function of the law settings and the problem last set"""
import contextlib, copy, io, json, math, os, pickle, struct, tempfile
import numpy as np
from .. import core, flows, shadow, sut
from ..flows import rand_spec
import pyqlaw
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt

ID = "C16"
N = dict(quick=260, thorough=11000)
REQUIRED = ["solves_compared", "op:solve", "op:fault_eta", "op:fault_pert", "op:export", "op:plot", "op:pretty", "op:verbosity", "op:freq", "op:other",
            "op:nested", "op:newpert", "op:scribble", "repeat_solve", "after_fault", "after_other_problem", "defaults_reset", "near_copies_set", "clipped_start", "checked:caller", "pristine_reference",
            "fresh_derivation", "ended:1", "ended:2", "ended:-1", "ended:-2", "ended:-3", "et:keplerian", "et:mee_with_a"]
RULE = ("random operation sequences on one object (set, solve with varying thresholds, faults injected in callbacks and perturbation models, exports, plots, printing, "
        "verbosity, print frequency, other objects, objects solved inside a callback); every solve is compared bitwise with the same problem solved by a new object in "
        "a pristine process, and the caller's arrays byte for byte; non-trivial = at least two solves compared")
ASSUMPTIONS = ["client callbacks do not modify the state they are handed", "the symbolic derivation is shared between objects except in the fresh_derivation cases"]
CASE_LIMIT = 200


def warm(tier):
    flows.warm_all()


# ------------------------------------------------------------------ pristine reference: zygote forked before the process solved anything
class Zygote:
    def __init__(self):
        self.pid = os.getpid()
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        if os.fork() == 0:
            try:
                import signal
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                os.close(self.w); os.close(self.r)
                self.serve(os.fdopen(a, "rb"), os.fdopen(b, "wb"))
            finally:
                os._exit(0)
        os.close(a); os.close(b)
        self.fr, self.fw = os.fdopen(self.r, "rb"), os.fdopen(self.w, "wb")

    def serve(self, fr, fw):
        while True:
            h = fr.read(8)
            if len(h) < 8:
                return
            req = fr.read(struct.unpack("q", h)[0])
            pid = os.fork()
            if pid == 0:
                try:
                    core.Watchdog.probe = None
                    fl = flows.fly(json.loads(req))
                    out = pickle.dumps(dict(exitcode=fl.exitcode, converge=fl.converge, **flows.histories(fl)))
                except Exception as e:
                    out = pickle.dumps(dict(error=repr(e)))
                fw.write(struct.pack("q", len(out)) + out)
                fw.flush()
                os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, spec):
        q = json.dumps(core.jsonable(spec)).encode()
        self.fw.write(struct.pack("q", len(q)) + q)
        self.fw.flush()
        h = self.fr.read(8)
        if len(h) < 8:
            raise core.Inconclusive("reference process ended")
        d = pickle.loads(self.fr.read(struct.unpack("q", h)[0]))
        if "error" in d:
            raise RuntimeError("reference solve: " + d["error"])
        fl = flows.Flight()
        fl.__dict__.update(d)
        return fl


_z = None


def zygote():
    global _z
    if _z is None or _z.pid != os.getpid():
        _z = Zygote()
    return _z


# ------------------------------------------------------------------ cases
OPS = ["solve"]*4 + ["set"]*3 + ["fault_eta", "fault_eta", "fault_pert", "export", "plot", "pretty", "verbosity", "freq", "other", "nested", "newpert", "scribble"]


def gen(rng, tier):
    s = rand_spec(rng, units=False, nsteps=14, pert=False, tight=rng.random() < 0.6)
    et = shadow.et_of(s)
    law = s["law"]
    if et == "keplerian" and rng.random() < 0.5:
        law.pop("oe_min"), law.pop("oe_max")     # default safeguards: negative angles are clipped
    if rng.random() < 0.3:
        law["exit_at_relaxed"] = int(rng.integers(1, 4))
    law["nan_angles_threshold"] = int(rng.integers(0, 4))
    probs = []
    for k in range(int(rng.integers(2, 5))):
        q = rand_spec(rng, units=False, et=et, mu=law["mu"], nsteps=14, sundman=bool(law["use_sundman"]), pert=False)["prob"]
        r = rng.random()
        if r < 0.15 and not law["use_sundman"]:
            # optional arguments left out: the documented defaults apply again
            q = {a: q[a] for a in ("oe0", "oeT", "mass0", "tmax", "mdot")}
            q["tf_max"] = float(rng.uniform(0.5, 2.0))
            q["mdot"] = q["mass0"]*float(rng.uniform(0, 0.3))
        elif r < 0.5:
            for a in ("woe", "duty_cycle", "battery_capacity", "mass_min"):
                if rng.random() < 0.5:
                    q.pop(a, None)
            if "battery_capacity" not in q:
                for a in ("battery_initial", "battery_charge_discharge_rate", "require_full_recharge"):
                    q.pop(a, None)
        elif r < 0.6 and et == "mee_with_a":
            q["oe0"][1] = q["oe0"][2] = 0.0      # undefined commands
            q["oeT"][2] = 0.0
        elif r < 0.75:
            q["oeT"] = flows.rand_target(rng, et, q["oe0"], size=10**rng.uniform(-5, -3.2))
        q["mass_min"] = max(0.01, q.get("mass_min", 0.1)) if q["mass0"] > 0.2 or "mass_min" in q else 0.01
        if probs and rng.random() < 0.5:
            # shares all but a few fields with an earlier problem: what is remembered from that one shows
            base = copy.deepcopy(probs[int(rng.integers(len(probs)))])
            names = [a for a in q if a in base and q[a] != base[a] and not (a == "mass_min" and q[a] >= base["mass0"]) and not (a == "mass0" and q[a] <= base["mass_min"])]
            take = [a for a in names if rng.random() < 0.15]
            if not take and names:
                take = [str(rng.choice([a for a in names if a in ("oeT", "woe", "tmax")] or names))]
            for a in take:
                base[a] = q[a]
            if base["mass_min"] < base["mass0"]:
                if "oeT" in take and "oe0" not in take:
                    base["oeT"] = flows.rand_target(rng, et, base["oe0"])
                q = base
                q["near_copy"] = True
        probs.append(q)
    near = [bool(q.pop("near_copy", False)) for q in probs]
    ops = [dict(op="set", k=0), dict(op="solve", e=0)]
    for _ in range(int(rng.integers(4, 10))):
        ops.append(dict(op=str(rng.choice(OPS)), k=int(rng.integers(len(probs))), e=int(rng.integers(3)), r=int(rng.integers(1 << 20))))
    ops.append(dict(op="solve", e=int(rng.integers(3))))
    P = flows.period(et, s["prob"]["oe0"], law["mu"])
    etas = [(0.0, 0.0)]
    for _ in range(2):
        etas.append([flows.rand_eta(rng, P, 1.0, {}) if rng.random() < 0.8 else 0.0 for _ in range(2)])
    g0 = law["mu"]/s["prob"]["oe0"][0]**2
    other = rand_spec(rng, units=False, nsteps=8, pert=False)
    return dict(law=law, probs=probs, ops=ops, etas=etas, pert=flows.rand_pert(rng, g0, P), other=other, use_pert=bool(rng.random() < 0.4), near=near,
                verbosity=int(rng.integers(0, 4)))


def structured(tier):
    out = []
    for et in ("keplerian", "mee_with_a"):
        rng = np.random.default_rng(7)
        a, b = rand_spec(rng, units=False, et=et, nsteps=12, mu=1.0, sundman=False), rand_spec(rng, et=et, nsteps=12, mu=1.0, sundman=False)
        out.append(dict(kind="derive", a=a, b=b))
    return out


def bytes_of(kw):
    return {k: (v.tobytes(), v.shape, v.dtype.str) if isinstance(v, np.ndarray) else repr(v) for k, v in kw.items()}


def derive(case, obs):
    """objects whose symbolic derivation is their own"""
    mods = [m for m in sut.modules()]
    saved = []
    for m in mods:
        for n in ("symbolic_qlaw_keplerian", "symbolic_qlaw_mee_with_a"):
            f = vars(m).get(n)
            if f is not None and hasattr(f, "_vp_orig"):
                saved.append((m, n, f))
                setattr(m, n, f._vp_orig)
    try:
        p1 = flows.build(case["a"])
        p2 = flows.build(case["b"])
        f1 = flows.fly(case["a"], prob=p1)
        flows.fly(case["b"], prob=p2)
        flows.fly(case["b"], prob=p1) if case["a"]["law"] == case["b"]["law"] else None
        f3 = flows.fly(case["a"], prob=p1)
    finally:
        for m, n, f in saved:
            setattr(m, n, f)
    w = zygote().ask(case["a"])
    obs.check(flows.same_histories(f1, f3) is None, "same", "repeated solve differs")
    d = flows.same_histories(f1, w, 1e-9)
    obs.check(d is None, "same", "object with its own derivation solves differently: %s" % d)
    obs.count("fresh_derivation")


def run(case, obs):
    if case.get("kind") == "derive":
        return derive(case, obs)
    zy = zygote()
    law = dict(law=case["law"])
    kwl = flows.law_kwargs(law)
    kwl["verbosity"] = case["verbosity"]
    snap_l = bytes_of(kwl)
    with contextlib.redirect_stdout(io.StringIO()):
        prob = pyqlaw.QLaw(**kwl)
    cur, kwp, snap_p = None, None, None
    pert = case["pert"] if case["use_pert"] else None
    last, ncmp, since = None, 0, set()
    other = None
    refs = {}

    def caller(what):
        obs.check(bytes_of(kwl) == snap_l and (kwp is None or bytes_of(kwp) == snap_p), "caller", "%s modified the caller's arguments" % what,
                  now=kwp, was={k: v for k, v in (cur or {}).items()})

    def spec_of(e):
        d = dict(law=case["law"], prob=cur, eta_a=case["etas"][e][0], eta_r=case["etas"][e][1], max_nodes=20000)
        if pert:
            d["pert"] = pert
        return d

    def do_solve(e, nested=False):
        nonlocal ncmp
        spec = spec_of(e)
        fl = flows.Flight()
        fl.ptrb_log = []
        prob.perturbations = flows.Model(pert, fl.ptrb_log) if pert else None
        if nested:
            done = []

            def eta(t, oe, mass, battery):
                if len(done) < 2:
                    done.append(1)
                    flows.fly(case["other"])
                return flows.eta_value(e0, float(t), oe, float(mass), float(battery)) if isinstance(e0, dict) else float(e0)
            e0 = spec["eta_r"]
            with contextlib.redirect_stdout(io.StringIO()):
                prob.solve(eta_a=flows.make_eta(spec["eta_a"], []), eta_r=eta)
        else:
            flows.solve(prob, spec, fl)
        got = flows.snap(prob, spec, obs=obs)
        key = core.case_key(spec)
        if key not in refs:
            refs[key] = zy.ask(spec)
            obs.count("pristine_reference")
        d = flows.same_histories(got, refs[key])
        obs.check(d is None, "same", "solve differs from the same problem solved by a new object in a fresh process: %s" % d, since=sorted(since), got=got.exitcode,
                  want=refs[key].exitcode, n=[got.n, len(refs[key].c)])
        obs.count("solves_compared")
        obs.count("ended:%d" % got.exitcode)
        for s in ("fault", "other_problem"):
            if s in since:
                obs.count("after_" + s)
        if "solved" in since:
            obs.count("repeat_solve")
        if shadow.et_of(spec) == "keplerian":
            x0 = np.asarray(cur["oe0"])[:5]
            if np.any(x0 < np.asarray(prob.oe_min)[:5]) or np.any(x0 > np.asarray(prob.oe_max)[:5]):
                obs.count("clipped_start")
        ncmp += 1
        caller("solve")

    solved = False
    for o in case["ops"]:
        k = o["op"]
        if k == "set":
            if cur is not None and len(case["probs"][o["k"]]) < len(cur):
                obs.count("defaults_reset")
            cur = copy.deepcopy(case["probs"][o["k"]])
            kwp = flows.prob_kwargs(dict(prob=cur))
            snap_p = bytes_of(kwp)
            prob.set_problem(**kwp)
            caller("set_problem")
            since = {"other_problem"} if solved else set()
            fresh = False
            have = False
            if case.get("near", [0]*9)[o["k"]]:
                obs.count("near_copies_set")
        elif k in ("solve", "nested"):
            do_solve(o["e"], nested=k == "nested")
            since = {"solved"}
            solved = have = True
        elif k in ("fault_eta", "fault_pert"):
            spec = spec_of(o["e"])
            at = o["r"] % 9
            fl = flows.Flight()
            fl.ptrb_log = []
            if k == "fault_eta":
                spec[["eta_a", "eta_r"][o["r"] & 1]] = dict(fn="const", v=0.2, fault=at)
                prob.perturbations = flows.Model(pert, fl.ptrb_log) if pert else None
            else:
                prob.perturbations = flows.Model(case["pert"], fl.ptrb_log, fault=at)
            try:
                flows.solve(prob, spec, fl)
            except flows.ClientError:
                obs.count("faults_raised")
            prob.perturbations = None
            caller("failed solve")
            since.add("fault")
            have = False
        elif k == "export":
            if have:
                # (whether it exports or draws correctly is for C20, C21)
                with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()), contextlib.suppress(Exception):
                    prob.save_to_dict(os.path.join(d, "x.json"), save_control_angles=bool(o["r"] & 1))
                    prob.get_cartesian_history()
        elif k == "plot":
            if have and np.all(np.isfinite(np.array(prob.states))):
                with contextlib.redirect_stdout(io.StringIO()), contextlib.suppress(Exception):
                    getattr(prob, ["plot_elements_history", "plot_controls", "plot_Q", "plot_efficiency", "plot_battery_history", "plot_trajectory_2d"][o["r"] % 6])()
                plt.close("all")
        elif k == "pretty":
            with contextlib.redirect_stdout(io.StringIO()):
                prob.pretty()
                prob.pretty_settings()
                if have:
                    prob.pretty_results()
        elif k == "verbosity":
            prob.verbosity = int(o["r"] % 4)
        elif k == "freq":
            prob.print_frequency = 1 + int(o["r"] % 50)
        elif k == "other":
            other = flows.build(case["other"]) if other is None or o["r"] & 1 else other
            flows.fly(case["other"], prob=other)
            since.add("other")
        elif k == "scribble":
            # the caller reuses the arrays it passed
            for d in (kwl, kwp):
                for a in d.values():
                    if isinstance(a, np.ndarray):
                        a += 0.37
            snap_l, snap_p = bytes_of(kwl), bytes_of(kwp)
            since.add("scribble")
        elif k == "newpert":
            pert = None if pert else case["pert"]
            since.add("pert")
        obs.count("op:" + k)
    obs.count("et:" + case["law"]["elements_type"])
    obs.trivial = ncmp < 2
