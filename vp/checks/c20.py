"""C20: exports"""
import json, math, os, shutil, tempfile
import numpy as np
from .. import flows, ref, shadow
from ..flows import rand_spec

ID = "C20"
N = dict(quick=500, thorough=25000)
REQUIRED = ["et:keplerian", "et:mee_with_a", "angles", "vectors", "files", "repeated", "backward", "checked:times", "checked:states", "checked:controls", "checked:file",
            "checked:unaltered", "coast_rows", "thrust_rows", "canonical_units"]
RULE = ("random solves of both element sets exported in both control formats, with and without a file, repeatedly; dictionary and re-read file against "
        "the recorded histories and an independent element conversion; non-trivial = at least one flown step exported")


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    s = rand_spec(rng, nsteps=25)
    s["exports"] = [dict(angles=bool(rng.random() < 0.5), file=bool(rng.random() < 0.7),
                         units=dict(LU=float(rng.uniform(1, 1e4)), TU=float(rng.uniform(1, 1e4))) if rng.random() < 0.4 else None) for _ in range(int(rng.integers(2, 5)))]
    return s


def run(case, obs):
    fl = flows.fly(case, obs=obs)
    prob, n = fl.prob, fl.n
    et = shadow.et_of(case)
    obs.trivial = n == 0
    want_s = np.column_stack([ref.kep2mee(fl.x) if et == "keplerian" else ref.meea2mee(fl.x), fl.m])
    d = tempfile.mkdtemp(prefix="vp_c20_")
    try:
        prev = {}
        for j, e in enumerate(case["exports"]):
            path = os.path.join(d, "x%d.json" % j) if e["file"] else None
            kw = {}
            if e["units"] is not None:
                kw["canonical_units"] = e["units"]
                obs.count("canonical_units")
            if e["angles"]:
                kw["save_control_angles"] = True
            out = prob.save_to_dict(path, **kw)
            if not obs.check(isinstance(out, dict) and all(k in out for k in ("times", "states", "controls")), "dict", "exported dictionary lacks an entry",
                             keys=list(out) if isinstance(out, dict) else repr(out)):
                return
            after = flows.snap(prob, case)
            dd = flows.same_histories(fl, after)
            obs.check(dd is None, "unaltered", "export altered the solver's history: %s" % dd)
            t, S, C = (np.array(out[k], dtype=float) for k in ("times", "states", "controls"))
            obs.check(np.array_equal(t, fl.t), "times", "exported times are not the recorded ones", got=t[-3:], want=fl.t[-3:])
            obs.check(out.get("t0", 0.0) == fl.t[0] and out.get("tf", fl.t[-1]) == fl.t[-1], "times", "exported end times")
            if obs.check(S.shape == (n+1, 7), "states", "one row of six elements and mass per node", shape=S.shape):
                sc = np.abs(want_s)+np.array([0, 1, 1, 1, 1, 1, 0])*(1+np.sum(np.abs(fl.x[:, 3:]), axis=1))[:, None]
                sc[:, 3:5] += np.sum(want_s[:, 3:5]**2, axis=1)[:, None]
                bad = np.abs(S-want_s) > 4e-15*sc*10
                obs.check(not bad.any(), "states", "exported orbit/mass is not the recorded one", got=S[np.argmax(bad.any(axis=1))], want=want_s[np.argmax(bad.any(axis=1))])
            if e["angles"]:
                obs.count("angles")
                if obs.check(C.shape == (n+1, 3), "controls", "one row of angles and throttle per node", shape=C.shape):
                    obs.check(np.array_equal(C[:n], fl.c) and C[n, 2] == 0, "controls", "exported angles are not the recorded ones")
            else:
                obs.count("vectors")
                if obs.check(C.shape == (n+1, 4), "controls", "one row of direction and throttle per node", shape=C.shape):
                    want = np.column_stack([ref.thrust_dir(fl.c[:, 0], fl.c[:, 1]).reshape(n, 3), fl.c[:, 2]])
                    obs.check(n == 0 or np.max(np.abs(C[:n]-want)) < 1e-14, "controls", "exported direction is not the recorded command")
                    obs.check(C[n, 3] == 0, "controls", "last row is not a zero-throttle row", got=C[n])
                    obs.check(np.max(np.abs(np.linalg.norm(C[:, :3], axis=1)-1)) < 1e-13, "controls", "directions are not unit vectors")
            obs.count("coast_rows", int((fl.c[:, 2] == 0).sum())); obs.count("thrust_rows", int((fl.c[:, 2] == 1).sum()))
            if path:
                with open(path) as f:
                    J = json.load(f)
                obs.count("files")
                for k, w in (("times", t), ("states", S), ("controls", C)):
                    obs.check(np.array_equal(np.array(J[k], dtype=float), w), "file", "file and dictionary differ in %s" % k)
                obs.check(J.get("tf") == fl.t[-1], "file", "file end time")
                if e["units"] is not None:
                    obs.check(J.get("canonical_units") == e["units"], "file", "units in the file are not the ones given", got=J.get("canonical_units"))
            key = e["angles"]
            if key in prev:
                obs.count("repeated")
                obs.check(np.array_equal(prev[key][0], S) and np.array_equal(prev[key][1], C), "repeat", "repeated export differs")
            prev[key] = (S, C)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    obs.count("et:" + et)
    if case["prob"]["t_step"] < 0:
        obs.count("backward")
