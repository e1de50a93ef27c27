"""child of C35: imports the package in a fresh interpreter, flies the problems given on standard input, reports digests and side effects of the import"""
import hashlib, importlib, json, os, sys


def main():
    job = json.load(sys.stdin)
    real = os.dup(1)
    tmp = os.path.join(job["scratch"], "stdout")
    out = os.open(tmp, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    os.dup2(out, 1)
    sys.path.insert(0, job["here"])
    sys.path.insert(0, job["repo"])
    for m in job["first"]:
        importlib.import_module(m)
    import matplotlib.pyplot, mpl_toolkits.mplot3d, mpmath, numba, numpy as np, scipy.interpolate, scipy.optimize, spiceypy, sympy, tqdm.auto   # noqa: E401, F401
    from vp import ambient
    dirs = [os.getcwd()]
    a = ambient.snapshot(dirs, importing=True)
    import pyqlaw
    b = ambient.snapshot(dirs, importing=True)
    eff = ambient.changed(a, b)
    if job["ambient"] is not None:
        ambient.disturb(np.random.default_rng(job["ambient"]))
    from vp import flows
    res = []
    for s in job["specs"]:
        prob = pyqlaw.QLaw(**dict(flows.law_kwargs(s), verbosity=0))
        prob.set_problem(**flows.prob_kwargs(s))
        for _ in range(2):
            prob.perturbations = flows.Model(s["pert"], []) if s.get("pert") else None
            prob.solve(eta_a=flows.make_eta(s.get("eta_a", 0.0), []), eta_r=flows.make_eta(s.get("eta_r", 0.0), []))
            fl = flows.snap(prob, s)
            res.append(digest(fl))
    sys.stdout.flush()
    wrote = os.pread(out, 2000, 0).decode("utf8", "replace")
    left = ambient.files(os.getcwd())
    os.write(real, json.dumps(dict(file=pyqlaw.__file__, effects=eff, flights=res, wrote=wrote, left=left)).encode())
    os._exit(0)


def digest(fl):
    from vp import flows
    h = flows.histories(fl)
    d = {k: hashlib.sha1(v.astype("<f8").tobytes()).hexdigest() for k, v in h.items()}
    d["n"], d["outcome"] = fl.n, [fl.exitcode, bool(fl.converge)]
    return d


if __name__ == "__main__":
    main()
