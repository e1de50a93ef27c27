"""C21: plots depict the recorded histories and targets (artist data of every figure against the record)"""
import contextlib, io, math
import numpy as np
from scipy.interpolate import interp1d
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection
from matplotlib.figure import Figure
from .. import flows, ref, shadow, sut
from ..flows import rand_spec

ID = "C21"
N = dict(quick=320, thorough=9000)
REQUIRED = ["elements", "elements_kep", "elements_anomaly", "elements_periapsis", "battery", "controls", "controls_anomaly", "traj2d", "traj3d",
            "traj_interpolated", "efficiency", "Q", "helpers", "et:keplerian", "et:mee_with_a", "backward", "checked:unaltered", "checked:band",
            "checked:target_line", "checked:orbit", "checked:transfer", "checked:sphere", "units", "few_nodes", "no_step"]
RULE = ("random solves (both element sets, directions, batteries, thresholds, perturbations, short and long), every plotting call with random options and units; "
        "the artists of the produced figure are read back and each line, band, marker and wireframe matched with the curve it should depict, and "
        "every expected curve must be present; non-trivial = at least one figure decided")
ASSUMPTIONS = ["interpolated trajectories have at least four nodes, and eccentricity below 0.97", "artist data, not pixels, are compared",
               "Keplerian angles after conversion are compared where the angle is defined (e, i above 1e-4)"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    s = rand_spec(rng, nsteps=float(rng.choice([8, 25, 80])))
    if shadow.et_of(s) == "keplerian" and rng.random() < 0.2:
        s["law"]["tol_oe"] = [float(v) for v in rng.uniform(1e-4, 1e-1, 5)]
    elif rng.random() < 0.5:
        s["law"]["tol_oe"] = [float(v) for v in 10**rng.uniform(-6, -2, 5)]
    r = rng.random()
    if r < 0.08:         # ended before the first step
        s = dict(law=dict(nan_angles_threshold=0), prob=dict(oe0=[flows.logu(rng, 0.5, 3), 0.0, 0.0, 0.1, 0.05, float(rng.uniform(-3, 3))],
                 oeT=[1.2, 0.1, 0.0, 0.1, 0.1], mass0=1.0, tmax=1e-3, mdot=1e-4, tf_max=1.0, t_step=0.1))
    elif r < 0.2:        # one to three steps
        s["prob"]["tf_max"] = s["prob"]["tf_max"]*1e-3
    P = []
    for k in rng.choice(7, size=3, replace=False):
        u = dict(TU=1.0 if rng.random() < 0.3 else flows.logu(rng, 1e-3, 1e3))
        k = int(k)
        if k == 0:
            u.update(plot="elements", to_keplerian=bool(rng.random() < 0.5), plot_mass=bool(rng.random() < 0.5), plot_periapsis=bool(rng.random() < 0.5))
        elif k == 1:
            u.update(plot="battery", BU=flows.logu(rng, 1e-2, 1e4))
        elif k == 2:
            u.update(plot="controls", show_anomaly=bool(rng.random() < 0.6))
        elif k == 3:
            u = dict(plot="2d", interpolate=bool(rng.random() < 0.5), steps=None if rng.random() < 0.2 else int(rng.integers(2, 400)))
        elif k == 4:
            u = dict(plot="3d", interpolate=bool(rng.random() < 0.6), steps=None if rng.random() < 0.2 else int(rng.integers(2, 400)),
                     plot_sphere=bool(rng.random() < 0.7), sphere_radius=flows.logu(rng, 1e-2, 2), scale=float(rng.uniform(0.5, 2)))
        elif k == 5:
            u.update(plot="efficiency")
        else:
            u.update(plot="Q")
        P.append(u)
    s["plots"] = P
    if rng.random() < 0.15:
        s["helper"] = dict(r=[flows.logu(rng, 1e-2, 10) for _ in range(3)], c=[float(v) for v in rng.normal(size=3)], n=int(rng.integers(3, 70)),
                           lims=[sorted(float(v) for v in rng.normal(size=2)*3) for _ in range(3)], scale=float(rng.uniform(0.5, 2)))
    return s


@contextlib.contextmanager
def figures():
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        plt.close("all")


def eq(got, want, tol, mod=None):
    got, want = np.asarray(got, dtype=float).ravel(), np.asarray(want, dtype=float).ravel()
    if got.shape != want.shape:
        return False
    n = np.isnan(got) | np.isnan(want)
    if np.any(np.isnan(got) != np.isnan(want)):
        return False
    d = got-want
    if mod:
        d = (d + mod/2) % mod - mod/2
    d = np.where(n, 0, np.abs(d))
    return bool(np.all(d <= tol))


def is_hline(l):
    x = np.asarray(l.get_xdata(), dtype=float)
    y = np.asarray(l.get_ydata(), dtype=float).ravel()
    if len(y) not in (1, 2) or len(x) != 2 or sorted(x) != [0, 1]:
        return False
    l.axes.get_xlim(), l.axes.get_ylim()        # view limits are computed lazily
    return l.get_transform() is not l.axes.transData and l.get_transform() != l.axes.transData


def curves(obs, ax, want, what, mech="curve"):
    """want: list of (name, x, y, ytol, modulus); lines and curves must match one to one"""
    L = [l for l in ax.lines if not is_hline(l)]
    left = list(range(len(L)))
    for name, x, y, tol, mod in want:
        xt = 1e-12*np.max(np.abs(x), initial=0) + 1e-300
        j = next((i for i in left if eq(L[i].get_xdata(), x, xt) and eq(L[i].get_ydata(), y, tol, mod)), None)
        obs.count("curves")
        if not obs.check(j is not None, mech, "%s: the recorded %s is not drawn" % (what, name), x=x[:5], y=np.asarray(y)[:5],
                         drawn=[(np.asarray(l.get_xdata())[:3], np.asarray(l.get_ydata())[:3], len(l.get_xdata())) for l in L]):
            return
        left.remove(j)
    obs.check(not left, mech, "%s: %d further curves drawn" % (what, len(left)))


def reltol(y):
    y = np.abs(np.asarray(y, dtype=float))
    y = y[np.isfinite(y)]
    return 1e-12*(y.max() if y.size else 0) + 1e-300


def band(obs, ax, t, lo, hi, what):
    pts = [p.vertices for c in ax.collections for p in c.get_paths()]
    if not obs.check(len(pts) == 1, "band", "%s: exactly one target band" % what, n=len(pts)):
        return
    v = np.asarray(pts[0], dtype=float)
    xt, yt = 1e-12*np.max(np.abs(t)), 1e-12*max(abs(lo), abs(hi)) + 1e-300
    ok = eq([v[:, 0].min(), v[:, 0].max()], [min(t), max(t)], xt) and eq([v[:, 1].min(), v[:, 1].max()], [lo, hi], yt) \
        and bool(np.all(np.minimum(np.abs(v[:, 1]-lo), np.abs(v[:, 1]-hi)) <= yt))
    obs.check(ok, "band", "%s: band is not target +- tolerance over the flight" % what, got=[v.min(axis=0), v.max(axis=0)], want=[lo, hi])


def hlines(obs, ax, want, what, mod=None):
    got = sorted(float(np.ravel(l.get_ydata())[0]) for l in ax.lines if is_hline(l))
    want = sorted(float(v) for v in want)
    tol = 1e-9*(1+max(abs(v) for v in want))
    obs.check(len(got) == len(want) and eq(got, want, tol, mod), "target_line", "%s: horizontal lines" % what, got=got, want=want)


def elements(prob, fl, p, case, obs):
    et = shadow.et_of(case)
    T = p["TU"]
    fig, _ = prob.plot_elements_history(TU=T, to_keplerian=p["to_keplerian"], plot_mass=p["plot_mass"], plot_periapsis=p["plot_periapsis"])
    axs = fig.axes
    if not obs.check(isinstance(fig, Figure) and len(axs) == 6, "curve", "six axes"):
        return
    t = fl.t*T
    conv = p["to_keplerian"] and et == "mee_with_a"
    X = ref.meea2kep(fl.x) if conv else fl.x
    oT = np.asarray(flows.par(case, "oeT"), dtype=float)[:5]
    if conv:
        oT = np.asarray(ref.meea2kep(np.append(oT, 0.0)))[:5]
    tol = np.asarray(flows.par(case, "tol_oe"), dtype=float)
    e = X[:, 1] if et == "keplerian" or conv else np.hypot(X[:, 1], X[:, 2])
    deg = 180/np.pi
    bad = (e < 1e-4) | (X[:, 2] < 1e-4) | (X[:, 2] > np.pi-1e-4)
    skip = conv and bad.any()
    for j in range(5):
        y, tl, mod = X[:, j], reltol(X[:, j]), None
        if conv:
            tl = 1e-10*(1+np.abs(y).max())
            if j >= 2:
                y, tl, mod = y*deg, 1e-6, 360.0
        if skip and j >= 3:
            continue
        want = [(prob.element_names[j], t, y, tl, mod)]
        if j == 0 and p["plot_periapsis"]:
            want.append(("periapsis", t, X[:, 0]*(1-e), 1e-10*np.abs(X[:, 0]).max(), None))
            obs.count("elements_periapsis")
        curves(obs, axs[j], want, "elements axis %d" % j)
        if conv:
            if oT[1] > 1e-4 and 1e-4 < oT[2] < np.pi-1e-4 or j < 2:
                hlines(obs, axs[j], [oT[j]*(deg if j >= 2 else 1)], "elements axis %d" % j, 360.0 if j >= 2 else None)
        else:
            band(obs, axs[j], t, oT[j]-tol[j], oT[j]+tol[j], "elements axis %d" % j)
    if p["plot_mass"]:
        curves(obs, axs[5], [("mass", t, fl.m, reltol(fl.m), None)], "sixth axis")
    elif not skip:
        curves(obs, axs[5], [("anomaly", t, X[:, 5]*deg, 1e-6, 360.0)], "sixth axis")
        y = np.asarray(axs[5].lines[0].get_ydata(), dtype=float) if axs[5].lines else np.zeros(1)
        obs.check(bool(np.all((y > -1e-6) & (y < 360+1e-6))), "curve", "anomaly is not reduced to one turn", y=y[:4])
        obs.count("elements_anomaly")
    obs.count("elements_kep" if conv else "elements")


def conic_points(obs, P, et, oe, mu, what):
    """points of the drawn orbit lie on the conic and close it"""
    oe = np.append(np.asarray(oe, dtype=float)[:5], 0.0)
    sv = np.asarray(ref.to_sv(et, oe[None, :], mu))[0]
    r, v = sv[:3], sv[3:]
    h = np.cross(r, v)
    hn = h/np.linalg.norm(h)
    if P.shape[0] == 2:
        if abs(hn[2]) < 1e-2:
            return
        P = np.vstack([P, -(hn[0]*P[0]+hn[1]*P[1])/hn[2]])
    ev = np.cross(v, h)/mu - r/np.linalg.norm(r)
    p = h @ h/mu
    R = np.linalg.norm(P, axis=0)
    res = np.abs(R + ev @ P - p)/p
    plane = np.abs(hn @ P)/R
    a = np.asarray(oe)[0]
    u = r/np.linalg.norm(r)
    w = np.cross(hn, u)
    th = np.unwrap(np.arctan2(w @ P, u @ P))
    sc = 1e-8/max(abs(hn[2]), 1e-2)/(1-np.linalg.norm(ev))
    obs.check(bool(np.all(res < sc) and np.all(plane < sc)), "orbit", "%s: drawn orbit is not the orbit" % what, res=res.max(), plane=plane.max())
    obs.check(abs(abs(th[-1]-th[0])-2*np.pi) < 1e-5 and np.max(np.abs(np.diff(th))) < 0.3, "orbit", "%s: drawn orbit is not one full turn" % what,
              span=th[-1]-th[0])


def want_transfer(case, fl, interpolate, steps):
    et, mu = shadow.et_of(case), flows.par(case, "mu")
    if not interpolate:
        return ref.to_sv(et, fl.x, mu).T[:3], None
    tt = np.linspace(fl.t[0], fl.t[-1], steps)
    I = np.array([interp1d(fl.t, fl.x[:, j], kind="quadratic")(tt) for j in range(6)]).T
    ok = (ref.ecc_of(et, I) < 0.97) & (I[:, 0] > 0) & ((I[:, 1] > 0) | (et != "keplerian"))
    return ref.to_sv(et, I, mu).T[:3], ok


def trajectory(prob, fl, p, case, obs):
    et, mu = shadow.et_of(case), flows.par(case, "mu")
    d3 = p["plot"] == "3d"
    kw = dict(interpolate=p["interpolate"], steps=p["steps"])
    if d3:
        fig, ax = prob.plot_trajectory_3d(plot_sphere=p["plot_sphere"], sphere_radius=p["sphere_radius"], scale=p["scale"], **kw)
    else:
        fig, ax = prob.plot_trajectory_2d(**kw)
    ax = fig.axes[0]
    dim = 3 if d3 else 2
    L = [np.array(l.get_data_3d() if d3 else l.get_data(), dtype=float) for l in ax.lines]
    lab = {l.get_label(): k for k, l in enumerate(ax.lines)}
    if not obs.check(len(L) == 3 and set(lab) == {"Initial", "Final", "transfer"}, "transfer", "initial, final and transfer curves", labels=list(lab)):
        return
    c = L[lab["transfer"]]
    ns = c.shape[1]
    if p["interpolate"] and p["steps"] is not None:
        obs.check(ns == p["steps"], "transfer", "number of samples drawn", got=ns, want=p["steps"])
    with np.errstate(all="ignore"):
        w, ok = want_transfer(case, fl, p["interpolate"], ns)
    if obs.check(c.shape == (dim, w.shape[1]), "transfer", "transfer curve has wrong length", got=c.shape, want=w.shape):
        e = ref.ecc_of(et, fl.x).max()
        err = np.linalg.norm(c-w[:dim], axis=0)/np.linalg.norm(w, axis=0)
        if ok is not None:
            err = err[ok]
        tol = 1e-9*(1+np.max(np.abs(fl.x[:, 3:])))/(1-e)**2
        obs.check(bool(np.all(err <= tol)), "transfer", "drawn trajectory is not the recorded one", err=err.max() if err.size else 0, interpolate=p["interpolate"])
    conic_points(obs, L[lab["Initial"]], et, flows.par(case, "oe0"), mu, "initial")
    conic_points(obs, L[lab["Final"]], et, flows.par(case, "oeT"), mu, "final")
    pts = []
    for s in ax.collections:
        if isinstance(s, PathCollection):
            round_ = any(q.codes is not None and np.any(np.asarray(q.codes) > 2) and len(q.vertices) > 6 for q in s.get_paths())
            pts.append((round_, np.array([float(np.ravel(v)[0]) for v in s._offsets3d]) if d3 else np.asarray(s.get_offsets(), dtype=float)[0]))
    pts.sort(key=lambda q: q[0])        # cross: start, dot: end, drawn in any order

    def ends(u, v):
        return np.allclose(u, c[:, 0], atol=0, rtol=1e-12) and np.allclose(v, c[:, -1], atol=0, rtol=1e-12)
    ok = len(pts) == 2 and (ends(pts[0][1], pts[1][1]) or pts[0][0] == pts[1][0] and ends(pts[1][1], pts[0][1]))
    obs.check(ok, "transfer", "end markers are not at the ends of the trajectory", got=pts, want=[c[:, 0], c[:, -1]])
    if d3:
        seg = [np.asarray(s, dtype=float) for q in ax.collections if hasattr(q, "_segments3d") for s in np.asarray(q._segments3d, dtype=object)]
        if p["plot_sphere"]:
            r = np.concatenate([np.linalg.norm(np.asarray(s, dtype=float), axis=1) for s in seg]) if seg else np.zeros(1)
            obs.check(bool(np.all(np.abs(r-p["sphere_radius"]) <= 1e-12*p["sphere_radius"])), "sphere", "centre body wireframe radius", got=[r.min(), r.max()],
                      want=p["sphere_radius"])
            hr = np.max(np.ptp(c, axis=1))/2
            for j, lim in enumerate((ax.get_xlim(), ax.get_ylim(), ax.get_zlim())):
                if hr < 1e-6*np.abs(c).max():     # (a point: matplotlib widens the limits)
                    break
                mid = (c[j].min()+c[j].max())/2
                sc = 1e-9*(abs(mid)+hr)
                obs.check(abs((lim[0]+lim[1])/2-mid) <= sc and abs((lim[1]-lim[0])/2-hr*p["scale"]) <= sc, "axis", "axis %d limits do not frame the "
                          "transfer equally" % j, lim=lim, mid=mid, half=hr*p["scale"])
        else:
            obs.check(not seg, "sphere", "wireframe drawn although not asked for")
    obs.count("traj3d" if d3 else "traj2d")
    if p["interpolate"]:
        obs.count("traj_interpolated")


def helpers(h, obs):
    sp, el, se = sut.api("get_sphere_coordinates"), sut.api("get_ellipsoid_coordinates"), sut.api("set_equal_axis")
    pe = sut.api("plot_ellipsoid_wireframe")
    r, c = np.array(h["r"]), np.array(h["c"])
    for cc in (None, list(h["c"])):
        o = np.zeros(3) if cc is None else c
        P = np.array([np.ravel(v) for v in sp(r[0], cc)]) - o[:, None]
        n = np.linalg.norm(P, axis=0)
        obs.check(bool(np.all(np.abs(n-r[0]) < 1e-12*(r[0]+np.abs(o).max()))) and np.allclose(P.min(axis=1)[2], -r[0]) and np.allclose(P.max(axis=1)[2], r[0])
                  and np.ptp(P[0]) > 1.8*r[0] and np.ptp(P[1]) > 1.8*r[0], "helper", "sphere coordinates", r=r[0], c=cc)
        g = el(*h["r"], center=cc, n=h["n"])
        P = np.array([np.ravel(v) for v in g]) - o[:, None]
        q = np.sum((P/r[:, None])**2, axis=0)
        obs.check(bool(np.all(np.abs(q-1) < 1e-10*(1+np.abs(o).max()/r.min())**2)) and all(np.shape(v) == (h["n"], h["n"]) for v in g)
                  and abs(np.ptp(P[2])-2*r[2]) < 1e-9*(r[2]+np.abs(o[2])), "helper", "ellipsoid coordinates", r=r, c=cc)
    fig = plt.figure()
    ax = fig.add_subplot(projection="3d")
    pe(ax, *h["r"], center=list(h["c"]), n=12)
    seg = np.concatenate([np.asarray(s, dtype=float) for q in ax.collections for s in np.asarray(q._segments3d, dtype=object)])
    q = np.sum(((seg-c)/r)**2, axis=1)
    obs.check(bool(np.all(np.abs(q-1) < 1e-9*(1+np.abs(c).max()/r.min())**2)), "helper", "ellipsoid wireframe")
    x, y, z = h["lims"]
    se(ax, x, y, z, scale=h["scale"])
    hr = max(x[1]-x[0], y[1]-y[0], z[1]-z[0])/2*h["scale"]
    for lim, w in zip((ax.get_xlim(), ax.get_ylim(), ax.get_zlim()), (x, y, z)):
        m = (w[0]+w[1])/2
        obs.check(np.allclose(lim, [m-hr, m+hr], rtol=1e-12, atol=1e-12*(abs(m)+hr)), "helper", "equal axis", lim=lim, want=[m-hr, m+hr])
    fig, ax = plt.subplots()
    se(ax, x, y, z, scale=h["scale"], dim3=False)
    for lim, w in zip((ax.get_xlim(), ax.get_ylim()), (x, y)):
        m = (w[0]+w[1])/2
        obs.check(np.allclose(lim, [m-hr, m+hr], rtol=1e-12, atol=1e-12*(abs(m)+hr)), "helper", "equal axis", lim=lim, want=[m-hr, m+hr])
    obs.count("helpers")


def run(case, obs):
    if "helper" in case:
        with figures():
            helpers(case["helper"], obs)
    fl = flows.fly(case, obs=obs)
    prob = fl.prob
    et, mu = shadow.et_of(case), flows.par(case, "mu")
    if not np.all(np.isfinite(fl.x)) or np.any(ref.ecc_of(et, fl.x) >= 0.97) or np.any(fl.x[:, 0] <= 0):
        obs.trivial = True
        return
    obs.count("few_nodes", int(fl.n < 3))
    obs.count("no_step", int(fl.n == 0))
    for p in case["plots"]:
        if p.get("interpolate") and fl.n < 3:
            p = dict(p, interpolate=False)
        T = p.get("TU", 1.0)
        t = fl.t*T
        with figures():
            if p["plot"] == "elements":
                elements(prob, fl, p, case, obs)
            elif p["plot"] == "battery":
                fig, _ = prob.plot_battery_history(TU=T, BU=p["BU"])
                curves(obs, fig.axes[0], [("battery", t, fl.b*p["BU"], reltol(fl.b*p["BU"]), None)], "battery")
                hlines(obs, fig.axes[0], np.array(flows.par(case, "battery_capacity"))*p["BU"], "battery")
                obs.count("battery")
            elif p["plot"] == "controls":
                fig, _ = prob.plot_controls(TU=T, show_anomaly=p["show_anomaly"])
                d = 180/np.pi
                w = [("alpha", t[:-1], fl.c[:, 0]*d, 1e-10, None), ("beta", t[:-1], fl.c[:, 1]*d, 1e-10, None), ("throttle", t[:-1], fl.c[:, 2]*100, 1e-10, None)]
                if p["show_anomaly"]:
                    w.append(("anomaly", t, fl.x[:, 5]*d, 1e-6, 360.0))
                    obs.count("controls_anomaly")
                curves(obs, fig.axes[0], w, "controls")
                lab = {l.get_label(): np.asarray(l.get_ydata(), dtype=float) for l in fig.axes[0].lines}
                obs.check("alpha" in lab and eq(lab["alpha"], fl.c[:, 0]*d, 1e-10) and "beta" in lab and eq(lab["beta"], fl.c[:, 1]*d, 1e-10),
                          "label", "control curves are labelled with each other's names", labels=list(lab))
                obs.count("controls")
            elif p["plot"] in ("2d", "3d"):
                trajectory(prob, fl, p, case, obs)
            elif p["plot"] == "efficiency":
                fig, _ = prob.plot_efficiency(TU=T)
                for j in (0, 1):
                    curves(obs, fig.axes[j], [("effectivity", t[:-1], fl.eta[:, j], 1e-12*(1+np.nanmax(np.abs(fl.eta[:, j]), initial=0)), None),
                                              ("threshold", t[:-1], fl.bnd[:, j], 1e-12, None)], "efficiency axis %d" % j)
                obs.count("efficiency")
            else:
                fig, _ = prob.plot_Q(TU=T)
                curves(obs, fig.axes[0], [("Q", t[:-1], fl.Q, reltol(fl.Q), None), ("rate", t[:-1], fl.dQ, reltol(fl.dQ), None)], "Q")
                obs.count("Q")
        if T != 1.0:
            obs.count("units")
        d = flows.same_histories(fl, flows.snap(prob, case))
        obs.check(d is None, "unaltered", "plotting altered the results: %s" % d, plot=p)
    p = case["prob"]
    obs.check(np.array_equal(np.asarray(prob.oe0, dtype=float), p["oe0"]) and np.array_equal(np.asarray(prob.oeT, dtype=float)[:5], p["oeT"][:5]), "unaltered",
              "plotting altered the problem")
    obs.count("et:" + et)
    if p["t_step"] < 0:
        obs.count("backward")
