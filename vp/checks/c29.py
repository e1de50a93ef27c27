"""C29: drawing helpers produce the requested surfaces and axis limits"""
import math
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from ..sut import api

ID = "C29"
N = dict(quick=300, thorough=12000)
REQUIRED = ["spheres", "ellipsoids", "sphere_wireframes", "ellipsoid_wireframes", "axes3d", "axes2d", "default_center", "negative_center", "scaled", "flat_axis", "meshes"]
RULE = ("random radii, centres, mesh sizes and axis limits; every returned or drawn vertex is tested against the surface equation, coverage of the whole surface is measured, "
        "and axis limits are read back from the figure; non-trivial = always")
ASSUMPTIONS = ["positive radii"]


def logu(rng, lo, hi):
    return float(math.exp(rng.uniform(math.log(lo), math.log(hi))))


def gen(rng, tier):
    def center():
        r = rng.random()
        return None if r < 0.3 else [float(x) for x in rng.normal(size=3)*10**rng.uniform(-2, 3)]

    def lims():
        a = float(rng.normal()*10**rng.uniform(-1, 3))
        w = 0.0 if rng.random() < 0.15 else logu(rng, 1e-2, 1e3)
        v = [a, a+w]
        return v[::-1] if rng.random() < 0.2 else v
    ls = [lims() for _ in range(3)]
    if max(abs(v[1]-v[0]) for v in ls) == 0:
        ls[0][1] = ls[0][0]+1.0
    if rng.random() < 0.3:
        for v in ls:
            v.insert(1, 0.5*(v[0]+v[1]))
    return dict(r=logu(rng, 1e-3, 1e4), c=center(), e=[logu(rng, 1e-3, 1e4) for _ in range(3)], ce=center(), n=int(rng.choice([4, 5, 8, 13, 20, 41, 60])),
                dn=bool(rng.random() < 0.3), lims=ls, scale=float(rng.choice([1.0, 1.0, 0.5, 1.2, 3.0])), dim3=bool(rng.random() < 0.6), draw=bool(rng.random() < 0.5))


def on_surface(P, r, c, obs, mech, what):
    """every vertex on the surface, and the surface covered in every octant and at both poles"""
    P = np.asarray(P, dtype=float).reshape(-1, 3)
    c = np.zeros(3) if c is None else np.asarray(c)
    r = np.asarray(r, dtype=float)*np.ones(3)
    U = (P-c)/r
    tol = 1e-12*(1+np.max(np.abs(c)/r))
    n = np.linalg.norm(U, axis=1)
    obs.check(np.all(np.isfinite(P)) and np.all(np.abs(n-1) <= 10*tol), mech, what + ": vertices are not on the surface", worst=float(np.nanmax(np.abs(n-1))), c=c, r=r)
    obs.check(np.isclose(U[:, 2].max(), 1, atol=1e-9+10*tol) and np.isclose(U[:, 2].min(), -1, atol=1e-9+10*tol), mech, what + ": a pole is missing")
    return U


def azimuths(U, obs, mech, what, need):
    m = np.hypot(U[:, 0], U[:, 1]) > 1e-6
    az = np.sort(np.arctan2(U[m, 1], U[m, 0]))
    gap = np.max(np.diff(np.concatenate([az, [az[0]+2*np.pi]])))
    obs.check(gap <= need + 1e-6, mech, what + ": part of the surface is missing", gap=gap, allowed=need)
    lat = np.sort(np.arcsin(np.clip(U[:, 2], -1, 1)))
    return float(np.max(np.diff(lat)))


def run(case, obs):
    r, c, n = case["r"], case["c"], case["n"]
    sph = api("get_sphere_coordinates")
    X = sph(r) if c is None else sph(r, c)
    sh = {np.asarray(v).shape for v in X}
    obs.check(len(X) == 3 and len(sh) == 1 and len(next(iter(sh))) == 2, "shape", "sphere coordinates are not three equal grids", shapes=list(sh))
    U = on_surface(np.stack([np.asarray(v).ravel() for v in X], axis=1), r, c, obs, "sphere", "sphere")
    g = azimuths(U, obs, "sphere", "sphere", math.pi/4)
    obs.check(g <= math.pi/4, "sphere", "sphere: latitudes are missing", gap=g)
    obs.count("spheres")
    obs.count("default_center", c is None)
    obs.count("negative_center", c is not None and min(c) < 0)
    ell = api("get_ellipsoid_coordinates")
    kw = {} if case["dn"] else dict(n=n)
    nn = 60 if case["dn"] else n
    X = ell(*case["e"], **kw) if case["ce"] is None else ell(*case["e"], center=case["ce"], **kw)
    obs.check(all(np.asarray(v).shape == (nn, nn) for v in X), "shape", "ellipsoid grid does not have the requested size", shapes=[np.asarray(v).shape for v in X], n=nn)
    U = on_surface(np.stack([np.asarray(v).ravel() for v in X], axis=1), case["e"], case["ce"], obs, "ellipsoid", "ellipsoid") if nn % 1 == 0 else None
    g = azimuths(U, obs, "ellipsoid", "ellipsoid", 2*math.pi/(nn-1))
    obs.check(g <= math.pi/(nn-1)+1e-6, "ellipsoid", "ellipsoid: latitudes are missing", gap=g)
    obs.count("ellipsoids")
    obs.count("meshes")
    # equal axes
    f = plt.figure()
    try:
        d3 = case["dim3"]
        ax = f.add_subplot(projection="3d") if d3 else f.add_subplot()
        api("set_equal_axis")(ax, *case["lims"], **({} if case["scale"] == 1.0 else dict(scale=case["scale"])), **({} if d3 else dict(dim3=False)))
        lim = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if d3 else [])
        R = max(max(v)-min(v) for v in case["lims"])*case["scale"]
        for k, (lo, hi) in enumerate(lim):
            v = case["lims"][k]
            mid = 0.5*(max(v)+min(v))
            tol = 1e-9*(R + abs(mid))
            obs.check(abs(lo-(mid-R/2)) <= tol and abs(hi-(mid+R/2)) <= tol, "limits", "axis limits are not the centred common range", axis=k, got=[lo, hi], want=[mid-R/2, mid+R/2])
            obs.count("flat_axis", max(v) == min(v))
        if d3:
            b = np.asarray(ax._box_aspect if hasattr(ax, "_box_aspect") else [1, 1, 1], dtype=float)
            obs.check(np.ptp(b) <= 1e-9*np.max(b), "limits", "box is not cubic", box=b)
        obs.count("axes3d" if d3 else "axes2d")
        obs.count("scaled", case["scale"] != 1.0)
        if case["draw"]:
            for what, fn, a, rad, cen, k in (("sphere wireframe", "plot_sphere_wireframe", (r,), r, c, None), ("ellipsoid wireframe", "plot_ellipsoid_wireframe", case["e"], case["e"], case["ce"], nn)):
                ax = f.add_subplot(projection="3d")
                kw = {} if cen is None else dict(center=cen)
                if k is not None and not case["dn"]:
                    kw["n"] = k
                api(fn)(ax, *a, **kw)
                seg = [np.asarray(s, dtype=float) for q in ax.collections for s in np.asarray(q._segments3d, dtype=object)]
                if obs.check(len(seg) > 3, "wire", what + " draws nothing", n=len(seg)):
                    on_surface(np.concatenate(seg), rad, cen, obs, "wire", what)
                obs.count(what.replace(" ", "_") + "s")
                ax.remove()
    finally:
        plt.close(f)
