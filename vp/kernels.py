"""Synthetic SPICE kernels (per process, in a scratch directory that is removed at once)"""
import math, os, shutil, tempfile
import numpy as np
import spiceypy as spice

ET0, ET1 = -2.0e8, 2.0e8
_ready = None
GM = {"399": 398600.435436, "301": 4902.800066, "10": 132712440041.939400, "5": 126712764.8}


def body_state(name, et):
    if name == "301":
        a, w, inc = 384400.0, 2*math.pi/(27.3*86400), 0.4
    elif name == "10":
        a, w, inc = 149597870.7, 2*math.pi/(365.25*86400), 0.409
    else:
        a, w, inc = 6.3e8, 2*math.pi/(399*86400.0), 0.38
    c, s = math.cos(w*et), math.sin(w*et)
    ci, si = math.cos(inc), math.sin(inc)
    return np.array([a*c, a*s*ci, a*s*si, -a*w*s, a*w*c*ci, a*w*c*si])


def load():
    """load once per process (SPICE file handles must not be shared over fork)"""
    global _ready
    if _ready == os.getpid():
        return
    spice.kclear()
    d = tempfile.mkdtemp(prefix="vp_spk_")
    try:
        path = os.path.join(d, "syn.bsp")
        h = spice.spkopn(path, "syn", 0)
        for name, nid, step in (("301", 301, 43200.0), ("10", 10, 864000.0), ("5", 5, 1728000.0)):
            ep = np.arange(ET0-8*step, ET1+8*step, step)
            st = np.array([body_state(name, t) for t in ep])
            spice.spkw09(h, nid, 399, "J2000", ET0, ET1, "seg" + name, 7, len(ep), st.tolist(), ep.tolist())
        spice.spkcls(h)
        spice.furnsh(path)
        pck = os.path.join(d, "syn.bpc")
        h = spice.pckopn(pck, "syn", 0)
        # orientation of ITRF93 with respect to J2000: Chebyshev coefficients (degree 1) of three Euler angles over one interval
        mid, rad = 0.0, (ET1-ET0)/2
        rate = 7.2921159e-5
        coef = [[1.3, 2.0e-3], [0.02, 1.0e-3], [0.4, rate*rad]]
        cd = np.array(coef).reshape(-1)
        try:
            spice.pckw02(h, 3000, "J2000", ET0, ET1, "segITRF", 2*rad, 1, 1, cd, ET0)
            ok = True
        except Exception:
            ok = False
        spice.pckcls(h)
        if ok:
            spice.furnsh(pck)
        for k, v in GM.items():
            spice.pdpool("BODY%s_GM" % k, [v])
        spice.pdpool("BODY399_POLE_RA", [11.0, -0.641, 0.0])
        spice.pdpool("BODY399_POLE_DEC", [83.0, -0.557, 0.0])
        spice.pdpool("BODY399_PM", [190.147, 360.9856235, 0.0])
        spice.spkpos("301", 0.0, "J2000", "NONE", "399")
        spice.pxform("J2000", "IAU_EARTH", 0.0)
        global ITRF
        ITRF = ok
        if ok:
            spice.pxform("J2000", "ITRF93", 0.0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _ready = os.getpid()


ITRF = False
