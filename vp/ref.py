"""Independent reference model of the physics and of the documented control law.

Everything is vectorised over leading axes and (where derivatives are taken) safe for complex-step
differentiation.  Nothing here imports pyqlaw.
"""
import numpy as np

TWOPI = 2*np.pi


def wrap_pi(x):
    """equivalent angle in [-pi, pi]"""
    x = np.asarray(x)
    return x - TWOPI*np.round(np.real(x)/TWOPI)


def angdiff(a, b):
    return wrap_pi(np.asarray(a) - np.asarray(b))


# ----------------------------------------------------------------------------- Cartesian maps
def kep2sv(oe, mu):
    a, e, i, O, w, v = np.moveaxis(np.asarray(oe), -1, 0)
    p = a*(1 - e*e)
    r = p/(1 + e*np.cos(v))
    u = w + v
    cO, sO, ci, si = np.cos(O), np.sin(O), np.cos(i), np.sin(i)
    cu, su, cw, sw = np.cos(u), np.sin(u), np.cos(w), np.sin(w)
    rx = r*(cO*cu - sO*su*ci)
    ry = r*(sO*cu + cO*su*ci)
    rz = r*(su*si)
    k = np.sqrt(mu/p)
    vx = -k*(cO*(su + e*sw) + sO*(cu + e*cw)*ci)
    vy = -k*(sO*(su + e*sw) - cO*(cu + e*cw)*ci)
    vz = k*(cu + e*cw)*si
    return np.stack([rx, ry, rz, vx, vy, vz], axis=-1)


def mee2sv(oe, mu):
    p, f, g, h, k, L = np.moveaxis(np.asarray(oe), -1, 0)
    al2 = h*h - k*k
    s2 = 1 + h*h + k*k
    c, s = np.cos(L), np.sin(L)
    w = 1 + f*c + g*s
    r = p/w
    rx = r/s2*(c + al2*c + 2*h*k*s)
    ry = r/s2*(s - al2*s + 2*h*k*c)
    rz = 2*r/s2*(h*s - k*c)
    q = np.sqrt(mu/p)
    vx = -q/s2*(s + al2*s - 2*h*k*c + g - 2*f*h*k + al2*g)
    vy = -q/s2*(-c + al2*c + 2*h*k*s - f + 2*g*h*k + al2*f)
    vz = 2*q/s2*(h*c + k*s + f*h + g*k)
    return np.stack([rx, ry, rz, vx, vy, vz], axis=-1)


def meea2mee(oe):
    oe = np.array(oe)
    oe[..., 0] = oe[..., 0]*(1 - oe[..., 1]**2 - oe[..., 2]**2)
    return oe


def meea2sv(oe, mu):
    return mee2sv(meea2mee(oe), mu)


def to_sv(et, oe, mu):
    return kep2sv(oe, mu) if et == "keplerian" else meea2sv(oe, mu)


def kep2mee(oe):
    a, e, i, O, w, v = np.moveaxis(np.asarray(oe, dtype=float), -1, 0)
    t = np.tan(i/2)
    return np.stack([a*(1-e*e), e*np.cos(O+w), e*np.sin(O+w), t*np.cos(O), t*np.sin(O), O+w+v], axis=-1)


def kep2meea(oe):
    m = kep2mee(oe)
    m[..., 0] = np.asarray(oe, dtype=float)[..., 0]
    return m


def evec_hvec(sv, mu):
    r, v = sv[..., :3], sv[..., 3:]
    h = np.cross(r, v)
    rn = np.linalg.norm(r, axis=-1)[..., None]
    e = ((np.sum(v*v, axis=-1)[..., None] - mu/rn)*r - np.sum(r*v, axis=-1)[..., None]*v)/mu
    return e, h


def rtn(sv):
    r, v = sv[..., :3], sv[..., 3:]
    er = r/np.linalg.norm(r, axis=-1)[..., None]
    h = np.cross(r, v)
    en = h/np.linalg.norm(h, axis=-1)[..., None]
    return np.stack([er, np.cross(en, er), en], axis=-2)     # rows


def oe_rates_physical(kind, oe, acc_rtn, mu):
    """doe/dt of one state by pulling the Cartesian derivative back through the (complex-step) Jacobian."""
    fn = {"keplerian": kep2sv, "mee": mee2sv, "mee_with_a": meea2sv}[kind]
    oe = np.asarray(oe, dtype=float)
    J = np.zeros((6, 6))
    for j in range(6):
        z = oe.astype(complex)
        z[j] += 1e-200j
        J[:, j] = fn(z, mu).imag/1e-200
    sv = fn(oe, mu)
    A = rtn(sv).T @ acc_rtn
    rn = np.linalg.norm(sv[:3])
    d = np.concatenate([sv[3:], -mu*sv[:3]/rn**3 + A])
    # row/column scaling keeps the solve well conditioned
    sc = np.array([rn]*3 + [np.linalg.norm(sv[3:])]*3)
    cs = np.maximum(np.linalg.norm(J/sc[:, None], axis=0), 1e-300)
    x = np.linalg.solve(J/sc[:, None]/cs, d/sc)
    return x/cs, np.linalg.cond(J/sc[:, None]/cs)


# ----------------------------------------------------------------------------- Gauss coefficients
def gauss(et, oe, mu):
    """psi (...,6,3) and drift of the fast angle (...,) for 'keplerian', 'mee', 'mee_with_a'."""
    oe = np.asarray(oe, dtype=float)
    z = np.zeros(oe.shape[:-1])
    if et == "keplerian":
        a, e, i, O, w, v = np.moveaxis(oe, -1, 0)
        p = a*(1-e*e)
        h = np.sqrt(mu*p)
        r = p/(1+e*np.cos(v))
        c, s = np.cos(v), np.sin(v)
        u = w + v
        rows = [
            [2*a*a/h*e*s, 2*a*a/h*p/r, z],
            [p*s/h, ((p+r)*c + r*e)/h, z],
            [z, z, r*np.cos(u)/h],
            [z, z, r*np.sin(u)/(h*np.sin(i))],
            [-p*c/(e*h), (p+r)*s/(e*h), -r*np.sin(u)*np.cos(i)/(h*np.sin(i))],
            [p*c/(e*h), -(p+r)*s/(e*h), z]]
        drift = h/r**2
    else:
        x0, f, g, hh, k, L = np.moveaxis(oe, -1, 0)
        e2 = f*f+g*g
        p = x0*(1-e2) if et == "mee_with_a" else x0
        a = p/(1-e2)
        c, s = np.cos(L), np.sin(L)
        w = 1 + f*c + g*s
        q = np.sqrt(p/mu)
        b = hh*s - k*c
        s2 = 1+hh*hh+k*k
        if et == "mee_with_a":
            first = [2*a*a/np.sqrt(mu*p)*(f*s-g*c), 2*a*a/np.sqrt(mu*p)*w, z]
        else:
            first = [z, 2*p/w*q, z]
        rows = [first,
            [q*s, q/w*((w+1)*c+f), -g*q/w*b],
            [-q*c, q/w*((w+1)*s+g), f*q/w*b],
            [z, z, q*s2/(2*w)*c],
            [z, z, q*s2/(2*w)*s],
            [z, z, q/w*b]]
        drift = np.sqrt(mu*p)*(w/p)**2
    psi = np.stack([np.stack(np.broadcast_arrays(*r_), axis=-1) for r_ in rows], axis=-2)
    return psi, drift


# ----------------------------------------------------------------------------- Lyapunov function
LAW_KEYS = ("rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp")
LAW_DEFAULT = dict(rpmin=0.1, k_petro=1.0, m_petro=3.0, n_petro=4.0, r_petro=2.0, b_petro=0.01, wp=1.0)


def _cabs(x):
    return np.where(np.real(x) < 0, -x, x)


def oedot_max(et, oe, mu, f, b_petro):
    if et == "keplerian":
        a, e, i, O, w, _ = np.moveaxis(np.asarray(oe), -1, 0)
        p = a*(1-e*e)
        h = np.sqrt(mu*p)
        ci, si, cw, sw = np.cos(i), np.sin(i), np.cos(w), np.sin(w)
        adot = 2*f*np.sqrt(a**3*(1+e)/(mu*(1-e)))
        edot = 2*p*f/h
        idot = p*f/(h*(np.sqrt(1-e*e*sw*sw) - e*_cabs(cw)))
        odot = p*f/(h*si*(np.sqrt(1-e*e*cw*cw) - e*_cabs(sw)))
        A = (1-e*e)/(2*e**3)
        t1 = (A + np.sqrt(A*A + 1/27))**(1/3)
        cx = t1 - 1/(3*t1) - 1/e
        rxx = p/(1+e*cx)
        wi = f/(e*h)*np.sqrt(p*p*cx*cx + (p+rxx)**2*(1-cx*cx))
        wo = odot*_cabs(ci)
        wdot = (wi + b_petro*wo)/(1+b_petro)
        return [adot, edot, idot, odot, wdot]
    a, ff, g, h, k, _ = np.moveaxis(np.asarray(oe), -1, 0)
    e = np.sqrt(ff*ff + g*g)
    p = a*(1-ff*ff-g*g)
    q = np.sqrt(p/mu)
    s2 = 1+h*h+k*k
    return [2*f*a*np.sqrt(a/mu)*np.sqrt((1+e)/(1-e)), 2*f*q, 2*f*q,
            0.5*f*q*s2/(np.sqrt(1-g*g)+ff), 0.5*f*q*s2/(np.sqrt(1-ff*ff)+g)]


def qfun(et, oe, oeT, mu, f, woe, law):
    oe = np.asarray(oe)
    a = oe[..., 0]
    if et == "keplerian":
        e = oe[..., 1]
        d = [a-oeT[0], e-oeT[1], oe[..., 2]-oeT[2], wrap_pi(oe[..., 3]-oeT[3]), wrap_pi(oe[..., 4]-oeT[4])]
    else:
        e = np.sqrt(oe[..., 1]**2 + oe[..., 2]**2)
        d = [oe[..., j]-oeT[j] for j in range(5)]
    rp = a*(1-e)
    P = np.exp(law["k_petro"]*(1 - rp/law["rpmin"]))
    S = (1 + (_cabs(a-oeT[0])/(law["m_petro"]*oeT[0]))**law["n_petro"])**(1/law["r_petro"])
    od = oedot_max(et, oe, mu, f, law["b_petro"])
    tot = 0
    for j in range(5):
        tot = tot + woe[j]*(S if j == 0 else 1.0)*(d[j]/od[j])**2
    return (1 + law["wp"]*P)*tot


def qgrad(et, oe, oeT, mu, f, woe, law):
    oe = np.asarray(oe, dtype=float)
    G = np.zeros(oe.shape[:-1]+(5,))
    h = 1e-150
    for j in range(5):
        z = oe.astype(complex)
        z[..., j] += 1j*h
        G[..., j] = np.imag(qfun(et, z, oeT, mu, f, woe, law))/h
    return G


def law_eval(et, oe, oeT, mu, f, woe, law):
    """Q, grad, D (...,3) = dQ/d(acceleration), psi"""
    with np.errstate(all="ignore"):
        q = np.real(qfun(et, np.asarray(oe, dtype=float), oeT, mu, f, woe, law))
        G = qgrad(et, oe, oeT, mu, f, woe, law)
        psi, drift = gauss(et, oe, mu)
        D = np.einsum("...j,...jk->...k", G, psi[..., :5, :])
    return q, G, D, psi, drift


def thrust_dir(alpha, beta):
    return np.stack([np.cos(beta)*np.sin(alpha), np.cos(beta)*np.cos(alpha), np.sin(beta)], axis=-1)


# ----------------------------------------------------------------------------- one propagation step
def fast_rate(et, oe, mu, acc):
    psi, drift = gauss(et, oe, mu)
    return drift + psi[5] @ acc


def step_frozen(et, oe, mu, acc, dt, integrator):
    """One RK step with the five slow Gauss rows held at the start of the step (control and coefficient columns are
    held over the step), the fast-angle row evaluated at the stages."""
    psi, _ = gauss(et, oe, mu)
    slow = psi[:5] @ acc

    def rhs(y):
        return np.concatenate([slow, [fast_rate(et, y, mu, acc)]])
    return rk_step(lambda t, y: rhs(y), 0.0, dt, np.asarray(oe, dtype=float), integrator)[0]


RKF_A = [[], [1/4], [3/32, 9/32], [1932/2197, -7200/2197, 7296/2197], [439/216, -8, 3680/513, -845/4104],
         [-8/27, 2, -3544/2565, 1859/4104, -11/40]]
RKF_C = [0, 1/4, 3/8, 12/13, 1, 1/2]
RKF_B4 = [25/216, 0, 1408/2565, 2197/4104, -1/5, 0]
RKF_B5 = [16/135, 0, 6656/12825, 28561/56430, -9/50, 2/55]


def rk_step(f, t, h, y, integrator):
    if integrator == "rk4":
        k1 = f(t, y); k2 = f(t+h/2, y+h/2*k1); k3 = f(t+h/2, y+h/2*k2); k4 = f(t+h, y+h*k3)
        return y + h/6*(k1+2*k2+2*k3+k4), None
    ks = []
    for i in range(6):
        yi = y.copy()
        for j, c in enumerate(RKF_A[i]):
            yi = yi + h*c*ks[j]
        ks.append(f(t+RKF_C[i]*h, yi))
    y4 = y + h*sum(b*k for b, k in zip(RKF_B4, ks))
    y5 = y + h*sum(b*k for b, k in zip(RKF_B5, ks))
    return y4, y5


# ----------------------------------------------------------------------------- anomaly
def ecc_of(et, oe):
    oe = np.asarray(oe)
    return oe[..., 1] if et == "keplerian" else np.hypot(oe[..., 1], oe[..., 2])


def true_anom(et, oe):
    oe = np.asarray(oe)
    return oe[..., 5] if et == "keplerian" else oe[..., 5] - np.arctan2(oe[..., 2], oe[..., 1])


def ecc_anom(et, oe):
    e, v = ecc_of(et, oe), true_anom(et, oe)
    return np.arctan2(np.sqrt(1-e*e)*np.sin(v), e + np.cos(v))


def sundman_dt(et, oe, dE, mu):
    """Keplerian time for the eccentric anomaly to change by dE."""
    e, E = ecc_of(et, oe), ecc_anom(et, oe)
    return (dE - e*(np.sin(E+dE) - np.sin(E)))*np.sqrt(np.asarray(oe)[..., 0]**3/mu)


def meea2kep(x):
    """Keplerian elements of [a, f, g, h, k, L] (one row or many)"""
    x = np.asarray(x, dtype=float)
    a, f, g, h, k, L = np.moveaxis(x, -1, 0)
    lp = np.arctan2(g, f)
    O = np.arctan2(k, h)
    return np.stack([a, np.hypot(f, g), 2*np.arctan(np.hypot(h, k)), O, lp-O, L-lp], axis=-1)
