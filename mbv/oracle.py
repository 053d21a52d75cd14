"""Independent numeric semantics of the specification's terms.

Nothing here imports refellips.  Formulas are written from the physics
(Fresnel/Airy recursion with wave-vector components, defining equations of the
effective media, published dispersion formulas / Kramers-Kronig integrals),
not from the code under test.
"""
import cmath
import math

import numpy as np
from scipy.integrate import quad
from scipy.special import dawsn

HC = 1239.841984055


# ------------------------------------------------------------- dispersion
def cauchy(A, B, C, wav):
    um = wav / 1000.0
    return complex(A + B / um**2 + C / um**4, 0)


def sellmeier_eps(Am, En, P, Einf, wav):
    um = wav / 1000.0
    return Einf + Am / (1 - (En / um) ** 2) - P * um**2


def lorentz_eps(Am, Br, En, Einf, wav):
    E = HC / wav
    e = complex(Einf)
    for a, b, c in zip(Am, Br, En):
        e += a / complex(c * c - E * E, -b * E)
    return e


def gauss_eps(Am, Br, En, Einf, wav):
    """Analytic Kramers-Kronig partner of a Gaussian pair (Dawson function)."""
    E = HC / wav
    e = complex(Einf)
    for a, b, c in zip(Am, Br, En):
        s = b / (2 * math.sqrt(math.log(2)))
        e2 = a * (math.exp(-(((E - c) / s) ** 2)) - math.exp(-(((E + c) / s) ** 2)))
        e1 = 2 * a / math.sqrt(math.pi) * (dawsn((E + c) / s) - dawsn((E - c) / s))
        e += complex(e1, e2)
    return e


def gauss_periodic_e1(Am, Br, En, Einf, wav, n=200):
    """Same, for the train of images of a 40 eV period sampled on 2048 points."""
    E = HC / wav
    P = 40.0 * 2048 / 2047
    k = np.arange(-n, n + 1) * P
    e = float(Einf)
    for a, b, c in zip(Am, Br, En):
        s = b / (2 * math.sqrt(math.log(2)))
        e += 2 * a / math.sqrt(math.pi) * float(np.sum(dawsn((E + c + k) / s) - dawsn((E - c + k) / s)))
    return e


def tl_e2(a, c, e0, eg, E):
    if E <= eg:
        return 0.0
    return a * e0 * c * (E - eg) ** 2 / ((E * E - e0 * e0) ** 2 + c * c * E * E) / E


def tauclorentz_eps(Am, C, En, Eg, Einf, wav):
    """e2 from its definition, e1 from the Kramers-Kronig integral."""
    E = HC / wav
    e = complex(Einf)
    for a, c, e0 in zip(Am, C, En):
        if a == 0:
            continue
        hi = max(E, e0, Eg) + 10 * c + 20.0

        def f(x):  # integrand without the 1/(x - E) pole
            return x * tl_e2(1.0, c, e0, Eg, x) / (x + E)

        def g(x):
            return x * tl_e2(1.0, c, e0, Eg, x) / (x * x - E * E)

        tot = 0.0
        if E > Eg:
            w = min(E - Eg, 1.0) * 0.9
            lo_, hi_ = E - w, E + w
            tot += quad(f, lo_, hi_, weight="cauchy", wvar=E, limit=200)[0]
            pts = [p for p in (e0 - c, e0, e0 + c) if Eg < p < lo_]
            tot += quad(g, Eg, lo_, points=pts or None, limit=400)[0]
            pts = [p for p in (e0 - c, e0, e0 + c) if hi_ < p < hi]
            tot += quad(g, hi_, hi, points=pts or None, limit=400)[0]
        else:
            pts = [p for p in (e0 - c, e0, e0 + c) if Eg < p < hi]
            tot += quad(g, Eg, hi, points=pts or None, limit=400)[0]
        tot += quad(g, hi, np.inf, limit=400)[0]
        e += complex(2 / math.pi * a * tot, tl_e2(a, c, e0, Eg, E))
    return e


def ri_from_eps(e):
    return cmath.sqrt(complex(e))


# --------------------------------------------------------------------- EMA
def mix_eps(ema, ea, eb, f, L):
    """Permittivity of a mixture, from the defining equations."""
    ea, eb = complex(ea), complex(eb)
    if ema == "linear":
        return ea + f * (eb - ea)
    if ema == "maxwell-garnett":
        # inclusions b (fraction f) in host a:
        # (e - a)/(a + L(e - a)) = f (b - a)/(a + L(b - a))
        den = ea + L * (eb - ea)
        if den == 0:
            raise ZeroDivisionError
        q = f * (eb - ea) / den
        return ea + q * ea / (1 - L * q)
    if ema == "bruggeman":
        # (1-f) (a - e)/(e + L(a - e)) + f (b - e)/(e + L(b - e)) = 0
        # -> (1-L) e^2 - e [a(1-f-L) + b(f-L)] - L a b = 0
        B = ea * (1 - f - L) + eb * (f - L)
        if L == 1:
            return ea * eb / (f * ea + (1 - f) * eb)
        s = cmath.sqrt(B * B + 4 * (1 - L) * L * ea * eb)
        r = [(B + s) / (2 * (1 - L)), (B - s) / (2 * (1 - L))]
        if L == 0:
            return B
        # one root in the closed upper half plane; real media: the positive one
        r.sort(key=lambda z: (z.imag, z.real))
        if abs(r[0].imag - r[1].imag) <= 1e-12 * (abs(r[0]) + abs(r[1])):
            r.sort(key=lambda z: z.real)
        return r[1]
    raise ValueError(ema)


def mix(ema, na, nb, f, L):
    e = mix_eps(ema, complex(na) ** 2, complex(nb) ** 2, f, L)
    n = cmath.sqrt(e)
    if n.imag < -1e-13 or (abs(n.imag) < 1e-13 and n.real < 0):
        n = -n
    return n


# ------------------------------------------------------------------ optics
def reflect_rs_rp(n, d, lam, theta_deg):
    """Airy recursion from the back of the stack to the front.

    n: complex indices (front ... back), d: interior thicknesses, same unit as
    lam.  Returns r_s, r_p with r_p = +r_s... convention of Byrnes: at normal
    incidence r_p = -r_s.
    """
    n = [complex(x) for x in n]
    n[0] = complex(n[0].real, 0.0)
    kx = n[0].real * math.sin(math.radians(theta_deg))
    q = []
    for x in n:
        z = cmath.sqrt(x * x - kx * kx)
        if z.imag < 0 or (abs(z.imag) < 1e-300 and z.real < 0):
            z = -z
        q.append(z)
    out = []
    for pol in "sp":
        def r01(i, j):
            if pol == "s":
                a, b = q[i], q[j]
            else:
                a, b = n[j] ** 2 * q[i], n[i] ** 2 * q[j]
            return (a - b) / (a + b)

        r = r01(len(n) - 2, len(n) - 1)
        for k in range(len(n) - 3, -1, -1):
            ph = cmath.exp(4j * math.pi * q[k + 1] * d[k] / lam)
            rk = r01(k, k + 1)
            r = (rk + r * ph) / (1 + rk * r * ph)
        out.append(r)
    return out[0], out[1]


def psi_delta(n, d_ang, lam_nm, theta_deg, reflect=False, offset=0.0):
    """(psi, delta, conditioning) in degrees; thickness in Angstrom."""
    rs, rp = reflect_rs_rp(n, [x / 10.0 for x in d_ang], lam_nm, theta_deg)
    psi = math.degrees(math.atan2(abs(rp), abs(rs)))
    delta = math.degrees(-cmath.phase(rp / rs)) % 360.0 if rp != 0 else float("nan")
    if reflect and delta > 180:
        delta = 360 - delta
    cond = min(abs(rs), abs(rp))
    return psi, delta + offset, cond


def circ(a, b, period=360.0):
    d = math.fmod(abs(a - b), period)
    return min(d, period - d)
