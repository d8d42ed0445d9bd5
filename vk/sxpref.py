"""Independent references for the simpler theories of Spacetrack Report 3: SGP, SGP8 and SDP8 (the lunar-solar and
resonance part of SDP8 is the one of the SDP4 reference). Angles in radians, time in minutes, results in km and km/min."""
from math import sin, cos, sqrt, atan2, pi, fabs
from .sgp4ref import SGP4, SatErr, unkozai, TWOPI, RE, XKE, J2, J3, J4

CK2, CK4 = J2 / 2, -0.375 * J4
A30 = -J3 / CK2
S0 = 1 + 78 / RE
QOMS = ((120 - 78) / RE) ** 4

def solve(u, ax, ay):
    """Generalised Kepler equation E - ax sin E + ay cos E = u, to machine precision."""
    lo, hi = u - 1.5, u + 1.5
    e = u
    for _ in range(200):
        f = e - ax * sin(e) + ay * cos(e) - u
        if f > 0: hi = e
        else: lo = e
        n = e - f / (1 - ax * cos(e) - ay * sin(e))
        if not lo <= n <= hi: n = (lo + hi) / 2
        if abs(n - e) < 1e-15: return n
        e = n
    return e

class SGP:
    def __init__(s, el, ndot2, nddot6):
        """ndot2, nddot6: half the first and a sixth of the second derivative of the mean motion, rad/min^2 and ^3."""
        s.el, s.ndot2, s.nddot6 = el, ndot2, nddot6
        c, e2 = cos(el.incl), el.ecc ** 2
        a1 = (XKE / el.n) ** (2 / 3)
        d = 0.75 * J2 / a1 ** 2 * (3 * c * c - 1) / (1 - e2) ** 1.5
        s.ao = a1 * (1 - d / 3 - d * d - 134 / 81 * d ** 3)
        s.qo = s.ao * (1 - el.ecc)
        po = s.ao * (1 - e2)
        k = 0.75 * J2 * el.n / po ** 2
        s.nodedot, s.argpdot = -2 * k * c, k * (5 * c * c - 1)

    def posvel(s, t):
        el = s.el; ci, si = cos(el.incl), sin(el.incl)
        n = el.n + 2 * s.ndot2 * t + 3 * s.nddot6 * t * t
        if n <= 0: raise SatErr(-2)
        a = s.ao * (el.n / n) ** (2 / 3)
        e = 1 - s.qo / a if a > s.qo else 1e-6
        p = a * (1 - e * e)
        node, argp = el.node + s.nodedot * t, el.argp + s.argpdot * t
        ls = el.ma + el.argp + el.node + (el.n + s.argpdot + s.nodedot) * t + s.ndot2 * t * t + s.nddot6 * t ** 3
        ax = e * cos(argp); ay = e * sin(argp) - J3 / J2 / 2 * si / p
        l = ls - J3 / J2 / 4 / p * ax * si * (3 + 5 * ci) / (1 + ci)
        u = (l - node) % TWOPI
        E = solve(u, ax, ay)
        ec, es, el2 = ax * cos(E) + ay * sin(E), ax * sin(E) - ay * cos(E), ax * ax + ay * ay
        if el2 >= 1: raise SatErr(-1)
        pl = a * (1 - el2); r = a * (1 - ec)
        rd, rvd = XKE * sqrt(a) / r * es, XKE * sqrt(pl) / r
        q = es / (1 + sqrt(1 - el2))
        uu = atan2(sin(E) - ay - ax * q, cos(E) - ax + ay * q)
        s2, c2 = sin(2 * uu), cos(2 * uu)
        rk = r + J2 / 4 / pl * si * si * c2
        uk = uu - J2 / 8 / pl ** 2 * (7 * ci * ci - 1) * s2
        ok = node + 0.75 * J2 / pl ** 2 * ci * s2
        ik = el.incl + 0.75 * J2 / pl ** 2 * si * ci * c2
        M = (-sin(ok) * cos(ik), cos(ok) * cos(ik), sin(ik)); N = (cos(ok), sin(ok), 0)
        U = [m * sin(uk) + x * cos(uk) for m, x in zip(M, N)]; V = [m * cos(uk) - x * sin(uk) for m, x in zip(M, N)]
        return [rk * x * RE for x in U], [(rd * x + rvd * y) * RE for x, y in zip(U, V)]

class SGP8:
    """deep: SDP8."""
    def __init__(s, el, deep=False):
        s.el, s.deep = el, deep
        n, a = unkozai(el.n, el.ecc, el.incl)
        s.n, s.a = n, a
        if deep: s.d = SGP4(el, True)
        e = el.ecc; e2 = e * e; b2 = 1 - e2; be = sqrt(b2); ci, si = cos(el.incl), sin(el.incl); c2 = ci * ci; c4 = c2 * c2
        s.ci, s.si = ci, si
        sg, cg = sin(el.argp), cos(el.argp); sin2g, cos2g = 2 * sg * cg, 2 * cg * cg - 1
        t3, m5, m2 = 3 * c2 - 1, 1 - 5 * c2, 1 - c2
        s.t3, s.m5, s.m2 = t3, m5, m2
        p = a * b2
        q1 = 3 * CK2 / p ** 2 * n; q2 = q1 * CK2 / p ** 2; q4 = 1.25 * CK4 / p ** 4 * n
        s.m1, s.g1, s.h1 = q1 * be * t3 / 2, -q1 * m5 / 2, -q1 * ci
        s.mdot = n + s.m1 + q2 * be * (13 - 78 * c2 + 137 * c4) / 16
        s.argpdot = s.g1 + q2 * (7 - 114 * c2 + 395 * c4) / 16 + q4 * (3 - 36 * c2 + 49 * c4)
        s.nodedot = s.h1 + (q2 * (4 - 19 * c2) / 2 + 2 * q4 * (3 - 7 * c2)) * ci
        tsi = 1 / (p - S0); eta = e * S0 * tsi; h = eta * eta
        if h >= 1: raise SatErr(-9)
        ps = abs(1 / (1 - h)); al = 1 + e2; ee = e * eta
        rho = .15696615; B = 2 * el.bstar / rho
        d5 = tsi * ps; d1 = d5 / p
        d2 = 12 + h * (36 + 4.5 * h); d3 = h * (15 + 2.5 * h); d4 = eta * (5 + 3.75 * h)
        b1, b2_, b3 = CK2 * t3, -CK2 * m2, A30 * si
        c0 = .5 * B * rho * QOMS * n * a * tsi ** 4 * ps ** 3.5 / sqrt(al)
        c1 = 1.5 * n * al ** 2 * c0; k4 = d1 * d3 * b2_; k5 = d5 * d4 * b3
        ndt = c1 * (2 + h * (3 + 34 * e2) + 5 * ee * (4 + h) + 8.5 * e2 + d1 * d2 * b1 + k4 * cos2g + k5 * sg)
        ndn = ndt / n
        s.ndt = ndt
        s.simple = deep or abs(ndn * 1440) < .00216
        if s.simple: s.edot = -2 / 3 * ndn * (1 - e); return
        d6 = eta * (30 + 22.5 * h); d7 = eta * (5 + 12.5 * h); d8 = 1 + h * (6.75 + h)
        k8 = d1 * d7 * b2_; k9 = d5 * d8 * b3
        ed = -c0 * (eta * (4 + h + e2 * (15.5 + 7 * h)) + e * (5 + 15 * h) + d1 * d6 * b1 + k8 * cos2g + k9 * sg)
        d20 = ndn / 3
        ald = e * ed / al
        ts = 2 * a * tsi * (d20 * b2 + e * ed)
        etd = (ed + e * ts) * tsi * S0
        psd = -eta * etd * ps
        c0d = d20 + 4 * ts - ald - 7 * psd; c1d = ndn + 4 * ald + c0d
        d9 = eta * (6 + 68 * e2) + e * (20 + 15 * h); d10 = 5 * eta * (4 + h) + e * (17 + 68 * h)
        d11 = eta * (72 + 18 * h); d12 = eta * (30 + 10 * h); d13 = 5 + 11.25 * h
        d14 = ts - 2 * psd; d15 = 2 * (d20 + e * ed / b2)
        d1t = d1 * (d14 + d15); d2t, d3t, d4t, d5t = etd * d11, etd * d12, etd * d13, d5 * d14
        k4t = b2_ * (d1t * d3 + d1 * d3t); k5t = b3 * (d5t * d4 + d5 * d4t)
        g = s.g1
        d16 = d9 * etd + d10 * ed + b1 * (d1t * d2 + d1 * d2t) + k4t * cos2g + k5t * sg + g * (k5 * cg - 2 * k4 * sin2g)
        ndd = c1d * ndt + c1 * d16
        edd = c0d * ed - c0 * ((4 + 3 * h + 30 * ee + e2 * (15.5 + 21 * h)) * etd + (5 + 15 * h + ee * (31 + 14 * h)) * ed
              + b1 * (d1t * d6 + d1 * etd * (30 + 67.5 * h)) + b2_ * (d1t * d7 + d1 * etd * (5 + 37.5 * h)) * cos2g
              + b3 * (d5t * d8 + d5 * etd * eta * (13.5 + 4 * h)) * sg + g * (k9 * cg - 2 * k8 * sin2g))
        d25 = ed * ed
        d17 = ndd / n - ndn ** 2
        tsd = 2 * ts * (ts - d20) + a * tsi * (2 / 3 * b2 * d17 - 4 * d20 * e * ed + 2 * (d25 + e * edd))
        etdd = (edd + 2 * ed * ts) * tsi * S0 + tsd * eta
        d18 = tsd - ts ** 2
        d19 = -(etd * ps) ** 2 - eta * etdd * ps - psd ** 2
        d23 = etd * etd
        d1dd = d1t * (d14 + d15) + d1 * (d18 - 2 * d19 + 2 / 3 * d17 + 2 * (al * d25 / b2 + e * edd) / b2)
        nt = ndt * (4 / 3 * d17 + 3 * (d25 + e * edd) / al - 6 * ald ** 2 + 4 * d18 - 7 * d19) + c1d * ndd \
            + c1 * (c1d * d16 + d9 * etdd + d10 * edd + d23 * (6 + 30 * ee + 68 * e2) + etd * ed * (40 + 30 * h + 272 * ee)
                    + d25 * (17 + 68 * h) + b1 * (d1dd * d2 + 2 * d1t * d2t + d1 * (etdd * d11 + d23 * (72 + 54 * h)))
                    + b2_ * (d1dd * d3 + 2 * d1t * d3t + d1 * (etdd * d12 + d23 * (30 + 30 * h))) * cos2g
                    + b3 * ((d5t * d14 + d5 * (d18 - 2 * d19)) * d4 + 2 * d4t * d5t + d5 * (etdd * d13 + 22.5 * eta * d23)) * sg
                    + g * ((7 * d20 + 4 * e * ed / b2) * (k5 * cg - 2 * k4 * sin2g)
                           + (2 * k5t * cg - 4 * k4t * sin2g) - g * (k5 * sg + 4 * k4 * cos2g)))
        w = ndd * ndd - ndt * nt
        if w == 0 or ed == 0: raise SatErr(-9)
        pp = 1 + ndd * ndd / w
        s.ga = -nt / (ndd * (pp - 2)); s.nd = ndt / (pp * s.ga); s.qq = 1 - edd / (ed * s.ga); s.ed = ed / (s.qq * s.ga); s.pp = pp
        s.ov = 1 / (s.ga * (pp + 1))

    def posvel(s, t, tper=None, step=720.0):
        el = s.el
        argp, node = el.argp + s.argpdot * t, el.node + s.nodedot * t
        if s.simple:
            n, e, z1 = s.n + s.ndt * t, el.ecc + s.edot * t, s.ndt * t * t / 2
        else:
            w = 1 - s.ga * t
            if w <= 0: raise SatErr(-9)
            try: x, y, z = w ** s.pp, w ** s.qq, w ** (s.pp + 1)
            except OverflowError: raise SatErr(-9)
            n, e = s.n + s.nd * (1 - x), el.ecc + s.ed * (1 - y)
            z1 = s.nd * (t + s.ov * (z - 1))
        z7 = 7 / 3 * z1 / s.n
        m = el.ma + s.mdot * t
        argp += z7 * s.g1; node += z7 * s.h1
        inc, si, ci = el.incl, s.si, s.ci
        if s.deep:
            d = s.d
            e += d.dedt * t; inc += d.didt * t; argp += d.domdt * t; node += d.dnodt * t; m += d.dmdt * t
            if d.irez:
                xl, n = d._dspace(t, step)
                th = d.gsto + t * 4.37526908801129966e-3
                m = xl - 2 * node + 2 * th if d.irez == 2 else xl - node - argp + th
                n += s.ndt * t
        m += z1 + z7 * s.m1
        if s.deep:
            pe, pinc, pl, pgh, ph = d._dpper(t if tper is None else tper)
            inc += pinc; e += pe; m += pl; argp += pgh
            sn, c = sin(inc), cos(inc)
            if el.incl >= 0.2: argp -= c * ph / sn; node += ph / sn
            else:
                so, co = sin(node), cos(node)
                nn = atan2(sn * so + ph * co + pinc * c * so, sn * co - ph * so + pinc * c * co)
                dd = nn - node; dd -= TWOPI * round(dd / TWOPI)
                argp += -pinc * node * sn - c * dd; node += dd
        if n <= 0 or not -.1 < e < 1: raise SatErr(-9)
        s.last_e = e
        si2 = sin(inc / 2); ci2 = cos(el.incl / 2); si2o = sin(el.incl / 2)
        M = m % TWOPI
        E = solve(M, e, 0)
        a = (XKE / n) ** (2 / 3); be = sqrt(1 - e * e); p = a * (1 - e * e)
        z5 = 1 / (1 - e * cos(E))
        sf, cf = be * sin(E) * z5, (cos(E) - e) * z5
        f = atan2(sf, cf) % TWOPI
        if M - f > pi: f += TWOPI
        if f - M > pi: f -= TWOPI
        sfg, cfg = sin(f + argp), cos(f + argp)
        s2, c2 = 2 * sfg * cfg, 2 * cfg * cfg - 1
        G2 = CK2 / 2 / p; G3 = G2 / p; G4 = A30 * s.sio(si) / 4; G5 = A30 / 4 / p
        ax, ay = e * cos(argp), e * sin(argp)
        G10 = f - M + e * sf; ecf = e * cf
        r = p / (1 + ecf); ar = a / r; G13 = n * ar; G14 = -G13 * ar
        dr = G2 * (s.M2(ci) * c2 - 3 * s.T3(ci)) - G4 * sfg
        diw = 3 * G3 * si * c2 - G5 * ay; di = diw * ci
        cc = ci * ci
        du = si2o * (G3 * ((1 - 7 * cc) * s2 / 2 - 3 * s.M5(ci) * G10) - G5 * si * cfg * (2 + ecf)) - G5 / 2 * cc * ax / ci2
        lam = f + argp + node + G3 * ((1 + 6 * ci - 7 * cc) * s2 / 2 - 3 * (s.M5(ci) + 2 * ci) * G10) + G5 * si * (ci * ax / (1 + ci) - (2 + ecf) * cfg)
        y4 = si2 * sfg + cfg * du + sfg * ci2 * di / 2
        y5 = si2 * cfg - sfg * du + cfg * ci2 * di / 2
        rr = r + dr
        rd = n * a * e * sf / be + G14 * (2 * G2 * s.M2(ci) * s2 + G4 * cfg)
        rv = n * a * a * be / r + G14 * dr + a * G13 * si * diw
        sl, cl = sin(lam), cos(lam)
        x = 1 - y4 * y4 - y5 * y5
        if x < 0: raise SatErr(-9)
        A, B_ = 2 * (y5 * sl - y4 * cl), 2 * (y5 * cl + y4 * sl); C = 2 * sqrt(x)
        U = (y4 * A + cl, -y4 * B_ + sl, y4 * C); V = (y5 * A - sl, -y5 * B_ + cl, y5 * C)
        return [rr * q * RE for q in U], [(rd * q + rv * w) * RE for q, w in zip(U, V)]

    # the coefficients of the short-period terms are those of the epoch
    def sio(s, si): return s.si
    def M2(s, ci): return s.m2
    def T3(s, ci): return s.t3
    def M5(s, ci): return s.m5
