"""Independent reference for the SGP4 / SDP4 theories (structured after the published 2006 revision of STR#3, WGS-72),
written without looking at the program's own arrangement of the equations.

Angles in radians, time in minutes, results in km and km/min.
"""
from math import sin, cos, sqrt, atan2, pi, fabs, fmod, floor

TWOPI = 2 * pi
RE = 6378.135
XKE = 0.0743669161331734132
J2, J3, J4 = 0.001082616, -0.00000253881, -0.00000165597
J3OJ2 = J3 / J2
X2O3 = 2.0 / 3.0

class SatErr(Exception):
    def __init__(s, code): s.code = code

def gstime(jd):
    """IAU 1982 GMST in radians."""
    d = floor(jd - 0.5) + 0.5
    ut = jd - d
    t = (d - 2451545.0) / 36525.0
    s = 24110.54841 + t * (8640184.812866 + t * (0.093104 - t * 6.2e-6))
    s = s / 86400.0 + 1.00273790934 * ut
    return TWOPI * (s - floor(s))

class Elements:
    """Decoded elements: epoch (JD), bstar, incl, node, ecc, argp, ma, n (rad/min)."""
    __slots__ = ("epoch", "bstar", "incl", "node", "ecc", "argp", "ma", "n")
    def __init__(s, epoch, bstar, incl, node, ecc, argp, ma, n):
        s.epoch, s.bstar, s.incl, s.node, s.ecc, s.argp, s.ma, s.n = epoch, bstar, incl, node, ecc, argp, ma, n

def unkozai(n, ecc, incl):
    """(recovered mean motion, semi-major axis)."""
    c2 = cos(incl) ** 2
    b2 = 1.0 - ecc * ecc
    ak = (XKE / n) ** X2O3
    d1 = 0.75 * J2 * (3.0 * c2 - 1.0) / (sqrt(b2) * b2)
    d = d1 / (ak * ak)
    adel = ak * (1.0 - d * d - d * (1.0 / 3.0 + 134.0 * d * d / 81.0))
    d = d1 / (adel * adel)
    return n / (1.0 + d), adel / (1.0 - d)

def period_minutes(n, ecc, incl):
    return TWOPI / unkozai(n, ecc, incl)[0]

class SGP4:
    def __init__(self, el, deep=None):
        self.el = el
        no, ao = unkozai(el.n, el.ecc, el.incl)
        self.no, self.ao = no, ao
        self.deep = (TWOPI / no >= 225.0) if deep is None else deep
        e = el.ecc
        self.eccsq = e * e
        omeosq = 1.0 - self.eccsq
        self.omeosq = omeosq
        rteosq = sqrt(omeosq)
        self.rteosq = rteosq
        cosio, sinio = cos(el.incl), sin(el.incl)
        self.cosio, self.sinio = cosio, sinio
        c2 = cosio * cosio
        con42 = 1.0 - 5.0 * c2
        self.con41 = -con42 - c2 - c2
        rp = ao * (1.0 - e)
        perige = (rp - 1.0) * RE
        sfour = 78.0 / RE + 1.0
        qz = ((120.0 - 78.0) / RE) ** 4
        if perige < 156.0:
            s4 = perige - 78.0
            if perige < 98.0 or s4 < 20.0: s4 = 20.0
            qz = ((120.0 - s4) / RE) ** 4
            sfour = s4 / RE + 1.0
        posq = ao * omeosq
        pinvsq = 1.0 / (posq * posq)
        tsi = 1.0 / (ao - sfour)
        eta = ao * e * tsi
        self.eta = eta
        etasq, eeta = eta * eta, e * eta
        psisq = fabs(1.0 - etasq)
        coef = qz * tsi ** 4
        coef1 = coef / psisq ** 3.5
        cc2 = coef1 * no * (ao * (1.0 + 1.5 * etasq + eeta * (4.0 + etasq))
                            + 0.375 * J2 * tsi / psisq * self.con41 * (8.0 + 3.0 * etasq * (8.0 + etasq)))
        self.cc1 = el.bstar * cc2
        cc3 = 0.0
        if e > 1.0e-4:
            cc3 = -2.0 * coef * tsi * J3OJ2 * no * sinio / e
        x1mth2 = 1.0 - c2
        self.cc4 = 2.0 * no * coef1 * ao * omeosq * (
            eta * (2.0 + 0.5 * etasq) + e * (0.5 + 2.0 * etasq)
            - J2 * tsi / (ao * psisq) * (-3.0 * self.con41 * (1.0 - 2.0 * eeta + etasq * (1.5 - 0.5 * eeta))
                                         + 0.75 * x1mth2 * (2.0 * etasq - eeta * (1.0 + etasq)) * cos(2.0 * el.argp)))
        self.cc5 = 2.0 * coef1 * ao * omeosq * (1.0 + 2.75 * (etasq + eeta) + eeta * etasq)
        c4 = c2 * c2
        t1 = 1.5 * J2 * pinvsq * no
        t2 = 0.5 * t1 * J2 * pinvsq
        t3 = -0.46875 * J4 * pinvsq * pinvsq * no
        self.mdot = no + 0.5 * t1 * rteosq * self.con41 + 0.0625 * t2 * rteosq * (13.0 - 78.0 * c2 + 137.0 * c4)
        self.argpdot = -0.5 * t1 * con42 + 0.0625 * t2 * (7.0 - 114.0 * c2 + 395.0 * c4) + t3 * (3.0 - 36.0 * c2 + 49.0 * c4)
        xhdot1 = -t1 * cosio
        self.nodedot = xhdot1 + (0.5 * t2 * (4.0 - 19.0 * c2) + 2.0 * t3 * (3.0 - 7.0 * c2)) * cosio
        self.omgcof = el.bstar * cc3 * cos(el.argp)
        self.xmcof = -X2O3 * coef * el.bstar / eeta if e > 1.0e-4 else 0.0
        self.nodecf = 3.5 * omeosq * xhdot1 * self.cc1
        self.t2cof = 1.5 * self.cc1
        self.delmo = (1.0 + eta * cos(el.ma)) ** 3
        self.sinmao = sin(el.ma)
        self.isimp = rp < 220.0 / RE + 1.0
        if self.deep:
            self.isimp = True
            self._dsinit()
        if not self.isimp:
            q = self.cc1 * self.cc1
            self.d2 = 4.0 * ao * tsi * q
            t = self.d2 * tsi * self.cc1 / 3.0
            self.d3 = (17.0 * ao + sfour) * t
            self.d4 = 0.5 * t * ao * tsi * (221.0 * ao + 31.0 * sfour) * self.cc1
            self.t3cof = self.d2 + 2.0 * q
            self.t4cof = 0.25 * (3.0 * self.d3 + self.cc1 * (12.0 * self.d2 + 10.0 * q))
            self.t5cof = 0.2 * (3.0 * self.d4 + 12.0 * self.cc1 * self.d3 + 6.0 * self.d2 ** 2
                                + 15.0 * q * (2.0 * self.d2 + q))

    # ---- deep space
    def _dscom(self):
        el = self.el
        ZES, ZEL = 0.01675, 0.05490
        C1SS, C1L = 2.9864797e-6, 4.7968065e-7
        snodm, cnodm = sin(el.node), cos(el.node)
        sinomm, cosomm = sin(el.argp), cos(el.argp)
        sinim, cosim = self.sinio, self.cosio
        nm, em, emsq, betasq, rtemsq = self.no, el.ecc, self.eccsq, self.omeosq, self.rteosq
        day = el.epoch - 2415020.0
        xnodce = fmod(4.5236020 - 9.2422029e-4 * day, TWOPI)
        stem, ctem = sin(xnodce), cos(xnodce)
        zcosil = 0.91375164 - 0.03568096 * ctem
        zsinil = sqrt(1.0 - zcosil * zcosil)
        zsinhl = 0.089683511 * stem / zsinil
        zcoshl = sqrt(1.0 - zsinhl * zsinhl)
        gam = 5.8351514 + 0.0019443680 * day
        zx = 0.39785416 * stem / zsinil
        zy = zcoshl * ctem + 0.91744867 * zsinhl * stem
        zx = gam + atan2(zx, zy) - xnodce
        zcosgl, zsingl = cos(zx), sin(zx)
        self.zmol = fmod(4.7199672 + 0.22997150 * day - gam, TWOPI)
        self.zmos = fmod(6.2565837 + 0.017201977 * day, TWOPI)
        bodies = ((C1SS, ZES, 0.1945905, -0.98088458, 0.91744867, 0.39785416, cnodm, snodm),
                  (C1L, ZEL, zcosgl, zsingl, zcosil, zsinil, zcoshl * cnodm + zsinhl * snodm, snodm * zcoshl - cnodm * zsinhl))
        out = []
        for cc, ze, zcosg, zsing, zcosi, zsini, zcosh, zsinh in bodies:
            a1 = zcosg * zcosh + zsing * zcosi * zsinh
            a3 = -zsing * zcosh + zcosg * zcosi * zsinh
            a7 = -zcosg * zsinh + zsing * zcosi * zcosh
            a8 = zsing * zsini
            a9 = zsing * zsinh + zcosg * zcosi * zcosh
            a10 = zcosg * zsini
            a2 = cosim * a7 + sinim * a8
            a4 = cosim * a9 + sinim * a10
            a5 = -sinim * a7 + cosim * a8
            a6 = -sinim * a9 + cosim * a10
            x1 = a1 * cosomm + a2 * sinomm
            x2 = a3 * cosomm + a4 * sinomm
            x3 = -a1 * sinomm + a2 * cosomm
            x4 = -a3 * sinomm + a4 * cosomm
            x5, x6, x7, x8 = a5 * sinomm, a6 * sinomm, a5 * cosomm, a6 * cosomm
            z31 = 12.0 * x1 * x1 - 3.0 * x3 * x3
            z32 = 24.0 * x1 * x2 - 6.0 * x3 * x4
            z33 = 12.0 * x2 * x2 - 3.0 * x4 * x4
            z1 = 3.0 * (a1 * a1 + a2 * a2) + z31 * emsq
            z2 = 6.0 * (a1 * a3 + a2 * a4) + z32 * emsq
            z3 = 3.0 * (a3 * a3 + a4 * a4) + z33 * emsq
            z11 = -6.0 * a1 * a5 + emsq * (-24.0 * x1 * x7 - 6.0 * x3 * x5)
            z12 = -6.0 * (a1 * a6 + a3 * a5) + emsq * (-24.0 * (x2 * x7 + x1 * x8) - 6.0 * (x3 * x6 + x4 * x5))
            z13 = -6.0 * a3 * a6 + emsq * (-24.0 * x2 * x8 - 6.0 * x4 * x6)
            z21 = 6.0 * a2 * a5 + emsq * (24.0 * x1 * x5 - 6.0 * x3 * x7)
            z22 = 6.0 * (a4 * a5 + a2 * a6) + emsq * (24.0 * (x2 * x5 + x1 * x6) - 6.0 * (x4 * x7 + x3 * x8))
            z23 = 6.0 * a4 * a6 + emsq * (24.0 * x2 * x6 - 6.0 * x4 * x8)
            z1 = z1 + z1 + betasq * z31
            z2 = z2 + z2 + betasq * z32
            z3 = z3 + z3 + betasq * z33
            s3 = cc / nm
            s2 = -0.5 * s3 / rtemsq
            s4 = s3 * rtemsq
            s1 = -15.0 * em * s4
            s5 = x1 * x3 + x2 * x4
            s6 = x2 * x3 + x1 * x4
            s7 = x2 * x4 - x1 * x3
            out.append(dict(ze=ze, s1=s1, s2=s2, s3=s3, s4=s4, s5=s5, s6=s6, s7=s7, z1=z1, z2=z2, z3=z3, z11=z11, z12=z12,
                            z13=z13, z21=z21, z22=z22, z23=z23, z31=z31, z32=z32, z33=z33,
                            e2=2.0 * s1 * s6, e3=2.0 * s1 * s7, i2=2.0 * s2 * z12, i3=2.0 * s2 * (z13 - z11),
                            l2=-2.0 * s3 * z2, l3=-2.0 * s3 * (z3 - z1), l4=-2.0 * s3 * (-21.0 - 9.0 * emsq) * ze,
                            gh2=2.0 * s4 * z32, gh3=2.0 * s4 * (z33 - z31), gh4=-18.0 * s4 * ze,
                            h2=-2.0 * s2 * z22, h3=-2.0 * s2 * (z23 - z21)))
        return out

    def _dsinit(self):
        el = self.el
        self.sol, self.lun = self._dscom()
        self.gsto = gstime(el.epoch)
        ZNS, ZNL = 1.19459e-5, 1.5835218e-4
        tot = [0.0] * 5
        for b, zn in ((self.sol, ZNS), (self.lun, ZNL)):
            es = b["s1"] * zn * b["s5"]
            is_ = b["s2"] * zn * (b["z11"] + b["z13"])
            ls = -zn * b["s3"] * (b["z1"] + b["z3"] - 14.0 - 6.0 * self.eccsq)
            ghs = b["s4"] * zn * (b["z31"] + b["z33"] - 6.0)
            hs = -zn * b["s2"] * (b["z21"] + b["z23"])
            if el.incl < 5.2359877e-2 or el.incl == pi and self.sinio == 0.0: hs = 0.0
            if self.sinio != 0.0: hs /= self.sinio
            tot[0] += es; tot[1] += is_; tot[2] += ls; tot[3] += ghs - self.cosio * hs; tot[4] += hs
        self.dedt, self.didt, self.dmdt, self.domdt, self.dnodt = tot
        n, e, cosim, sinim = self.no, el.ecc, self.cosio, self.sinio
        self.irez = 0
        if 0.0034906585 < n < 0.0052359877: self.irez = 1
        if 8.26e-3 <= n <= 9.24e-3 and e >= 0.5: self.irez = 2
        if not self.irez: return
        RPTIM = 4.37526908801129966e-3
        aonv = (n / XKE) ** X2O3
        theta = self.gsto
        if self.irez == 2:
            cosisq = cosim * cosim
            eoc = e * self.eccsq
            emsq = self.eccsq
            g201 = -0.306 - (e - 0.64) * 0.440
            if e <= 0.65:
                g211 = 3.616 - 13.2470 * e + 16.2900 * emsq
                g310 = -19.302 + 117.3900 * e - 228.4190 * emsq + 156.5910 * eoc
                g322 = -18.9068 + 109.7927 * e - 214.6334 * emsq + 146.5816 * eoc
                g410 = -41.122 + 242.6940 * e - 471.0940 * emsq + 313.9530 * eoc
                g422 = -146.407 + 841.8800 * e - 1629.014 * emsq + 1083.4350 * eoc
                g520 = -532.114 + 3017.977 * e - 5740.032 * emsq + 3708.2760 * eoc
            else:
                g211 = -72.099 + 331.819 * e - 508.738 * emsq + 266.724 * eoc
                g310 = -346.844 + 1582.851 * e - 2415.925 * emsq + 1246.113 * eoc
                g322 = -342.585 + 1554.908 * e - 2366.899 * emsq + 1215.972 * eoc
                g410 = -1052.797 + 4758.686 * e - 7193.992 * emsq + 3651.957 * eoc
                g422 = -3581.690 + 16178.110 * e - 24462.770 * emsq + 12422.520 * eoc
                if e > 0.715:
                    g520 = -5149.66 + 29936.92 * e - 54087.36 * emsq + 31324.56 * eoc
                else:
                    g520 = 1464.74 - 4664.75 * e + 3763.64 * emsq
            if e < 0.7:
                g533 = -919.22770 + 4988.6100 * e - 9064.7700 * emsq + 5542.21 * eoc
                g521 = -822.71072 + 4568.6173 * e - 8491.4146 * emsq + 5337.524 * eoc
                g532 = -853.66600 + 4690.2500 * e - 8624.7700 * emsq + 5341.4 * eoc
            else:
                g533 = -37995.780 + 161616.52 * e - 229838.20 * emsq + 109377.94 * eoc
                g521 = -51752.104 + 218913.95 * e - 309468.16 * emsq + 146349.42 * eoc
                g532 = -40023.880 + 170470.89 * e - 242699.48 * emsq + 115605.82 * eoc
            sini2 = sinim * sinim
            f220 = 0.75 * (1.0 + 2.0 * cosim + cosisq)
            f221 = 1.5 * sini2
            f321 = 1.875 * sinim * (1.0 - 2.0 * cosim - 3.0 * cosisq)
            f322 = -1.875 * sinim * (1.0 + 2.0 * cosim - 3.0 * cosisq)
            f441 = 35.0 * sini2 * f220
            f442 = 39.3750 * sini2 * sini2
            f522 = 9.84375 * sinim * (sini2 * (1.0 - 2.0 * cosim - 5.0 * cosisq)
                                      + 0.33333333 * (-2.0 + 4.0 * cosim + 6.0 * cosisq))
            f523 = sinim * (4.92187512 * sini2 * (-2.0 - 4.0 * cosim + 10.0 * cosisq)
                            + 6.56250012 * (1.0 + 2.0 * cosim - 3.0 * cosisq))
            f542 = 29.53125 * sinim * (2.0 - 8.0 * cosim + cosisq * (-12.0 + 8.0 * cosim + 10.0 * cosisq))
            f543 = 29.53125 * sinim * (-2.0 - 8.0 * cosim + cosisq * (12.0 + 8.0 * cosim - 10.0 * cosisq))
            t1 = 3.0 * n * n * aonv * aonv
            t = t1 * 1.7891679e-6
            self.d2201, self.d2211 = t * f220 * g201, t * f221 * g211
            t1 *= aonv
            t = t1 * 3.7393792e-7
            self.d3210, self.d3222 = t * f321 * g310, t * f322 * g322
            t1 *= aonv
            t = 2.0 * t1 * 7.3636953e-9
            self.d4410, self.d4422 = t * f441 * g410, t * f442 * g422
            t1 *= aonv
            t = t1 * 1.1428639e-7
            self.d5220, self.d5232 = t * f522 * g520, t * f523 * g532
            t = 2.0 * t1 * 2.1765803e-9
            self.d5421, self.d5433 = t * f542 * g521, t * f543 * g533
            self.xlamo = el.ma + el.node + el.node - theta - theta
            self.xfact = self.mdot + self.dmdt + 2.0 * (self.nodedot + self.dnodt - RPTIM) - n
        else:
            emsq = self.eccsq
            g200 = 1.0 + emsq * (-2.5 + 0.8125 * emsq)
            g310 = 1.0 + 2.0 * emsq
            g300 = 1.0 + emsq * (-6.0 + 6.60937 * emsq)
            f220 = 0.75 * (1.0 + cosim) ** 2
            f311 = 0.9375 * sinim * sinim * (1.0 + 3.0 * cosim) - 0.75 * (1.0 + cosim)
            f330 = 1.875 * (1.0 + cosim) ** 3
            d1 = 3.0 * n * n * aonv * aonv
            self.del2 = 2.0 * d1 * f220 * g200 * 1.7891679e-6
            self.del3 = 3.0 * d1 * f330 * g300 * 2.2123015e-7 * aonv
            self.del1 = d1 * f311 * g310 * 2.1460748e-6 * aonv
            self.xlamo = el.ma + el.node + el.argp - theta
            self.xfact = self.mdot + (self.argpdot + self.nodedot) - RPTIM + self.dmdt + self.domdt + self.dnodt - n

    def _dspace(self, t, step=720.0):
        """Resonance integration from epoch: (mean longitude-like angle, n)."""
        FASX2, FASX4, FASX6 = 0.13130908, 2.8843198, 0.37448087
        G22, G32, G44, G52, G54 = 5.7686396, 0.95240898, 1.8014998, 1.0508330, 4.4108898
        el = self.el
        at, xni, xli = 0.0, self.no, self.xlamo
        delt = step if t > 0 else -step
        while True:
            if self.irez == 1:
                xndt = self.del1 * sin(xli - FASX2) + self.del2 * sin(2.0 * (xli - FASX4)) + self.del3 * sin(3.0 * (xli - FASX6))
                xldot = xni + self.xfact
                xnddt = self.del1 * cos(xli - FASX2) + 2.0 * self.del2 * cos(2.0 * (xli - FASX4)) \
                    + 3.0 * self.del3 * cos(3.0 * (xli - FASX6))
                xnddt *= xldot
            else:
                xomi = el.argp + self.argpdot * at
                x2omi, x2li = xomi + xomi, xli + xli
                xndt = (self.d2201 * sin(x2omi + xli - G22) + self.d2211 * sin(xli - G22)
                        + self.d3210 * sin(xomi + xli - G32) + self.d3222 * sin(-xomi + xli - G32)
                        + self.d4410 * sin(x2omi + x2li - G44) + self.d4422 * sin(x2li - G44)
                        + self.d5220 * sin(xomi + xli - G52) + self.d5232 * sin(-xomi + xli - G52)
                        + self.d5421 * sin(xomi + x2li - G54) + self.d5433 * sin(-xomi + x2li - G54))
                xldot = xni + self.xfact
                xnddt = (self.d2201 * cos(x2omi + xli - G22) + self.d2211 * cos(xli - G22)
                         + self.d3210 * cos(xomi + xli - G32) + self.d3222 * cos(-xomi + xli - G32)
                         + self.d5220 * cos(xomi + xli - G52) + self.d5232 * cos(-xomi + xli - G52)
                         + 2.0 * (self.d4410 * cos(x2omi + x2li - G44) + self.d4422 * cos(x2li - G44)
                                  + self.d5421 * cos(xomi + x2li - G54) + self.d5433 * cos(-xomi + x2li - G54)))
                xnddt *= xldot
            if fabs(t - at) < step:
                ft = t - at
                nm = xni + xndt * ft + xnddt * ft * ft * 0.5
                xl = xli + xldot * ft + xndt * ft * ft * 0.5
                return xl, nm
            xli += xldot * delt + xndt * step * step * 0.5
            xni += xndt * delt + xnddt * step * step * 0.5
            at += delt

    def _dpper(self, t):
        def terms(b, zm):
            zf = zm + 2.0 * b["ze"] * sin(zm)
            s = sin(zf)
            f2 = 0.5 * s * s - 0.25
            f3 = -0.5 * s * cos(zf)
            return (b["e2"] * f2 + b["e3"] * f3, b["i2"] * f2 + b["i3"] * f3, b["l2"] * f2 + b["l3"] * f3 + b["l4"] * s,
                    b["gh2"] * f2 + b["gh3"] * f3 + b["gh4"] * s, b["h2"] * f2 + b["h3"] * f3)
        a = terms(self.sol, self.zmos + 1.19459e-5 * t)
        c = terms(self.lun, self.zmol + 1.5835218e-4 * t)
        return [x + y for x, y in zip(a, c)]

    def mean(self, t, tper=None, step=720.0):
        """Mean elements at t (minutes): em, a, inclination, node, argp, xl (mean longitude)."""
        el = self.el
        xmdf = el.ma + self.mdot * t
        argpm = el.argp + self.argpdot * t
        t2 = t * t
        nodem = el.node + self.nodedot * t + self.nodecf * t2
        mm = xmdf
        tempa = 1.0 - self.cc1 * t
        tempe = el.bstar * self.cc4 * t
        templ = self.t2cof * t2
        if not self.isimp:
            tmp = self.omgcof * t + self.xmcof * ((1.0 + self.eta * cos(xmdf)) ** 3 - self.delmo)
            mm = xmdf + tmp
            argpm -= tmp
            tempa -= self.d2 * t2 + self.d3 * t2 * t + self.d4 * t2 * t2
            tempe += el.bstar * self.cc5 * (sin(mm) - self.sinmao)
            templ += self.t3cof * t2 * t + t2 * t2 * (self.t4cof + t * self.t5cof)
        nm, em, inclm = self.no, el.ecc, el.incl
        if self.deep:
            em += self.dedt * t
            inclm += self.didt * t
            argpm += self.domdt * t
            nodem += self.dnodt * t
            mm += self.dmdt * t
            if self.irez:
                xl, nm = self._dspace(t, step)
                th = self.gsto + t * 4.37526908801129966e-3
                mm = xl - nodem - nodem + 2.0 * th if self.irez == 2 else xl - nodem - argpm + th
            if nm < 0.0: raise SatErr(-5)
            a = (XKE / nm) ** X2O3 * tempa * tempa
            em -= tempe
            mm += self.no * templ
            pe, pinc, pl, pgh, ph = self._dpper(t if tper is None else tper)
            inclm += pinc
            em += pe
            mm += pl
            argpm += pgh
            s, c = sin(inclm), cos(inclm)
            if el.incl >= 0.2:
                argpm -= c * ph / s
                nodem += ph / s
            else:
                so, co = sin(nodem), cos(nodem)
                al = s * so + ph * co + pinc * c * so
                be = s * co - ph * so + pinc * c * co
                nn = atan2(al, be)
                d = nn - nodem
                d -= TWOPI * round(d / TWOPI)
                argpm += -pinc * nodem * s - c * d
                nodem += d
        else:
            if tempa < 0.0: raise SatErr(-2)
            a = self.ao * tempa * tempa
            em -= tempe
            if em < 1.0e-6: em = 1.0e-6
            mm += self.no * templ
        return em, a, inclm, nodem, argpm, mm + argpm + nodem

    def posvel(self, t, tper=None, step=720.0):
        """(pos km, vel km/min); raises SatErr."""
        em, a, inc, node, argp, xl = self.mean(t, tper, step)
        sinip, cosip = (sin(inc), cos(inc)) if self.deep else (self.sinio, self.cosio)
        # the long-period periodics are divided by the sine of the perturbed inclination: rounding grows without bound where it passes 180 degrees
        self.blur = 3e-5 / max(fabs(sinip), 1e-12) if self.deep and self.el.incl >= 0.2 else 0.0
        axnl = em * cos(argp)
        t = 1.0 / (a * (1.0 - em * em))
        aynl = em * sin(argp) + t * (-0.5 * J3OJ2 * sinip)
        den = 1.0 + cosip if fabs(1.0 + cosip) > 1.5e-12 else 1.5e-12
        xlcof = -0.25 * J3OJ2 * sinip * (3.0 + 5.0 * cosip) / den
        u0 = xl + t * xlcof * axnl - node
        u0 = u0 - TWOPI * floor(u0 / TWOPI)
        el2 = axnl * axnl + aynl * aynl
        if el2 > 1.0 - 1e-6: raise SatErr(-1)
        self.last_el2, self.last_a = el2, a
        # Kepler: bisection-safeguarded Newton (f is monotone since el2 < 1)
        lo, hi = u0 - 1.0, u0 + 1.0
        eo = u0
        for _ in range(200):
            f = eo - axnl * sin(eo) + aynl * cos(eo) - u0
            if f > 0: hi = eo
            else: lo = eo
            fd = 1.0 - axnl * cos(eo) - aynl * sin(eo)
            ne = eo - f / fd
            if not lo <= ne <= hi: ne = 0.5 * (lo + hi)
            if fabs(ne - eo) < 1e-15: eo = ne; break
            eo = ne
        s, c = sin(eo), cos(eo)
        ecose, esine = axnl * c + aynl * s, axnl * s - aynl * c
        pl = a * (1.0 - el2)
        rl = a * (1.0 - ecose)
        rdotl = sqrt(a) * esine / rl
        rvdotl = sqrt(pl) / rl
        betal = sqrt(1.0 - el2)
        q = esine / (1.0 + betal)
        sinu = a / rl * (s - aynl - axnl * q)
        cosu = a / rl * (c - axnl + aynl * q)
        su = atan2(sinu, cosu)
        sin2u, cos2u = 2.0 * cosu * sinu, 1.0 - 2.0 * sinu * sinu
        t = 1.0 / pl
        t1 = 0.5 * J2 * t
        t2 = t1 * t
        c2 = cosip * cosip
        con41, x1mth2, x7thm1 = 3.0 * c2 - 1.0, 1.0 - c2, 7.0 * c2 - 1.0
        mrt = rl * (1.0 - 1.5 * t2 * betal * con41) + 0.5 * t1 * x1mth2 * cos2u
        su -= 0.25 * t2 * x7thm1 * sin2u
        xnode = node + 1.5 * t2 * cosip * sin2u
        xinc = inc + 1.5 * t2 * cosip * sinip * cos2u
        xn = 1.0 / a ** 1.5
        mvt = rdotl - xn * t1 * x1mth2 * sin2u
        rvdot = rvdotl + xn * t1 * (x1mth2 * cos2u + 1.5 * con41)
        ssu, csu = sin(su), cos(su)
        sn, cn = sin(xnode), cos(xnode)
        si, ci = sin(xinc), cos(xinc)
        xmx, xmy = -sn * ci, cn * ci
        ux, uy, uz = xmx * ssu + cn * csu, xmy * ssu + sn * csu, si * ssu
        vx, vy, vz = xmx * csu - cn * ssu, xmy * csu - sn * ssu, si * csu
        k = XKE * RE
        return ([mrt * ux * RE, mrt * uy * RE, mrt * uz * RE],
                [k * (mvt * ux + rvdot * vx), k * (mvt * uy + rvdot * vy), k * (mvt * uz + rvdot * vz)])
