"""Reference astronomy: sidereal time, observer, directions, precession, geodesy, Sun, shadow, horizontal coordinates."""
from math import sin, cos, tan, asin, acos, atan2, sqrt, pi, floor, fabs, fmod, hypot, degrees, radians

TWOPI = 2 * pi
D2R = pi / 180
JD_OFF = 2400000.5
J2000 = 2451545.0
ERAD, FLAT = 6378.1366, 3.352819697896193e-3
AU = 149597870.7

def wrap180(d): return d - 360.0 * floor((d + 180.0) / 360.0)
def wrap360(d): return d - 360.0 * floor(d / 360.0)

def gmst_hours(jd_day, jd_frac=0.0):
    """IAU 1982 GMST in [0, 24) h; the instant is the sum of the two parts."""
    d = floor(jd_day + jd_frac - 0.5) + 0.5
    ut = (jd_day - d) + jd_frac
    t = (d - J2000) / 36525.0
    s = (24110.54841 + t * (8640184.812866 + t * (0.093104 - t * 6.2e-6))) / 86400.0 + ut * 1.00273790934
    return 24.0 * (s - floor(s))

def gmst_rad(jd): return gmst_hours(jd) * pi / 12

def observer(jd, lat_deg, lon_deg, ht_m):
    """Geocentric equatorial coordinates of date of the observer, km."""
    a, b = 6378.140, 6356.755
    la = lat_deg * D2R
    n = a * a / hypot(a * cos(la), b * sin(la))
    h = ht_m / 1000.0
    rc = (n + h) * cos(la)
    rs = (n * b * b / (a * a) + h) * sin(la)
    th = gmst_rad(jd) + lon_deg * D2R
    return [rc * cos(th), rc * sin(th), rs]

def radec(v):
    r = sqrt(sum(x * x for x in v))
    return wrap360(degrees(atan2(v[1], v[0]))), degrees(atan2(v[2], hypot(v[0], v[1]))), r

def unit(ra_deg, dec_deg):
    a, d = ra_deg * D2R, dec_deg * D2R
    return [cos(d) * cos(a), cos(d) * sin(a), sin(d)]

def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def norm(a): return sqrt(dot(a, a))
def sub(a, b): return [a[0] - b[0], a[1] - b[1], a[2] - b[2]]

def angle(u, v):
    """Angle between two vectors, degrees (accurate everywhere)."""
    return degrees(atan2(norm(cross(u, v)), dot(u, v)))

def sep(ra1, de1, ra2, de2): return angle(unit(ra1, de1), unit(ra2, de2))

def precess_first_order(jd, ra, dec):
    """First-order reduction from the equinox of date to J2000 (degrees)."""
    t = (jd - J2000) / 36525.0
    m = (3.07496 + 0.00186 * t / 2) / 240.0
    n = (1.33621 - 0.00057 * t / 2) / 240.0
    r = ra * D2R; d = dec * D2R
    ra2 = ra - t * 100 * (m + n * sin(r) * tan(d))
    de2 = dec - t * 100 * n * cos(r)
    if de2 > 90: de2, ra2 = 180 - de2, ra2 + 180
    if de2 < -90: de2, ra2 = -180 - de2, ra2 + 180
    return wrap360(ra2), de2

def precess_matrix(jd):
    """IAU 1976 precession, mean equator of date -> J2000."""
    t = (jd - J2000) / 36525.0
    s = pi / 180 / 3600
    ze = (2306.2181 * t + 0.30188 * t * t + 0.017998 * t ** 3) * s
    z = (2306.2181 * t + 1.09468 * t * t + 0.018203 * t ** 3) * s
    th = (2004.3109 * t - 0.42665 * t * t - 0.041833 * t ** 3) * s
    cz, sz, ct, st, ce, se = cos(z), sin(z), cos(th), sin(th), cos(ze), sin(ze)
    p = [[cz * ct * ce - sz * se, -cz * ct * se - sz * ce, -cz * st],
         [sz * ct * ce + cz * se, -sz * ct * se + cz * ce, -sz * st],
         [st * ce, -st * se, ct]]
    return [[p[j][i] for j in range(3)] for i in range(3)]     # transpose: date -> J2000

def precess_rigorous(jd, u):
    m = precess_matrix(jd)
    return [dot(r, u) for r in m]

def precess_bound(jd, dec_deg):
    """Allowed deviation (degrees on the sky) of a first-order reduction from the rigorous one."""
    t = abs(jd - J2000) / 36525.0
    nt = 0.5567 * t                         # total motion of the pole, degrees
    d = max(90.0 - abs(dec_deg), 1e-9)      # distance from the nearer pole, degrees
    # second-order terms ~ (nT)^2/(2 d); next to the pole the reduction is a rotation by at most ~ nT
    return min(nt * nt / d * 1.2 + 1.5 * (nt * 1.28e0 * D2R) * nt, 2.2 * nt) + 1e-6 + 5e-4 * t

def geodetic(pos, gmst_h):
    """(lat, lon, alt km, theta) of a geocentric position, by a bisection-free closed iteration (Bowring)."""
    a = ERAD; f = FLAT; b = a * (1 - f); e2 = f * (2 - f); ep2 = e2 / (1 - e2)
    r = hypot(pos[0], pos[1])
    u = atan2(pos[2] * a, r * b)
    for _ in range(20):
        phi = atan2(pos[2] + ep2 * b * sin(u) ** 3, r - e2 * a * cos(u) ** 3)
        u2 = atan2(b * sin(phi), a * cos(phi))
        if abs(u2 - u) < 1e-15: break
        u = u2
    n = a / sqrt(1 - e2 * sin(phi) ** 2)
    alt = r * cos(phi) + (pos[2]) * sin(phi) - a * a / n
    theta = degrees(atan2(pos[1], pos[0]))
    return degrees(phi), wrap180(theta - gmst_h * 15.0), alt, theta

def from_geodetic(lat, lon, alt, gmst_h):
    la = lat * D2R
    e2 = FLAT * (2 - FLAT)
    n = ERAD / sqrt(1 - e2 * sin(la) ** 2)
    th = (lon + gmst_h * 15.0) * D2R
    return [(n + alt) * cos(la) * cos(th), (n + alt) * cos(la) * sin(th), (n * (1 - e2) + alt) * sin(la)]

def sun(jd):
    """(ra, dec) degrees, Astronomical Almanac low-precision formulae."""
    n = jd - J2000
    g = (357.528 + 0.9856003 * n) * D2R
    lam = (280.460 + 0.9856474 * n + 1.915 * sin(g) + 0.020 * sin(2 * g)) * D2R
    eps = (23.439 - 4e-7 * n) * D2R
    return wrap360(degrees(atan2(cos(eps) * sin(lam), cos(lam)))), degrees(asin(sin(eps) * sin(lam)))

def sun_vec(jd):
    ra, de = sun(jd)
    return [AU * x for x in unit(ra, de)]

def shadow(pos, s):
    """(blocked, margin km): whether the segment satellite -> Sun meets the spherical Earth; margin = distance of the closest
    approach of the segment from the sphere's surface (negative inside)."""
    d = sub(s, pos)
    l = norm(d); d = [x / l for x in d]
    t = -dot(pos, d)
    t = min(max(t, 0.0), l)
    c = [pos[i] + t * d[i] for i in range(3)]
    m = norm(c) - ERAD
    return m < 0, m

def horizontal(dec_deg, ha_h, lat_deg):
    """(alt, az, parallactic angle) degrees by vectors: no special cases except undefined directions (None)."""
    d, h, l = dec_deg * D2R, ha_h * 15 * D2R, lat_deg * D2R
    # local frame at the observer: x south-pointing meridian in equator plane..., hour-angle frame: x to the meridian, y west, z pole
    o = [cos(d) * cos(h), cos(d) * sin(h), sin(d)]
    zen = [cos(l), 0.0, sin(l)]
    north = [-sin(l), 0.0, cos(l)]
    west = [0.0, 1.0, 0.0]
    up, no, ea = dot(o, zen), dot(o, north), -dot(o, west)
    hor = hypot(no, ea)
    alt = degrees(atan2(up, hor))
    az = wrap360(degrees(atan2(ea, no))) if hor > 1e-12 else None
    # parallactic angle: at the object, from the direction of the pole to the direction of the zenith, positive west of meridian
    en = [-sin(d) * cos(h), -sin(d) * sin(h), cos(d)]      # north on the sky
    ew = [-sin(h), cos(h), 0.0]                            # increasing HA = west
    zn, zw = dot(zen, en), dot(zen, ew)
    pa = degrees(atan2(-zw, zn)) if hypot(zn, zw) > 1e-12 else None
    return alt, az, pa

def plane_sep(ra, de, ra0, de0):
    return hypot(wrap180(ra - ra0), de - de0)

# ---------------------------------------------------------------- state vectors ('H' sets)
def lunar_solar(jd, coarse=False):
    """Truncated Meeus positions of Moon and Sun, metres, ecliptic."""
    t = (jd - J2000) / 36525.0
    r = D2R
    lp = (218.3164477 + 481267.88123421 * t) * r
    mp = (134.9633964 + 477198.8675055 * t) * r
    ls = (280.46646 + 36000.76983 * t) * r
    ms = (357.5291092 + 35999.0502909 * t) * r
    f = (93.2720950 + 483202.0175233 * t) * r
    d = (297.8501921 + 445267.1114034 * t) * r
    lon = lp + r * (6.288774 * sin(mp) + 1.274027 * sin(2 * d - mp) + 0.658314 * sin(2 * d) + 0.213618 * sin(2 * mp)
                    - (0.1850 if coarse else 0.185116) * sin(ms) - 0.114332 * sin(2 * f))
    lat = r * (5.128122 * sin(f) + 0.280602 * sin(mp + f) + 0.277693 * sin(mp - f) + 0.173237 * sin(2 * d - f))
    rm = 385000560.0 - 20905355.0 * cos(mp) - 3699111.0 * cos(2 * d - mp) - 2955968.0 * cos(2 * d) - (0.0 if coarse else 569925.0 * cos(2 * mp))
    sl = ls + 1.914602 * r * sin(ms)
    rs = 1.495978707e11 * (1 - 0.016708634 * cos(ms))
    return ([rm * cos(lat) * cos(lon), rm * cos(lat) * sin(lon), rm * sin(lat)], [rs * cos(sl), rs * sin(sl), 0.0])

SE, CE = 0.397777155931913701597, 0.917482062069181825744
def eq2ecl(v): return [v[0], v[1] * CE + v[2] * SE, v[2] * CE - v[1] * SE]
def ecl2eq(v): return [v[0], v[1] * CE - v[2] * SE, v[2] * CE + v[1] * SE]

def _acc(jd, p, coarse=False):
    moon, sn = lunar_solar(jd, coarse)
    r = norm(p)
    a = [-3.9860044e14 / r ** 3 * x for x in p]
    for o, gm in ((moon, 4.902798e12), (sn, 1.3271243994e20)):
        d = sub(o, p); dd = norm(d) ** 3; oo = norm(o) ** 3
        for i in range(3): a[i] += gm * (d[i] / dd - o[i] / oo)
    return a

def high(epoch, r, v, dt_days, step, coarse=False):
    """Position and velocity (equatorial, km and km/min) after dt_days, RK4 with the given maximum step (days)."""
    y = eq2ecl(r) + eq2ecl(v)
    jd = epoch
    left = dt_days
    f = lambda jd, y: y[3:] + _acc(jd, y[:3], coarse)
    while left != 0:
        h = max(-step, min(step, left)); s = h * 86400.0
        k1 = f(jd, y)
        k2 = f(jd + h / 2, [a + s / 2 * b for a, b in zip(y, k1)])
        k3 = f(jd + h / 2, [a + s / 2 * b for a, b in zip(y, k2)])
        k4 = f(jd + h, [a + s * b for a, b in zip(y, k3)])
        y = [a + s / 6 * (p + 2 * q + 2 * w + z) for a, p, q, w, z in zip(y, k1, k2, k3, k4)]
        jd += h; left -= h
    return [x / 1000 for x in ecl2eq(y[:3])], [x * 0.06 for x in ecl2eq(y[3:])]
