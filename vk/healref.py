"""HEALPix tessellation, written from its geometric definition (Gorski et al. 2005): plane coordinates X = longitude / 90 deg, Y in [-1, 1]."""
from math import sin, sqrt, floor, pi, cos, acos, atan2

def ring_of(ns, p):
    """(ring 1..4ns-1, index in ring 0.., pixels in ring) of a ring pixel number."""
    from math import isqrt
    ncap = 2 * ns * (ns - 1); npix = 12 * ns * ns
    if p < ncap:
        i = (1 + isqrt(1 + 2 * p)) // 2
        return i, p - 2 * i * (i - 1), 4 * i
    if p < npix - ncap:
        q = p - ncap
        return ns + q // (4 * ns), q % (4 * ns), 4 * ns
    q = npix - 1 - p
    i = (1 + isqrt(1 + 2 * q)) // 2
    return 4 * ns - i, 4 * i - 1 - (q - 2 * i * (i - 1)), 4 * i

def ring_num(ns, i, j):
    if i < ns: return 2 * i * (i - 1) + j
    if i <= 3 * ns: return 2 * ns * (ns - 1) + (i - ns) * 4 * ns + j
    k = 4 * ns - i
    return 12 * ns * ns - 2 * k * (k + 1) + j

def nest_xyf(ns, p):
    f, r = divmod(p, ns * ns)
    x = y = b = 0
    while r:
        x |= (r & 1) << b; y |= ((r >> 1) & 1) << b
        r >>= 2; b += 1
    return x, y, f

def face_centre(f):
    """2X, 2Y of a face's centre"""
    if f < 4: return 2 * f + 1, 1
    if f < 8: return 2 * (f - 4), 0
    return 2 * (f - 8) + 1, -1

def nest_to_ring(ns, p):
    """exact, through the plane position of the pixel centre"""
    x, y, f = nest_xyf(ns, p)
    X2, Y2 = face_centre(f)
    # plane coordinates times 2 ns: X = X0 + (x - y)/(2ns), Y = Y0 + (x + y + 1 - ns)/(2ns)
    U = X2 * ns + (x - y); V = Y2 * ns + (x + y + 1 - ns)
    i = 2 * ns - V
    if ns <= i <= 3 * ns:
        # in ring i the longitudes times 2 ns are 2j+1 for even i-ns and 2j for odd
        U %= 8 * ns
        return ring_num(ns, i, (U - (1 - (i - ns) % 2)) // 2)
    k = i if i < ns else 4 * ns - i
    # within the cap: position from the face's axis, shrunk by k/ns
    j = X2 // 2 * k + (U - X2 * ns + k - 1) // 2
    return ring_num(ns, i, j)

def centre(ns, p, nest):
    """plane centre (X, Y), cap axis or None, and sky position (z, sin theta, phi) of a pixel"""
    if nest: p = nest_to_ring(ns, p)
    i, j, n = ring_of(ns, p)
    Y = 1 - i / (2 * ns)
    if ns <= i <= 3 * ns:
        tt = (j + (.5 if (i - ns) % 2 == 0 else 0)) / ns
        z = (2 * ns - i) * 2 / (3 * ns)
        return tt, Y, None, z, sqrt((1 - z) * (1 + z)), tt * pi / 2
    k = i if i < ns else 4 * ns - i
    tt = (j + .5) / k; c = j // k + .5
    t = k * k / (3 * ns * ns)           # 1 - |z|
    z = 1 - t if i < ns else t - 1
    return c + (tt - c) * k / ns, Y, c, z, sqrt(t * (2 - t)), tt * pi / 2

def w4(x): return x - 4 * floor((x + 2) / 4)

def outside(ns, p, nest, z, sigma, tt):
    """how far (in pixel sides) the direction lies outside the pixel; <= 0: inside. sigma = sqrt(3 (1 - |z|)), tt = longitude / 90 deg."""
    X0, Y0, c, *_ = centre(ns, p, nest)
    if abs(z) <= 2 / 3: X, Y = tt, .75 * z
    else:
        if c is None: c = floor(w4(tt - X0) + X0) + .5     # a pixel centred in the equatorial belt: the caps nearest to it
        best = None
        for cc in ((c,) if c != X0 and ns > 1 and abs(Y0) > .5 else (c, c + 1, c - 1)):
            X = cc + w4(tt - cc) * sigma
            if abs(w4(tt - cc)) > .5 + 1e-6 and sigma * ns > 1e-3: continue
            d = abs(w4(X - X0))
            if best is None or d < best[0]: best = (d, X)
        if best is None: return 9.0
        X = best[1]; Y = (1 - sigma / 2) * (1 if z > 0 else -1)
    dx = w4(X - X0); dy = Y - Y0
    return max(abs(dx + dy), abs(dy - dx)) * ns - .5
