"""Independent WGS84 oracles: Vincenty's direct solution, ECEF chords, spherical distance bounds."""
import math

A = 6378137.0
F = 1 / 298.257223563
B = A * (1 - F)


def direct(lat, lon, az, s):
    """Vincenty direct: position reached from (lat, lon) along azimuth az (deg) after s metres."""
    if s == 0:
        return lat, lon
    a1 = math.radians(az)
    sa1, ca1 = math.sin(a1), math.cos(a1)
    tu1 = (1 - F) * math.tan(math.radians(lat))
    cu1 = 1 / math.sqrt(1 + tu1 * tu1)
    su1 = tu1 * cu1
    sig1 = math.atan2(tu1, ca1)
    sina = cu1 * sa1
    c2a = 1 - sina * sina
    u2 = c2a * (A * A - B * B) / (B * B)
    k1 = (math.sqrt(1 + u2) - 1) / (math.sqrt(1 + u2) + 1)
    ca = (1 + k1 * k1 / 4) / (1 - k1)
    cb = k1 * (1 - 3 * k1 * k1 / 8)
    sig = s / (B * ca)
    for _ in range(200):
        c2m = math.cos(2 * sig1 + sig)
        ss, cs = math.sin(sig), math.cos(sig)
        d = cb * ss * (c2m + cb / 4 * (cs * (-1 + 2 * c2m * c2m)
                                       - cb / 6 * c2m * (-3 + 4 * ss * ss) * (-3 + 4 * c2m * c2m)))
        n = s / (B * ca) + d
        if abs(n - sig) < 1e-13:
            sig = n
            break
        sig = n
    c2m = math.cos(2 * sig1 + sig)
    ss, cs = math.sin(sig), math.cos(sig)
    tmp = su1 * ss - cu1 * cs * ca1
    lat2 = math.atan2(su1 * cs + cu1 * ss * ca1, (1 - F) * math.hypot(sina, tmp))
    lam = math.atan2(ss * sa1, cu1 * cs - su1 * ss * ca1)
    c = F / 16 * c2a * (4 + F * (4 - 3 * c2a))
    dl = lam - (1 - c) * F * sina * (sig + c * ss * (c2m + c * cs * (-1 + 2 * c2m * c2m)))
    return math.degrees(lat2), lon + math.degrees(dl)


def ecef(lat, lon):
    la, lo = math.radians(lat), math.radians(lon)
    e2 = F * (2 - F)
    n = A / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return (n * math.cos(la) * math.cos(lo), n * math.cos(la) * math.sin(lo), n * (1 - e2) * math.sin(la))


def chord(p, q):
    return math.dist(ecef(*p), ecef(*q))


def sphere(p, q):
    """Great-circle distance on a mean sphere: within 0.6 % of the ellipsoidal geodesic."""
    a = (math.cos(math.radians(p[0])) * math.cos(math.radians(p[1])), math.cos(math.radians(p[0])) * math.sin(math.radians(p[1])), math.sin(math.radians(p[0])))
    b = (math.cos(math.radians(q[0])) * math.cos(math.radians(q[1])), math.cos(math.radians(q[0])) * math.sin(math.radians(q[1])), math.sin(math.radians(q[0])))
    cr = math.hypot(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return 6371008.8 * math.atan2(cr, a[0] * b[0] + a[1] * b[1] + a[2] * b[2])


def leg_ok(p, q, az, s):
    """Is (az, s) the azimuth and length of the shortest geodesic from p to q?  Returns None or a reason."""
    if not (math.isfinite(az) and math.isfinite(s)) or s < 0:
        return "azimuth %r distance %r" % (az, s)
    d = sphere(p, q)
    if abs(s - d) > 0.006 * d + 1.0:
        return "distance %.1f m, expected about %.1f m" % (s, d)
    if s < 1e-3:
        return None
    # Vincenty's series is good to well under a metre except near antipodes, where s is long
    tol = 2.0 if s < 1.9e7 else 30.0
    c = chord(direct(p[0], p[1], az, s), q)
    if c > tol:
        return "azimuth %.5f distance %.2f m lands %.1f m away from the second point" % (az, s, c)
    return None
