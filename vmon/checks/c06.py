"""Geodetic conversions and angle helpers on dense and hostile positions, plus the positions computed inside runs."""
import numpy as np
from types import SimpleNamespace as NS
from .. import chain, synth, ref, harness, compare

RULE = ('one case = one (ellipsoid, region, altitude band, call style) batch of positions converted forth and back by '
        'the real functions and compared with an iterative reference; or one batch of vector pairs / angles; or one '
        'run in which the positions of bursts, satellites and surfaces are compared. Every point counts as an event')
ASSUMPTIONS = ['longitude is not compared within a millimetre of the rotation axis, where it has no meaning']

TOL = 2e-2          # the closed formula is exact to a centimetre at satellite altitude


def constants(k, d):
    from dedop.conf import ConstantsFile
    P = synth.default_params()
    if k % 3 == 1:
        P.semi_major_axis, P.flat = 6378136.3, 1 / 298.257
    elif k % 3 == 2:
        P.semi_major_axis, P.flat = 6378388.0, 1 / 297.
    P.semi_minor_axis = P.semi_major_axis * (1 - P.flat)
    return P, ConstantsFile(synth.write_aux(P, d)[1])


def lats(rng, kind, n):
    h = np.pi / 2
    if kind == 'any': return np.arcsin(rng.uniform(-1, 1, n))
    if kind == 'pole':
        d = 10. ** rng.uniform(-16, -2, n)
        d[:4] = [0, 0, 1e-9, 1.6e-7]
        return np.where(rng.random(n) < .5, 1, -1) * (h - d)
    if kind == 'equator':
        d = np.where(rng.random(n) < .5, 1, -1) * 10. ** rng.uniform(-18, -2, n)
        d[:2] = [0., -0.]
        return d
    return np.radians(rng.integers(-90, 91, n).astype(float))


def lons(rng, kind, n):
    if kind == 'date line':
        d = np.where(rng.random(n) < .5, 1, -1) * 10. ** rng.uniform(-16, -2, n)
        x = np.where(rng.random(n) < .5, np.pi, -np.pi) + d
        x[:2] = [np.pi, -np.pi]
        return x
    if kind == 'greenwich': return np.where(rng.random(n) < .5, 1, -1) * 10. ** rng.uniform(-18, -2, n)
    if kind == 'quadrants': return np.radians(90. * rng.integers(-4, 5, n))
    return rng.uniform(-np.pi, 2 * np.pi, n)


def convert(ck, rng, n, rounds):
    from dedop.proc.geo import lla2ecef, ecef2lla
    d = harness.scratch('geo')
    for k in range(rounds):
        P, cst = constants(k, d)
        for la in ('any', 'pole', 'equator', 'degrees'):
            for lo in ('any', 'date line', 'greenwich', 'quadrants'):
                for style in ('array', 'scalar', 'degrees'):
                    m = n if style == 'array' else max(6, n // 12)
                    lat, lon = lats(rng, la, m), lons(rng, lo, m)
                    alt = rng.choice([-1e4, 0., 50., 8e3, 7.2e5, 8.145e5, 1.2e6], m) + rng.uniform(0, 9e3, m) * \
                        rng.integers(0, 2, m)
                    if la == 'any' and k % 4 == 3: lat, lon = np.float64(lat), np.float64(lon)
                    want = ref.lla2ecef(lat, lon, alt, P)
                    with harness.quiet():
                        if style == 'array':
                            xyz = np.stack(lla2ecef((lat, lon, alt), cst), -1)
                            back = np.stack(ecef2lla(tuple(xyz.T.copy()), cst), -1)
                        elif style == 'scalar':
                            xyz = np.array([lla2ecef((float(a), float(b), float(c)), cst)
                                            for a, b, c in zip(lat, lon, alt)], float)
                            back = np.array([ecef2lla(tuple(map(float, v)), cst) for v in xyz], float)
                        else:
                            xyz = np.array([lla2ecef((np.degrees(a), np.degrees(b), c), cst, lla_as_degrees=True)
                                            for a, b, c in zip(lat, lon, alt)], float)
                            back = np.array([ecef2lla(v, cst) for v in xyz], float)
                    desc = dict(lat=la, lon=lo, style=style, a=P.semi_major_axis, round=k, points=m)
                    ck.case(desc)
                    ck.count('points', m)
                    ck.count('points within 1 m of the axis', int((np.hypot(want[:, 0], want[:, 1]) < 1).sum()))
                    e = np.abs(xyz - want).max(-1)
                    b1 = np.abs(back[:, 0] - lat)
                    p = np.hypot(want[:, 0], want[:, 1])
                    b2 = np.where(p > 1e-3, np.abs(compare.angdiff(back[:, 1], lon)), 0.)
                    # angles on the ground: rounding of coordinates of 7e6 m (a few nanometres)
                    b2 = b2 * np.minimum(1, p / 6.3e6)
                    b3 = np.abs(back[:, 2] - alt)
                    for what, v, t in (('Cartesian position', e, 1e-4), ('latitude after the round trip', b1, 3e-9),
                                       ('longitude after the round trip', b2, 1e-12),
                                       ('altitude after the round trip', b3, TOL)):
                        ck.counters['largest error of ' + what] = float(max(
                            ck.counters.get('largest error of ' + what, 0), np.nan_to_num(v, nan=9e9).max()))
                        if not np.all(v <= t):
                            j = int(np.argmax(np.where(np.isnan(v), np.inf, v)))
                            ck.violation('%s off by %g for lat=%r lon=%r alt=%r (%s call, a=%r)' % (
                                what, v[j], float(lat[j]), float(lon[j]), float(alt[j]), style, P.semi_major_axis),
                                desc)
                            if ck.full: return


def cartesian(ck, rng, n, rounds):
    """the other way round: Cartesian positions, many of them next to the axis, to geodetic ones and back"""
    from dedop.proc.geo import ecef2lla
    d = harness.scratch('geo3')
    for k in range(rounds):
        P, cst = constants(k, d)
        p = np.where(rng.random(n) < .7, 10. ** rng.uniform(-9, 2, n), 10. ** rng.uniform(2, np.log10(6.3e6), n))
        az = np.where(rng.random(n) < .3, np.pi / 2 * rng.integers(0, 5, n), rng.uniform(0, 2 * np.pi, n))
        z = np.sqrt(np.maximum(1 - (p / P.semi_major_axis) ** 2, 0)) * P.semi_minor_axis
        r = 1 + rng.choice([0., 1e-4, .1, .13, .19], n)
        xyz = np.array([p * np.cos(az), p * np.sin(az), np.where(rng.random(n) < .5, 1, -1) * z]) * r
        for style in ('array', 'scalar'):
            with harness.quiet():
                if style == 'array': lla = np.array(ecef2lla(tuple(xyz.copy()), cst), float)
                else: lla = np.array([ecef2lla(tuple(map(float, v)), cst) for v in xyz.T], float).T
            e = np.abs(ref.lla2ecef(lla[0], lla[1], lla[2], P) - xyz.T).max(-1)
            ck.case(dict(cartesian=k, style=style, points=n))
            ck.count('Cartesian points', n)
            if not np.all(e <= TOL):
                j = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
                return ck.violation('Cartesian position %r (%s call, a=%r) gives the geodetic position %r, which is %g m '
                                    'away' % (tuple(map(float, xyz.T[j])), style, P.semi_major_axis,
                                              tuple(map(float, lla.T[j])), e[j]), dict(cartesian=k))


def iterative(ck, rng, n, rounds):
    """the iterative variant, away from the poles where it is not meant to converge to the millimetre"""
    try: from dedop.proc.geo.ecef2lla import ecef2lla_iterative as f
    except ImportError: return
    d = harness.scratch('geo2')
    for k in range(rounds):
        P, cst = constants(k, d)
        lat, lon = np.clip(lats(rng, ('any', 'equator', 'degrees')[k % 3], n), -1.53, 1.53), lons(rng, ('any', 'quadrants', 'greenwich')[k % 3], n)
        alt = rng.choice([0., 50., 8e3, 7.2e5, 1.2e6], n)
        for a, b, c in zip(lat, lon, alt):
            x = ref.lla2ecef(np.array([a]), np.array([b]), np.array([c]), P)[0]
            with harness.quiet():
                try: g = f(tuple(map(float, x)), cst)
                except RuntimeWarning: ck.count('iteration does not converge'); continue
            ck.count('iterative conversions')
            if not (abs(g[0] - a) < 1e-7 and abs(compare.angdiff(g[1], b)) < 1e-9 and abs(g[2] - c) < 1e-1):
                return ck.violation('iterative conversion of lat=%r lon=%r alt=%r gives %r' % (a, b, c, g))
        for z in (7e6, -7e6):
            g = f((0., 0., z), cst)
            if not (abs(g[0] - np.sign(z) * np.pi / 2) < 1e-12 and abs(g[2] - (7e6 - P.semi_minor_axis)) < 1e-3):
                return ck.violation('iterative conversion of the axis gives %r' % (g,))
        ck.case(dict(iterative=k))


def angles(ck, rng, rounds):
    from dedop.proc.functions.vectors import angle_between
    from dedop.proc.geo import normalize
    d = harness.scratch('geo')
    P, cst = constants(0, d)
    for k in range(rounds):
        kind = ('any', 'parallel', 'anti', 'near', 'nearanti', 'perp', 'huge', 'tiny')[k % 8]
        for j in range(40):
            u = rng.normal(0, 1, 3)
            v = rng.normal(0, 1, 3)
            f = rng.choice([1, 1 / 3, 7e6, .1, 1e-3, np.pi])
            if kind == 'parallel': v = u * f
            elif kind == 'anti': v = -u * f
            elif kind == 'near': v = u * f + 10. ** rng.uniform(-12, -3) * v
            elif kind == 'nearanti': v = -u * f + 10. ** rng.uniform(-12, -3) * v
            elif kind == 'perp': v = np.cross(u, v)
            elif kind == 'huge': u, v = u * 1e60, v * 1e55
            elif kind == 'tiny': u, v = u * 1e-60, v * 1e-55
            a, b = (u, v) if j % 2 else (np.asmatrix(u).T, np.asmatrix(v).T)
            if j % 5 == 4: a, b = u[:, None], v
            with harness.quiet():
                try:
                    g = float(angle_between(a, b))
                except Exception as e:
                    g = np.nan
            w = float(ref.angle(u, v))
            ck.count('vector pairs')
            # arccos resolves 1.5e-8 rad at its ends
            if not (0 <= g <= np.pi + 1e-15 and abs(g - w) < 5e-8):
                ck.violation('angle between %r and %r is %r, expected %r' % (u.tolist(), v.tolist(), g, w),
                             dict(kind=kind, round=k))
                return
        ck.case(dict(angles=kind, round=k))
    for k in range(rounds * 10):
        n = int(rng.integers(-60, 61))
        x = float(rng.choice([rng.uniform(-np.pi, np.pi), 0., np.pi, -np.pi, np.pi / 2, 1e-12, -1e-12]) +
                  2 * np.pi * n)
        g = float(normalize(x, cst))
        ck.count('angles normalised')
        if not (-np.pi - 1e-12 <= g <= np.pi + 1e-12 and abs(compare.angdiff(g, x)) < 1e-9):
            ck.violation('normalised angle of %r is %r' % (x, g), dict(x=x))
            return
    ck.case(dict(normalize=rounds * 10))


def run(ck):
    rng = np.random.default_rng([ck.seed, 6])
    convert(ck, rng, 240, 24 if ck.thorough else 3)
    cartesian(ck, rng, 200, 24 if ck.thorough else 6)
    angles(ck, rng, 800 if ck.thorough else 80)
    iterative(ck, rng, 200, 12 if ck.thorough else 3)
    # the conversions as the chain uses them
    n = 96 if ck.thorough else 12
    chain.many(ck, 'vmon.chain', 'stage', [(a, b, ('surface',)) for a, b in chain.plan(
        ck, n, themes=('long', 'gaps', 'focus'), off=6)])
