"""Run-time evaluation of the planar polygon contracts (C26): random planar polygons in any position."""
import math
import numpy as np
from dv.numh import check, close, main
from geotecha.mathematics import geometry as geo

AXES = [np.eye(3)[list(p)] * np.array(s)[:, None] for p in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2))
        for s in ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (-1, -1, 1))]


def outline(rng, k):
    """star-shaped or L-shaped outline in the plane"""
    if k % 3 == 0:
        return [[0, 0], [rng.uniform(2, 4), 0], [2, 1], [1, 1], [1, 3], [0, rng.uniform(2, 3)]]
    n = rng.randint(3, 9)
    th = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n)) if k % 3 == 1 else [2 * math.pi * i / n for i in range(n)]
    return [[rng.uniform(0.5, 3) * math.cos(t), rng.uniform(0.5, 3) * math.sin(t)] for t in th]


def frame(rng, k):
    if k % 4 == 0:
        return AXES[(k // 4) % len(AXES)].tolist()
    if k % 4 == 1:
        # a plane that is nearly, but not quite, square to an axis
        E = AXES[(k // 4) % len(AXES)].astype(float)
        t = 10 ** rng.uniform(-3, -1)
        c, s = math.cos(t), math.sin(t)
        return [(c * E[0] + s * E[2]).tolist(), E[1].tolist(), (c * E[2] - s * E[0]).tolist()]
    q, r = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
    while np.min(np.abs(q[2])) < 0.05 or np.min(np.abs(np.cross(q[0], q[1]))) < 0.05:
        q, r = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
    return q.tolist()


def gen(rng, k):
    p = outline(rng, k)
    if rng.random() < 0.5:
        p = p[::-1]
    j = rng.randint(0, len(p) - 1)
    p = p[j:] + p[:j]
    if rng.random() < 0.3:
        p = p + [p[0]]           # explicitly closed
    return dict(uv=p, frame=frame(rng, k), P=[rng.choice([0, rng.uniform(-5, 5)]) for _ in range(3)])


def exact(uv):
    """area and moments up to second order by fan of triangles"""
    uv = np.array(uv, float)
    A = 0.0
    m1 = np.zeros(2)
    m2 = np.zeros((2, 2))
    o = uv[0]
    for b, c in zip(uv[1:-1], uv[2:]):
        t = 0.5 * ((b - o)[0] * (c - o)[1] - (b - o)[1] * (c - o)[0])
        A += t
        s = o + b + c
        m1 += t * s / 3
        m2 += t / 12 * (np.outer(s, s) + sum(np.outer(q, q) for q in (o, b, c)))
    return A, m1, m2


def setting(uv, frame, P):
    E = np.array(frame, float)
    P = np.array(P, float)
    A, m1, m2 = exact(uv)
    pts = P + np.array(uv, float) @ E[:2]
    m = np.cross(E[0], E[1]) * np.sign(A)
    c = m1 / A
    cov = m2 / A - np.outer(c, c)
    return pts, abs(A), m, P + c @ E[:2], np.einsum('ab,ak,bk->k', cov, E[:2], E[:2])


def ok(uv):
    return abs(exact(uv)[0]) > 0.3


def unchanged(pts, keep, f):
    return None if np.array_equal(pts, keep) else f + ' changes its input'


@check('C26', 'plane', gen)
def plane(uv, frame, P):
    if not ok(uv):
        return
    if uv[0] == uv[-1]:
        uv = uv[:-1]
    pts, A, m, C, I2 = setting(uv, frame, P)
    keep = pts.copy()
    n, d = geo.eqn_of_plane(pts)
    r = close(n, m, 1e-6, 1e-8)
    if r:
        return 'unit normal (right hand rule): ' + r
    r = close(pts @ np.array(n) + d, np.zeros(len(pts)), 1e-6, 1e-7)
    if r:
        return 'vertices lie in the plane n.x + d = 0: ' + r
    return unchanged(pts, keep, 'eqn_of_plane')


@check('C26', 'area centroid and moments', gen)
def integrals(uv, frame, P):
    if not ok(uv):
        return
    pts, A, m, C, I2 = setting(uv, frame, P)
    keep = pts.copy()
    for what, got, want in (('area', geo.polygon_area(pts), A), ('centroid', geo.polygon_centroid(pts), C),
                            ('second moments per unit area', geo.polygon_2nd_moment_of_area(pts), I2)):
        if np.shape(got) != np.shape(want):
            return '%s: shape %s' % (what, np.shape(got))
        r = close(got, want, 1e-5, 1e-6)
        if r:
            return '%s: %s' % (what, r)
    r = close(geo.polygon_area(pts.tolist()), A, 1e-5, 1e-6)
    return r and 'area from a list: ' + r or unchanged(pts, keep, 'polygon functions')


@check('C26', 'two columns', gen)
def flat(uv, frame, P):
    if not ok(uv):
        return
    uv = np.array(uv, float) + np.array(P[:2], float)
    A, m1, m2 = exact(uv)
    c = m1 / A
    I2 = np.diag(m2) / A - c ** 2
    for what, got, want in (('area', geo.polygon_area(uv), abs(A)), ('centroid', geo.polygon_centroid(uv), [c[0], c[1], 0]),
                            ('second moments per unit area', geo.polygon_2nd_moment_of_area(uv), [I2[0], I2[1], 0])):
        r = close(got, want, 1e-5, 1e-6)
        if r:
            return '%s: %s' % (what, r)


if __name__ == '__main__':
    main()
