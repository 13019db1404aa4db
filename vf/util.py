import numpy as np


def rand_rot(rng, angle=None):
    """Uniform random rotation, or random axis with bounded angle."""
    if angle is None:
        q = rng.normal(size=4)
        q /= np.linalg.norm(q)
        w, x, y, z = q
        return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                         [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                         [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
    a = rng.normal(size=3)
    a /= np.linalg.norm(a)
    return exp3(a * rng.uniform(-angle, angle))


def skew(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0.0]])


def exp3(w):
    th = np.linalg.norm(w)
    K = skew(w)
    if th < 1e-9:
        return np.eye(3) + K + K @ K / 2
    return np.eye(3) + np.sin(th) / th * K + (1 - np.cos(th)) / th ** 2 * K @ K


def log3(R):
    """Rotation vector, robust up to angles close to pi."""
    c = np.clip((np.trace(R) - 1) / 2, -1, 1)
    v = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2
    s = np.linalg.norm(v)
    th = np.arctan2(s, c)
    if s > 1e-7:
        return v / s * th
    if c > 0:
        return v
    S = (R + np.eye(3)) / 2
    k = int(np.argmax(np.diag(S)))
    a = S[:, k] / np.sqrt(max(S[k, k], 1e-300))
    return a * th


def tf(R=None, p=None):
    T = np.eye(4)
    if R is not None:
        T[:3, :3] = R
    if p is not None:
        T[:3, 3] = p
    return T


def rand_T(rng, scale=1.0, angle=None):
    return tf(rand_rot(rng, angle), rng.uniform(-scale, scale, size=3))


def rz(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def ry(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rx(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def wrap(a):
    return (a + np.pi) % (2 * np.pi) - np.pi


def inv(T):
    Ti = np.eye(4)
    Ti[:3, :3] = T[:3, :3].T
    Ti[:3, 3] = -T[:3, :3].T @ T[:3, 3]
    return Ti


def M2(a, rows=None, cols=None):
    """eigenpy squeezes 1-row/1-col matrices: restore the 2D shape."""
    a = np.asarray(a, dtype=float)
    if a.ndim == 2 and (rows is None or a.shape == (rows, cols)):
        return a
    if rows is not None:
        return a.reshape(rows, cols)
    return np.atleast_2d(a)


def convex_polygon(rng, n=None, center=None, radius=1.0, clockwise=True):
    """Random strictly convex polygon (points on an ellipse), clockwise by default."""
    n = n or int(rng.integers(3, 8))
    while True:
        a = np.sort(rng.uniform(0, 2 * np.pi, n))
        gaps = np.diff(np.append(a, a[0] + 2 * np.pi))
        if gaps.max() < np.pi * 0.95 and gaps.min() > 0.1:
            break
    r = np.array([radius * rng.uniform(0.5, 1.5), radius * rng.uniform(0.5, 1.5)])
    th = rng.uniform(-np.pi, np.pi)
    P = np.stack([r[0] * np.cos(a), r[1] * np.sin(a)], 1) @ rz(th)[:2, :2].T
    if center is not None:
        P = P + np.asarray(center)
    if clockwise:
        P = P[::-1]
    return P.copy()


def poly_margin(P, p):
    """Signed distance (min over edges) of p to the inside of the CLOCKWISE convex polygon P."""
    d = []
    for i in range(len(P)):
        A, B = P[i], P[(i + 1) % len(P)]
        e = B - A
        n = np.array([e[1], -e[0]]) / np.linalg.norm(e)
        d.append(n @ (np.asarray(p) - A))
    return min(d)


def kkt_residual(g, Aeq, Gact):
    """min over mu free, lam>=0 of |g - Aeq' mu - Gact' lam|  (g: gradient of the objective, G x + h >= 0)."""
    from scipy.optimize import nnls
    cols = []
    if Aeq is not None and len(Aeq):
        cols += [Aeq.T, -Aeq.T]
    if Gact is not None and len(Gact):
        cols += [Gact.T]
    if not cols:
        return float(np.linalg.norm(g)), None
    Mx = np.hstack(cols)
    s = np.linalg.norm(Mx, axis=0)
    keep = s > 1e-14
    sol, r = nnls(Mx[:, keep] / s[keep], g, maxiter=max(200, 60 * Mx.shape[1]))
    full = np.zeros(Mx.shape[1])
    full[keep] = sol / s[keep]
    lam = full[-len(Gact):] if Gact is not None and len(Gact) else np.zeros(0)
    return float(r), lam
