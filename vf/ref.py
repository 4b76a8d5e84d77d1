"""Reference models in plain numpy/scipy, written from the definitions, not from the code under test."""
import itertools
import math

import numpy as np
from scipy.spatial import ConvexHull, HalfspaceIntersection
from scipy.optimize import linprog
from scipy.spatial.transform import Rotation

TWO_PI = 2 * math.pi


def rot(axis, phi):
    """Rotation matrix about a unit axis (quaternion route)."""
    axis = np.asarray(axis, float)
    return Rotation.from_rotvec(axis / np.linalg.norm(axis) * phi).as_matrix()


def rotvec_matrix(v):
    return Rotation.from_rotvec(np.asarray(v, float)).as_matrix()


def move(motion, x, t):
    """motion: dict(axis, angle, translation, origin); rotate about the origin point, then translate."""
    o = np.asarray(motion["origin"], float)
    R = rot(motion["axis"], motion["angle"] * t)
    return (np.asarray(x, float) - o) @ R.T + o + np.asarray(motion["translation"], float) * t


# ---------------------------------------------------------------- lattice
def metric(cell):
    a, b, c, al, be, ga = cell
    al, be, ga = np.radians([al, be, ga])
    return np.array([
        [a * a, a * b * math.cos(ga), a * c * math.cos(be)],
        [a * b * math.cos(ga), b * b, b * c * math.cos(al)],
        [a * c * math.cos(be), b * c * math.cos(al), c * c]])


def b_matrix(cell):
    """Upper triangular B with positive diagonal and B^T B = (2 pi)^2 inv(metric)."""
    return np.linalg.cholesky(TWO_PI**2 * np.linalg.inv(metric(cell))).T


def strained_b(cell, strain_lab, U):
    """B with deformation gradient F = B0 inv(B) upper triangular and F^T F = 1 + 2 eps(crystal)."""
    eps = U.T @ strain_lab @ U
    F = np.linalg.cholesky(np.eye(3) + 2 * eps).T
    return np.linalg.solve(F, b_matrix(cell))


def hkl_box(cell, stl_max):
    """All integer hkl (without 000) with sin(theta)/lambda <= stl_max, and their stl."""
    g = metric(cell)
    n = [int(math.floor(2 * stl_max * math.sqrt(g[i, i]) + 1e-9)) + 1 for i in range(3)]
    H = np.array(list(itertools.product(*[range(-m, m + 1) for m in n])), dtype=int).reshape(-1, 3)
    H = H[np.any(H != 0, axis=1)]
    gi = np.linalg.inv(g)
    stl = 0.5 * np.sqrt(np.einsum("ni,ij,nj->n", H, gi, H))
    keep = stl <= stl_max
    return H[keep], stl[keep]


def absent(H, rot_ops, trans):
    """Systematic absences: the symmetry operations that map h to itself disagree in phase."""
    out = np.zeros(len(H), bool)
    R = np.asarray(rot_ops, float)
    t = np.asarray(trans, float)
    for i, h in enumerate(H):
        hR = np.einsum("k,skj->sj", h, R)
        same = np.all(np.abs(hR - h) < 1e-6, axis=1)
        s = np.exp(2j * math.pi * (t[same] @ h)).sum()
        out[i] = abs(s) < 1e-3 * same.sum()
    return out


# ---------------------------------------------------------------- Laue crossings
def laue_crossings(k, axis, dw, G, tol=1e-7):
    """Crossings of |k + R(t) G| = |k| for t in [0, 1].

    Returns a list of (t, sure). Crossings closer to the ends of the interval or to tangency than the
    numerical resolution are not sure: the code may report them or not.
    """
    k, axis, G = (np.asarray(v, float) for v in (k, axis, G))
    par = axis * (axis @ G)
    A = k @ (G - par)
    B = k @ np.cross(axis, G)
    C = k @ par + 0.5 * (G @ G)
    rho = math.hypot(A, B)
    scale = np.linalg.norm(k) * np.linalg.norm(G)
    if rho <= 1e-9 * scale:
        return None  # the condition does not depend on time
    c = -C / rho
    if abs(c) > 1 + tol:
        return []
    phi0 = math.atan2(B, A)
    tangent = abs(c) > 1 - tol
    half = math.acos(max(-1.0, min(1.0, c)))
    out = []
    for s in ((half, -half) if half > 0 else (half,)):
        phi = (phi0 + s) % TWO_PI
        if phi > TWO_PI - 1e-6 * 1.0:
            phi -= TWO_PI
        t = phi / dw
        edge = 1e-7 / dw + 1e-9
        if -edge <= t <= 1 + edge:
            # resolution of the angle grows towards tangency
            slope = max(math.sqrt(max(0.0, 1 - c * c)), 1e-9)
            res = 1e-11 / slope / dw + 1e-10
            sure = (not tangent) and (t > max(res, 0) + 1e-10) and (t < 1 - res - 1e-10)
            out.append((t, sure))
    return out


def match_times(expected, got, tol):
    """None if got is a valid report of the expected crossings, else a message."""
    got = sorted(got)
    exp = sorted(expected)
    used = [False] * len(got)
    for t, sure in exp:
        if not sure:
            continue
        best = [j for j in range(len(got)) if not used[j] and abs(got[j] - t) <= tol]
        if not best:
            return "crossing at t=%.12g is missing, reported %s" % (t, got)
        used[min(best, key=lambda j: abs(got[j] - t))] = True
    for j, t in enumerate(got):
        if used[j]:
            continue
        if not any((not s) and abs(t - u) <= max(tol, 1e-3) for u, s in exp):
            return "crossing at t=%.12g was invented, expected %s" % (t, [u for u, _ in exp])
    return None


# ---------------------------------------------------------------- convex geometry
def halfspaces(points):
    """A, b with A x <= b for the convex hull of the points."""
    eq = ConvexHull(points).equations
    return eq[:, :3], -eq[:, 3]


def inside_margin(points, x):
    """Positive inside: smallest distance of x, shape (n, 3), to the hull faces."""
    A, b = halfspaces(points)
    return np.min(b[None, :] - np.atleast_2d(x) @ A.T, axis=1)


def clip_volume(P, Q):
    """Volume of the intersection of two convex hulls, and the radius of its inscribed sphere."""
    A1, b1 = halfspaces(P)
    A2, b2 = halfspaces(Q)
    A, b = np.vstack([A1, A2]), np.r_[b1, b2]
    c0 = P.mean(axis=0)
    s = max(np.ptp(P, axis=0).max(), 1e-300)
    bb = (b - A @ c0) / s
    n = np.linalg.norm(A, axis=1)
    r = linprog([0, 0, 0, -1], A_ub=np.c_[A, n], b_ub=bb, bounds=[(None, None)] * 3 + [(0, None)], method="highs")
    if r.status != 0 or r.x[3] < 1e-9:
        return 0.0, 0.0
    V = HalfspaceIntersection(np.c_[A, -bb], r.x[:3]).intersections
    return ConvexHull(V).volume * s**3, r.x[3] * s


def line_clip(points, x0, d):
    """Length of the line x0 + s d (d unit) inside the convex hull of the points; shape (n,)."""
    A, b = halfspaces(points)
    out = []
    for p in np.atleast_2d(x0):
        lo, hi = -np.inf, np.inf
        for a, c in zip(A, b):
            den, numr = a @ d, c - a @ p
            if abs(den) < 1e-14:
                if numr < 0:
                    lo, hi = 1.0, 0.0
                continue
            if den > 0:
                hi = min(hi, numr / den)
            else:
                lo = max(lo, numr / den)
        out.append(max(0.0, hi - lo))
    return np.array(out)


def tet_volume(P):
    return abs(np.linalg.det(P[1:] - P[0])) / 6.0


def supports(P):
    """Centre and radius of the smallest sphere through every 2, 3 and 4 of the points."""
    for m in range(2, len(P) + 1):
        for S in itertools.combinations(range(len(P)), m):
            Q = P[list(S)]
            M = 2 * (Q[1:] - Q[0])
            rhs = ((Q[1:] - Q[0]) ** 2).sum(axis=1)
            y, _, rank, _ = np.linalg.lstsq(M, rhs, rcond=None)
            if rank < m - 1:
                continue
            c = Q[0] + y
            yield c, np.linalg.norm(Q[0] - c)


def min_sphere(P):
    """Centre and radius of the smallest sphere around 2, 3 or 4 points (all supports tried)."""
    P = np.asarray(P, float)
    best = (None, np.inf)
    s = np.abs(P - P.mean(axis=0)).max()
    for c, r in supports(P):
        if r < best[1] and np.all(np.linalg.norm(P - c, axis=1) <= r + 1e-9 * s):
            best = (c, r)
    return best


def sphere_spread(P, slack=2e-4):
    """How far the centre may lie from that of the smallest sphere, when spheres which leave the points out
    by a share `slack` of their radius pass as bounding spheres (near ties between the supports)."""
    P = np.asarray(P, float)
    c0, r0 = min_sphere(P)
    far = [0.0]
    for c, r in supports(P):
        if r <= r0 * (1 + slack) and np.all(np.linalg.norm(P - c, axis=1) <= r * (1 + slack)):
            far.append(np.linalg.norm(c - c0))
    return max(far)


# ---------------------------------------------------------------- detector
def ray_hit(corners, x, d):
    """Solve x + s d = c0 + u zhat + v yhat; returns s, u (z), v (y) with lengths in microns."""
    c0, c1, c2 = (np.asarray(c, float) for c in corners)
    y = (c1 - c0) / np.linalg.norm(c1 - c0)
    z = (c2 - c0) / np.linalg.norm(c2 - c0)
    M = np.stack([np.asarray(d, float), -z, -y], axis=1)
    s, u, v = np.linalg.solve(M, c0 - np.asarray(x, float))
    return s, u, v


# ---------------------------------------------------------------- intensity factors
def lorentz(k, kp, axis):
    """1 / (sin 2theta |sin eta|), inf within half a degree of the forbidden zones; and the margin."""
    k, kp = np.asarray(k, float), np.asarray(kp, float)
    kh, kph = k / np.linalg.norm(k), kp / np.linalg.norm(kp)
    two_theta = math.atan2(np.linalg.norm(np.cross(kh, kph)), kh @ kph)
    orth = kph - kh * (kh @ kph)
    n = np.linalg.norm(orth)
    eta = math.acos(max(-1.0, min(1.0, np.asarray(axis, float) @ orth / n))) if n > 0 else 0.0
    e, th = math.degrees(eta), math.degrees(two_theta / 2)
    margin = min(abs(e - 0.5), abs(e - 179.5), abs(th - 0.5))
    if e < 0.5 or e > 179.5 or th < 0.5:
        return math.inf, margin
    return 1.0 / (math.sin(two_theta) * abs(math.sin(eta))), margin


def polarization(kp, p):
    kp = np.asarray(kp, float)
    return 1.0 - (np.asarray(p, float) @ kp / np.linalg.norm(kp)) ** 2


def scherrer(volume, two_theta, wavelength):
    d = 2.0 * (3.0 * volume / (4 * math.pi)) ** (1.0 / 3.0) * 1e4
    return 0.9 * wavelength / (d * math.cos(two_theta / 2.0))


# ---------------------------------------------------------------- vectorised crossings
def crossings(k, axis, dw, G):
    """Vectorised laue_crossings for G of shape (n, 3).

    Returns index (m,), t (m,), sure (m,) and skip (n,), the reflections whose condition does not
    depend on time (to be ignored).
    """
    k, axis, G = (np.asarray(v, float) for v in (k, axis, G))
    if len(G) == 0:
        return np.zeros(0, int), np.zeros(0), np.zeros(0, bool), np.zeros(0, bool)
    par = np.outer(G @ axis, axis)
    A = (G - par) @ k
    B = np.cross(axis, G) @ k
    C = par @ k + 0.5 * np.sum(G * G, axis=1)
    rho = np.hypot(A, B)
    scale = np.linalg.norm(k) * np.linalg.norm(G, axis=1)
    skip = rho <= 1e-7 * scale
    with np.errstate(all="ignore"):
        c = -C / rho
    c[skip] = 5.0
    tangent = np.abs(np.abs(c) - 1) < 1e-7
    real = np.abs(c) <= 1 + 1e-7
    half = np.arccos(np.clip(c, -1, 1))
    phi0 = np.arctan2(B, A)
    idx, ts, sure = [], [], []
    slope = np.maximum(np.sqrt(np.maximum(0, 1 - c * c)), 1e-9)
    for s in (1, -1):
        phi = np.mod(phi0 + s * half, TWO_PI)
        phi = np.where(phi > TWO_PI - 1e-4, phi - TWO_PI, phi)
        t = phi / dw
        res = 1e-11 / slope / dw / np.minimum(1, rho / scale) + 1e-10
        edge = res + np.where(tangent, 1e-2 / dw, 0)
        keep = real & (t >= -edge) & (t <= 1 + edge)
        i = np.nonzero(keep)[0]
        idx.append(i)
        ts.append(t[i])
        sure.append((~tangent[i]) & (t[i] > res[i]) & (t[i] < 1 - res[i]))
    return np.concatenate(idx), np.concatenate(ts), np.concatenate(sure), skip


def compare_events(exp_key, exp_t, exp_sure, got_key, got_t, tol, what="event"):
    """One to one match of events (key, time); keys are hashable. None or a message."""
    exp, got = {}, {}
    for q, t, s in zip(exp_key, exp_t, exp_sure):
        exp.setdefault(q, []).append((float(t), bool(s)))
    for q, t in zip(got_key, got_t):
        got.setdefault(q, []).append(float(t))
    for q in set(exp) | set(got):
        e, g = exp.get(q, []), got.get(q, [])
        m = match_times(e, g, tol)
        if m:
            return "%s %s: %s" % (what, q, m)
    return None


# ---------------------------------------------------------------- crystal structures
_SG = {}


def symops(sgname):
    """Rotations (S, 3, 3) and translations of a space group (tabulated by xfab; checked to be groups)."""
    if sgname not in _SG:
        from xfab import sg
        s = sg.sg(sgname=sgname)
        _SG[sgname] = (np.array(s.rot, float), np.array(s.trans, float))
    return _SG[sgname]


def orbit(pos, R, t, tol=1e-5):
    """Distinct positions of the unit cell, index of the operation, and whether they are well separated."""
    P = np.einsum("sij,j->si", R, np.asarray(pos, float)) + t
    keep, clear = [], True
    exact = np.abs(t * 24 - np.round(t * 24)).max() < 1e-9
    for i, p in enumerate(P):
        if keep:
            d = P[keep] - p
            m = np.abs(d - np.round(d)).max(axis=1).min()
            if m < tol:
                clear &= m < (1e-9 if exact else 3e-6)
                continue
            clear &= m > 1e-3
        keep.append(i)
    return P[keep], keep, clear


def form_factor(el, stl):
    from xfab import atomlib
    c = atomlib.formfactor[el.upper()]
    return sum(c[i] * np.exp(-c[4 + i] * stl**2) for i in range(4)) + c[8]


def structure_factor(s, H):
    """Sum over the atoms of the unit cell. H of shape (n, 3); complex (n,)."""
    H = np.asarray(H, float).reshape(-1, 3)
    g = np.linalg.inv(metric(s["cell"]))
    stl = 0.5 * np.sqrt(np.einsum("ni,ij,nj->n", H, g, H))
    star = np.sqrt(np.diag(g))
    R, t = symops(s["sg"])
    F = np.zeros(len(H), complex)
    for a in s["atoms"]:
        P, ops, _ = orbit(a["pos"], R, t)
        f = form_factor(a["el"], stl).astype(complex)
        d = (s["dispersion"] or {}).get(a["el"])
        if d is not None:
            f = f + d[0] + 1j * d[1]
        kind, u = adp_of(a, len(ops) == len(R))
        for p, o in zip(P, ops):
            if kind == "iso":
                w = np.exp(-8 * math.pi**2 * u * stl**2)
            elif kind == "ani":
                h2 = (H @ R[o]) * star
                w = np.exp(-2 * math.pi**2 * np.einsum("ni,ij,nj->n", h2, u, h2))
            else:
                w = 1.0
            F += a["occ"] * f * w * np.exp(2j * math.pi * (H @ p))
    return F


def adp_of(a, general):
    """('none' | 'iso' | 'ani', value in U) of an atom; anisotropy only where the site allows any tensor."""
    if a["adp"] == "none":
        return "none", None
    scale = 1.0 / (8 * math.pi**2) if a["adp"][0] == "B" else 1.0
    if a["adp"].endswith("iso") or not general:
        return "iso", a["u"][0] * (100.0 if a["adp"][0] == "B" else 1.0) * scale
    u = np.array(a["u"]) * (100.0 if a["adp"][0] == "B" else 1.0) * scale
    return "ani", np.array([[u[0], u[5], u[4]], [u[5], u[1], u[3]], [u[4], u[3], u[2]]])


def polytope(A, b, c0, s, tol=1e-9):
    """Vertices of A x <= b, or None if it is empty or flat; s: length scale around c0."""
    bb = (b - A @ c0) / s
    n = np.linalg.norm(A, axis=1)
    r = linprog([0, 0, 0, -1], A_ub=np.c_[A, n], b_ub=bb, bounds=[(None, None)] * 3 + [(0, None)], method="highs")
    if r.status != 0 or r.x[3] < tol:
        return None
    return HalfspaceIntersection(np.c_[A, -bb], r.x[:3]).intersections * s + c0


def clip_lines(A, b, x0, d):
    """Lengths of the lines x0 + s d (d unit) inside of A x <= b, vectorised over x0."""
    x0 = np.atleast_2d(x0)
    den, num = A @ d, b[None, :] - x0 @ A.T
    flat = np.abs(den) < 1e-14
    with np.errstate(divide="ignore", invalid="ignore"):
        t = num / den[None, :]
    hi = np.where(den > 0, t, np.inf)[:, ~flat].min(axis=1)
    lo = np.where(den < 0, t, -np.inf)[:, ~flat].max(axis=1)
    out = np.maximum(0.0, hi - lo)
    out[(num[:, flat] < 0).any(axis=1)] = 0.0
    return out


def min_width(points):
    """About the smallest extent of a point set (along the normals of its hull)."""
    c = points - points.mean(axis=0)
    if np.linalg.svd(c, compute_uv=False)[-1] < 1e-9 * np.abs(c).max():
        return 0.0
    n = ConvexHull(points).equations[:, :3]
    return float(np.ptp(points @ n.T, axis=0).min())
