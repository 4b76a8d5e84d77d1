"""C06: beam containment and beam-grain intersection are geometrically exact."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy.spatial import ConvexHull

from vf import gen, ref, world
from vf.core import Reject, arr, check, close, component, priv

P = "C06"


@st.composite
def solids(draw):
    """A convex beam: box, n-gon prism, ellipsoid hull, tetrahedron."""
    return dict(kind=draw(st.sampled_from(["box", "box", "prism", "ellipsoid", "tet"])), seed=draw(gen.seeds), n=draw(st.integers(5, 14)),
                size=[draw(gen.log(0.05, 3e3)) for _ in range(3)], rotvec=draw(gen.rotvec),
                offset=draw(st.sampled_from([0.0, 0.0, 1.0, 30.0])), direction=draw(gen.unit))


def build_solid(s):
    rng = np.random.default_rng(s["seed"])
    size = np.array(s["size"])
    if s["kind"] == "box":
        V = world.box([1, 1, 1], np.eye(3))
    elif s["kind"] == "prism":
        n = s["n"]
        a = np.sort((np.arange(n) + rng.uniform(0.1, 0.9, n)) / n * 2 * math.pi)
        poly = np.stack([np.cos(a), np.sin(a)], 1)
        V = np.array([[x, p[0], p[1]] for x in (-1.0, 1.0) for p in poly])
    elif s["kind"] == "ellipsoid":
        V = rng.normal(size=(s["n"], 3))
        V /= np.linalg.norm(V, axis=1)[:, None]
    else:
        V = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1.0]])
    size = np.maximum(size, size.max() * 1e-3)
    V = (V * size) @ ref.rotvec_matrix(s["rotvec"]).T
    if s["offset"]:
        V = V + rng.normal(size=3) * s["offset"] * size.min()
    return V


def make_beam(s, V):
    from xrd_simulator.beam import Beam
    rows = world.frame_of(s["direction"])
    return Beam(V, rows[0], 0.3, rows[1])


def plane_error(*sets):
    """The library rounds plane equations to six decimals."""
    return 2e-6 * (1 + max(np.abs(x).max() for x in sets))


@st.composite
def contain_case(draw):
    n = draw(gen.rarely(20, st.sampled_from([1000, 9000, 70000]), st.integers(1, 60)))
    return dict(beam=draw(solids()), seed=draw(gen.seeds), n=n)


@component(P, "contains", contain_case(), 3000, 40000,
           "a batch of points with some clearly inside and some clearly outside of the beam, many of them near a face")
def contains(case, ctx):
    V = build_solid(case["beam"])
    beam = make_beam(case["beam"], V)
    inside = priv(beam, "_contains")
    if inside is None:
        ctx.event("helper not present")
        return
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    w = rng.dirichlet(np.ones(len(V)) * 0.3, size=n)
    X = w @ V
    c = V.mean(axis=0)
    stretch = rng.choice([0.3, 0.9, 0.99, 0.999, 1.001, 1.01, 1.1, 2.0], size=(n, 1))
    hull = ConvexHull(V)
    A, b = hull.equations[:, :3], -hull.equations[:, 3]
    # scale every point to lie near the surface
    d = X - c
    with np.errstate(all="ignore"):
        t = np.min(np.where(d @ A.T > 1e-300, (b - A @ c) / (d @ A.T), np.inf), axis=1)
    X = c + d * np.where(np.isfinite(t), t, 1)[:, None] * stretch
    m = np.min(b[None] - X @ A.T, axis=1)
    tol = plane_error(V, X)
    got = arr(inside(torch.tensor(X).T))
    check(got.shape == (n,), "one answer per point")
    yes, no = m > tol, m < -tol
    check(np.all(got[yes]), lambda: "a point inside the beam, %g from the closest face, is not contained" % m[yes][~got[yes].astype(bool)][0])
    check(not np.any(got[no]), lambda: "a point outside of the beam, %g from a face, is contained" % -m[no][got[no].astype(bool)][0])
    one = bool(inside(torch.tensor(X[0])))
    check(one == bool(got[0]) or not (yes[0] or no[0]), "single point and batch disagree")
    if n > 60:
        ctx.event("many points")
    ctx.nontrivial(yes.any() and no.any())


@st.composite
def volume_case(draw):
    return dict(beam=draw(solids()), seed=draw(gen.seeds), grain=draw(st.sampled_from(["tet", "tet", "hull"])),
                scale=draw(gen.log(0.02, 50.0)), where=draw(st.sampled_from(["surface", "surface", "inside", "near", "any"])))


@component(P, "common_volume", volume_case(), 3000, 40000,
           "a grain that is cut by the beam (common volume between 1e-6 and 1 - 1e-6 of the smaller solid)")
def common_volume(case, ctx):
    V = build_solid(case["beam"])
    beam = make_beam(case["beam"], V)
    cut = priv(beam, "_intersect")
    if cut is None:
        ctx.event("helper not present")
        return
    rng = np.random.default_rng(case["seed"])
    size = case["scale"] * np.sort(np.ptp(V, axis=0))[0]
    k = 4 if case["grain"] == "tet" else int(rng.integers(5, 12))
    while True:
        Q = rng.normal(size=(k, 3)) * size * 0.5
        if k > 4:
            Q /= np.linalg.norm(Q, axis=1)[:, None] / size
        if ConvexHull(Q).volume > 0.01 * size**3:
            break
    w = rng.dirichlet(np.ones(len(V)) * 0.5)
    p = w @ V
    c = V.mean(axis=0)
    if case["where"] == "surface":
        A, b = ref.halfspaces(V)
        d = p - c
        dn = A @ d
        t = np.min(np.where(dn > 1e-12, (b - A @ c) / np.maximum(dn, 1e-300), np.inf))
        p = c + d * t if np.isfinite(t) else p
    elif case["where"] == "near":
        p = c + (p - c) * rng.uniform(1.0, 2.5)
    elif case["where"] == "any":
        p = c + rng.normal(size=3) * np.ptp(V, axis=0)
    Q = Q + p
    if ref.tet_volume(Q[:4]) == 0:
        raise Reject("flat grain")
    ext = plane_error(V, Q)
    hQ, hV = ConvexHull(Q), ConvexHull(V)
    if min(np.ptp(Q, axis=0).min(), 1e9) < 100 * ext:
        raise Reject("grain smaller than the plane resolution")
    v, r = ref.clip_volume(Q, V)
    S = min(hQ.area, hV.area)
    tol = 20 * ext * S + 1e-7 * min(hQ.volume, hV.volume)
    res = cut(torch.tensor(Q))
    got = 0.0 if res is None else res.volume
    if res is None:
        check(r <= 4 * ext + 1e-7, lambda: "no intersection reported, but a sphere of radius %g fits into the common volume %g" % (r, v))
        ctx.event("empty")
    else:
        check(abs(got - v) <= tol, lambda: "common volume is %.9g, expected %.9g (tolerance %.2g)" % (got, v, tol), "common volume")
        X = res.points[res.vertices]
        check(np.all(ref.inside_margin(V, X) > -6 * ext * 10) or r < 50 * ext, "the intersection leaves the beam")
        if np.all(ref.inside_margin(V, Q) > ext):
            ctx.event("grain inside")
            close(got, hQ.volume, "volume of a grain that is inside the beam", 1e-9, 0)
        elif r > 0:
            ctx.event("partial")
    small = min(hQ.volume, hV.volume)
    ctx.nontrivial(1e-6 * small < v < (1 - 1e-6) * small)


@st.composite
def reject_case(draw):
    return dict(beam=draw(solids()), seed=draw(gen.seeds))


@component(P, "vertices", reject_case(), 500, 5000,
           "a beam whose vertex list holds an interior point is rejected; moving the vertices moves the containment")
def vertices(case, ctx):
    V = build_solid(case["beam"])
    beam = make_beam(case["beam"], V)
    close(beam.vertices, V, "vertices", 0, 0)
    close(beam.centroid, V.mean(axis=0), "centroid", 1e-9, 1e-9 * np.abs(V).max())
    rng = np.random.default_rng(case["seed"])
    inner = rng.dirichlet(np.ones(len(V)) * 5) @ V
    if ref.inside_margin(V, inner)[0] > 1e-3 * np.ptp(V, axis=0).min():
        try:
            make_beam(case["beam"], np.vstack([V, inner]))
        except AssertionError:
            ctx.event("rejected")
        else:
            check(False, "a vertex inside of the hull of the others is accepted")
    shift = rng.normal(size=3) * np.ptp(V, axis=0) * 3
    W = V + shift
    beam.set_beam_vertices(torch.tensor(W))
    close(beam.vertices, W, "vertices after set_beam_vertices", 0, 0)
    inside = priv(beam, "_contains")
    if inside is not None:
        X = np.stack([V.mean(axis=0), W.mean(axis=0)])
        got = arr(inside(torch.tensor(X).T))
        for q, g in zip(X, got):
            m = ref.inside_margin(W, q)[0]
            if abs(m) > plane_error(W, X):
                check(bool(g) == (m > 0), "containment after set_beam_vertices")
    ctx.nontrivial()
