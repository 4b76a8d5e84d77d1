"""C11: generated meshes are a partition of the solid they describe."""
import itertools
import math

import numpy as np
import torch
from hypothesis import strategies as st

from vf import gen, ref, world
from vf.core import arr, check, close, component
from xrd_simulator.mesh import TetraMesh

P = "C11"


@st.composite
def solids(draw):
    kind = draw(st.sampled_from(["ball", "ellipsoid", "capsule", "torus", "box", "shell", "two", "nested"]))
    return dict(kind=kind, p=[draw(gen.even(0, 1)) for _ in range(3)], rot=draw(gen.rotvec),
                shift=draw(st.one_of(st.just([0.0, 0.0, 0.0]), gen.vec(-0.15, 0.15))), scale=draw(st.sampled_from([1.0, 1.0, 10.0, 500.0, 1e-2])),
                sign=draw(st.sampled_from([1, 1, -1])), steep=draw(st.sampled_from([1.0, 1.0, 0.2, 7.0])),
                fine=draw(st.one_of(st.sampled_from([0.4, 0.5, 1.0, 10.0]), gen.even(0.24, 0.6))), margin=draw(gen.even(1.02, 1.25)), seed=draw(gen.seeds))


def describe(case):
    """Signed distance like function (negative inside, slope <= 1), extent, area, volume, smallest radius of curvature."""
    u = case["p"]
    k = case["kind"]
    norm = np.linalg.norm
    if k == "ball":
        return (lambda x: norm(x) - 1.0), 1.0, 4 * math.pi, 4 / 3 * math.pi, 1.0
    if k == "ellipsoid":
        a = np.array([1.0, 0.6 + 0.4 * u[0], 0.6 + 0.4 * u[1]])
        return (lambda x: (norm(x / a) - 1.0) * a.min()), 1.0, 4 * math.pi, 4 / 3 * math.pi * np.prod(a), a.min() ** 2
    if k == "capsule":
        r, L = 0.35 + 0.2 * u[0], 0.3
        return (lambda x: norm(x - np.array([0, 0, min(max(x[2], -L), L)])) - r), L + r, 4 * math.pi * r**2 + 4 * math.pi * r * L, 4 / 3 * math.pi * r**3 + 2 * math.pi * r * r * L, r
    if k == "torus":
        a, r = 0.65, 0.28 + 0.05 * u[0]
        return (lambda x: math.hypot(math.hypot(x[0], x[1]) - a, x[2]) - r), a + r, 4 * math.pi**2 * a * r, 2 * math.pi**2 * a * r * r, r
    if k == "box":
        h, r = np.array([0.3, 0.2 + 0.2 * u[0], 0.3]), 0.28
        V = 8 * np.prod(h) + 8 * r * (h[0] * h[1] + h[1] * h[2] + h[0] * h[2]) + 2 * math.pi * r * r * h.sum() + 4 / 3 * math.pi * r**3
        A = 8 * (h[0] * h[1] + h[1] * h[2] + h[0] * h[2]) + 4 * math.pi * r * h.sum() + 4 * math.pi * r * r
        return (lambda x: norm(np.maximum(np.abs(x) - h, 0)) + min(np.max(np.abs(x) - h), 0.0) - r), norm(h) + r, A, V, r
    if k == "shell":
        r = 0.35 + 0.15 * u[0]
        c = np.array([0, 0, 0.1 * u[1]])
        return (lambda x: max(norm(x) - 1.0, r - norm(x - c))), 1.0, 4 * math.pi * (1 + r * r), 4 / 3 * math.pi * (1 - r**3), r
    if k == "two":
        r = 0.35 + 0.1 * u[0]
        c = np.array([0.6, 0, 0])
        return (lambda x: min(norm(x - c), norm(x + c)) - r), 0.6 + r, 8 * math.pi * r * r, 8 / 3 * math.pi * r**3, r
    # a ball in the cavity of a shell
    R, r = 0.7, 0.35
    return (lambda x: max(norm(x) - 1.0, min(R - norm(x), norm(x) - r))), 1.0, 4 * math.pi * (1 + R * R + r * r), 4 / 3 * math.pi * (1 - R**3 + r**3), r


def verify_conforming(X, E, what=""):
    """Positive volumes, faces shared by at most two elements on opposite sides, closed boundary."""
    V = X[E]
    vol = np.abs(np.linalg.det(V[:, 1:] - V[:, :1])) / 6
    check(np.all(vol > 0), what + "an element has no volume", "positive volume")
    corners = [(0, 1, 2, 3), (0, 1, 3, 2), (0, 2, 3, 1), (1, 2, 3, 0)]
    F = np.concatenate([np.sort(E[:, c[:3]], axis=1) for c in corners])
    apex = np.concatenate([E[:, c[3]] for c in corners])
    order = np.lexsort(F.T[::-1])
    F, apex = F[order], apex[order]
    _, start, count = np.unique(F, axis=0, return_index=True, return_counts=True)
    check(count.max() <= 2, what + "a face belongs to %d elements" % count.max(), "shared faces")
    i = start[count == 2]
    a, b, c = X[F[i, 0]], X[F[i, 1]], X[F[i, 2]]
    n = np.cross(b - a, c - a)
    s1, s2 = np.sum((X[apex[i]] - a) * n, axis=1), np.sum((X[apex[i + 1]] - a) * n, axis=1)
    check(np.all(s1 * s2 < 0), what + "elements that share a face overlap", "opposite sides")
    B = F[start[count == 1]]
    edges = np.sort(np.concatenate([B[:, [0, 1]], B[:, [0, 2]], B[:, [1, 2]]]), axis=1)
    _, k = np.unique(edges, axis=0, return_counts=True)
    check(np.all(k % 2 == 0), what + "the boundary is not closed", "closed boundary")
    return vol


def holders(X, E, x, eps=1e-9):
    """Number of elements that hold each point x, and whether it is too close to a face to say."""
    V = X[E]
    T = np.linalg.inv((V[:, 1:] - V[:, :1]).transpose(0, 2, 1))
    n, near = np.zeros(len(x), int), np.zeros(len(x), bool)
    lo, hi = V.min(axis=1), V.max(axis=1)
    for i, p in enumerate(x):
        c = np.nonzero(np.all((lo <= p) & (p <= hi), axis=1))[0]
        w = np.einsum("nij,nj->ni", T[c], p - V[c, 0])
        m = np.minimum(w.min(axis=1), 1 - w.sum(axis=1)) if len(c) else np.zeros(0)
        n[i] = np.sum(m > 0)
        near[i] = np.any(np.abs(m) < eps)
    return n, near


@component(P, "levelset", solids(), 220, 4000,
           "the level set of a smooth solid (ball, ellipsoid, capsule, torus, rounded box, hollow or disconnected) is meshed into more than 100 elements",
           examples=[dict(kind="ball", p=[0.1, 0.1, 0.1], rot=[0.0, 0.0, 0.0], shift=[0.0, 0.0, 0.0], scale=1.0, sign=1, steep=0.2,
                          fine=0.5259504318237305, margin=1.1988502597808839, seed=213)])
def levelset(case, ctx):
    f, extent, area, volume, curv = describe(case)
    s, R = case["scale"], ref.rotvec_matrix(case["rot"])
    shift = np.array(case["shift"]) * s
    phi = lambda x: f(R.T @ (np.asarray(x, float) - shift) / s) * s
    bound = (extent + np.abs(case["shift"]).max()) * case["margin"] * s + 0.02 * s
    circ = case["fine"] * s
    kinds = set()

    def level_set(x):
        kinds.add(np.shape(x))
        return -case["sign"] * case["steep"] * phi(x)

    mesh = TetraMesh.generate_mesh_from_levelset(level_set, bound, circ)
    X, E = arr(mesh.coord), arr(mesh.enod)
    check(kinds == {(3,)}, "the level set was called with shapes %s" % kinds, "level set call")
    check(np.isfinite(X).all() and E.min() >= 0 and E.max() < len(X), "invalid nodes", "valid nodes")
    check(len(np.unique(E)) == len(X), "some nodes belong to no element", "used nodes")
    vol = verify_conforming(X, E)
    close(mesh.evolumes, vol, "evolumes", 1e-6, 1e-13 * s**3)
    h = 2 * bound / 19  # coarsest sampling of the surface that the library documents by its defaults
    h = min(h, max(circ, 2 * bound / 60))
    d = np.array([phi(x) for x in X])
    check(d.max() <= 0.5 * max(h, min(circ, s)), "a node is %g outside of the surface, cell size %g" % (d.max(), max(h, circ)), "nodes inside")
    check(vol.max() <= 0.5133 * circ**3, "an element of volume %g has a circumradius above the bound %g" % (vol.max(), circ), "cell size")
    h = 2 * bound / 19
    allowed = 0.4 * area * s**2 * h**2 / (curv * s) + 1e-6 * volume * s**3
    check(abs(vol.sum() - volume * s**3) <= allowed,
          "the mesh has volume %g, the solid %g (allowed %g)" % (vol.sum() / s**3, volume, allowed / s**3), "total volume")
    # every point that is clearly inside is held by one element, clearly outside by none
    rng = np.random.default_rng(case["seed"])
    x = rng.uniform(-bound, bound, (50, 3))
    x = np.concatenate([x, arr(mesh.ecentroids)[rng.integers(0, len(E), 10)] + rng.normal(size=(10, 3)) * 0.02 * s])
    n, near = holders(X, E, x)
    p = np.array([phi(q) for q in x])
    deep = p < -0.3 * h
    # the slope of the level set function of an ellipsoid is at least 0.6
    far = p > 0.3 * h
    check(np.all(n[~near] <= 1), "a point is held by %d elements" % n.max(), "no overlap")
    check(np.all(n[deep & ~near] == 1), "a point inside of the solid is in no element", "solid is filled")
    check(np.all(n[far] == 0), "a point outside of the solid is in an element", "only the solid")
    ctx.nontrivial(len(E) > 100)
    ctx.event("solid %s" % case["kind"])
    ctx.event("sign %d" % case["sign"])
    ctx.event("elements about 10^%d" % round(math.log10(len(E))))
    ctx.event("points inside %d, outside %d" % (min(int(deep.sum()), 20) // 5 * 5, min(int(far.sum()), 40) // 10 * 10))


@st.composite
def vertex_case(draw):
    return dict(seed=draw(gen.seeds), n=draw(st.integers(1, 8)), scale=draw(st.sampled_from([1.0, 1e-3, 1e4])), shared=draw(st.booleans()),
                unused=draw(st.integers(0, 3)), form=draw(st.sampled_from(["f8", "f4", "fortran", "list", "int"])),
                eform=draw(st.sampled_from(["i8", "i4", "u8", "list", "fortran"])), shuffle=draw(st.booleans()))


@component(P, "vertices", vertex_case(), 2500, 30000,
           "vertices and elements, also with unused nodes and different dtypes, come back in the given order (always)")
def vertices(case, ctx):
    rng = np.random.default_rng(case["seed"])
    X, E = gen.tets(case["seed"], case["n"], case["scale"], case["scale"] * 3, case["shared"])
    if case["form"] == "int":
        X = np.round(X / case["scale"] * 40).astype(np.int64)
        V = X[E].astype(float)
        if np.abs(np.linalg.det(V[:, 1:] - V[:, :1])).min() < 1:
            X = X.astype(float) + rng.normal(size=X.shape)
    elif case["form"] == "f4":
        X = X.astype(np.float32)
    for _ in range(case["unused"]):
        at = int(rng.integers(0, len(X) + 1))
        X = np.insert(X, at, rng.integers(-9, 9, 3), axis=0)
        E = np.where(E >= at, E + 1, E)
    if case["shuffle"]:
        p = rng.permutation(len(X))
        X, E = X[np.argsort(p)], p[E]
        E = E[rng.permutation(len(E))]
    coord = {"fortran": np.asfortranarray, "list": lambda v: v.tolist()}.get(case["form"], lambda v: v.copy())(X)
    enod = {"i4": lambda v: v.astype(np.int32), "u8": lambda v: v.astype(np.uint64), "list": lambda v: v.tolist(), "fortran": np.asfortranarray,
            "i8": lambda v: v.copy()}[case["eform"]](E)
    mesh = TetraMesh.generate_mesh_from_vertices(coord, enod)
    close(mesh.coord, X, "nodes", 0, 0)
    close(mesh.enod, E, "elements", 0, 0)
    check(int(mesh.number_of_elements) == case["n"], "number of elements", "number of elements")
    check(str(mesh.coord.dtype) == "torch.float64", "coordinates have dtype %s" % mesh.coord.dtype, "dtype")
    V = X[E].astype(float)
    close(mesh.evolumes, np.abs(np.linalg.det(V[:, 1:] - V[:, :1])) / 6, "volumes", 1e-7, 1e-12 * case["scale"] ** 3)
    close(mesh.ecentroids, V.mean(axis=1), "centroids", 1e-12, 1e-12 * case["scale"])
    close(coord, X, "the caller's vertices", 0, 0)
    close(enod, E, "the caller's elements", 0, 0)
    if case["shared"]:
        verify_conforming(np.asarray(X, float), arr(mesh.enod))
    ctx.nontrivial()
    ctx.event("vertices %s" % case["form"])
    ctx.event("elements %s" % case["eform"])
    ctx.event("unused nodes %d" % case["unused"])
