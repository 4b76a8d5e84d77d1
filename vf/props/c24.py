"""C24: helper quantities equal their definitions; conversions keep values, shapes and dtype."""
import math
import os
import warnings

import meshio
import numpy as np
import torch
from hypothesis import strategies as st

from vf import gen, ref, snap, world
from vf.core import Reject, arr, check, close, component, priv
from xrd_simulator import laue, utils
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.polycrystal import Polycrystal

P = "C24"


def fn(name, module="utils"):
    """A helper function of the library; the case is not applicable when it is gone."""
    f = priv("xrd_simulator." + module, name)
    if f is None:
        raise Reject()
    return f


def quat(R):
    """Unit quaternion (scalar last) of a rotation matrix, by the eigenvector of its symmetric 4 x 4 form."""
    R = np.asarray(R, float)
    K = np.empty((4, 4))
    K[:3, :3] = R + R.T - np.trace(R) * np.eye(3)
    K[3, :3] = K[:3, 3] = [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]
    K[3, 3] = np.trace(R)
    return np.linalg.eigh(K)[1][:, 3]


def angle_between(p, q):
    """Rotation angle between the rotations of two unit quaternions, exact for small angles too."""
    return 4 * math.atan2(min(np.linalg.norm(p - q), np.linalg.norm(p + q)), max(np.linalg.norm(p - q), np.linalg.norm(p + q)))


# ---------------------------------------------------------------- orientations
@st.composite
def rotations(draw):
    n = draw(st.integers(1, 8))
    return dict(base=draw(gen.rotvec), spread=draw(st.one_of(st.sampled_from([0.0, 1e-9, 1e-6, 1e-3, 0.1]), gen.log(1e-9, 1.2), gen.even(0.1, 3.0))),
                d=draw(st.lists(gen.vec(-1, 1), min_size=n, max_size=n)), form=draw(st.sampled_from(["array", "tensor"])), noise=draw(st.booleans()),
                file=draw(st.integers(0, 19)) == 0)


@component(P, "misorientation", rotations(), 4000, 60000, "two or more orientations with a well defined mean; angle of each to the mean, in memory and in the mesh file")
def misorientation(case, ctx):
    U = np.array([ref.rotvec_matrix(np.array(d) * case["spread"]) @ ref.rotvec_matrix(case["base"]) for d in case["d"]])
    if case["noise"]:
        U = U + np.random.default_rng(len(U)).normal(size=U.shape) * 1e-16
    q = np.array([quat(u) for u in U])
    w, V = np.linalg.eigh(q.T @ q / len(q))
    if w[3] - w[2] < 0.05:
        raise Reject()
    want = np.array([angle_between(x, V[:, 3]) for x in q])
    if not case["file"]:
        given = U.copy() if case["form"] == "array" else torch.tensor(U)
        got = arr(fn("_get_misorientations")(given))
        check(np.array_equal(arr(given), U), "the orientations were changed", "input changed")
    else:
        coord, enod = gen.tets(len(U), len(U), 1.0, 3.0)
        pc = Polycrystal(TetraMesh.generate_mesh_from_vertices(coord, enod), U, np.zeros((3, 3)), world.make_phases(dict(cells=[dict(cell=[4.0, 4.0, 4.0, 90.0, 90.0, 90.0], sg="Fm-3m")])))
        path = ctx.path("a")
        pc.save(path)
        f = meshio.read(path + ".xdmf")
        got = np.radians(np.asarray(f.cell_data["Misorientation from mean orientation [degrees]"][0], float).ravel())
    check(got.shape == want.shape, "shape %s of %d misorientations" % (got.shape, len(want)), "shape")
    close(got, want, "misorientation from the mean", 1e-7, 2e-8, sig="misorientation")
    ctx.event("file" if case["file"] else "memory")
    ctx.nontrivial(len(U) > 1)


ANGLES = st.tuples(gen.even(0.0, math.pi / 2), gen.even(0.0, math.pi), gen.even(0.0, 2 * math.pi))


@component(P, "quaternions", st.fixed_dictionaries(dict(a=st.lists(ANGLES, min_size=1, max_size=6), scalar=st.booleans())), 3000, 40000,
           "angles inside of the half hypersphere; unit length and the metric of the hypersphere by central differences")
def quaternions(case, ctx):
    f = fn("_alpha_to_quarternion")
    a = np.array(case["a"], float)
    q = np.asarray(f(*a.T), float)
    check(q.shape == (len(a), 4), "shape %s for %d sets of angles" % (q.shape, len(a)), "shape")
    close(np.linalg.norm(q, axis=1), np.ones(len(q)), "length of the quaternions", 1e-14, sig="length")
    if case["scalar"]:
        close(np.asarray(f(*a[0]), float), q[0], "quaternion of single angles", 1e-14, 1e-15, sig="single angles")
    h = 1e-5
    J = np.array([(np.asarray(f(*(a + h * e).T)) - np.asarray(f(*(a - h * e).T))) / (2 * h) for e in np.eye(3)])
    g = np.einsum("ink,jnk->nij", J, J)
    s1, s2 = np.sin(a[:, 0]), np.sin(a[:, 1])
    want = np.array([np.diag(x) for x in np.stack([np.ones(len(a)), s1 ** 2, (s1 * s2) ** 2], axis=1)])
    close(g, want, "metric of the parametrisation", 1e-6, 1e-8, sig="metric")
    ctx.nontrivial(bool((s1 * s2 > 0.05).any()))


@component(P, "euler", st.fixed_dictionaries(dict(v=gen.rotvec, near=st.sampled_from([0, 0, 1, 2]), phi=gen.even(0, 2 * math.pi), eps=gen.log(1e-12, 1e-2))), 3000, 40000,
           "Bunge angles rebuild the orientation, including rotations near the axis")
def euler(case, ctx):
    f = fn("_u_to_euler")
    rz = lambda x: ref.rot([0, 0, 1], x)
    U = ref.rotvec_matrix(case["v"])
    if case["near"]:
        U = rz(case["phi"]) @ ref.rot([1, 0, 0], case["eps"] if case["near"] == 1 else math.pi - case["eps"]) @ rz(case["v"][0])
    p1, P_, p2 = (float(x) for x in f(U))
    close(rz(p1) @ ref.rot([1, 0, 0], P_) @ rz(p2), U, "orientation of the Euler angles", 0, 3e-7, sig="euler")
    check(-1e-9 <= p1 <= 2 * math.pi + 1e-9 and -1e-9 <= p2 <= 2 * math.pi + 1e-9 and -1e-9 <= P_ <= math.pi + 1e-9, "Euler angles %s out of range" % ([p1, P_, p2],), "range")
    ctx.nontrivial()


# ---------------------------------------------------------------- bookkeeping helpers
@component(P, "intervals", st.fixed_dictionaries(dict(ivs=st.lists(st.tuples(st.integers(-8, 8), st.integers(0, 6)), max_size=5), v=st.one_of(st.integers(-18, 36), gen.even(-9, 16)), scale=st.sampled_from([1.0, 0.1, 1 / 3]),
           form=st.sampled_from(["list", "array", "tensor"]))), 3000, 40000, "at least one interval; values inside, outside and exactly at the ends")
def intervals(case, ctx):
    f = fn("_contained_by_intervals")
    s = case["scale"]
    ivs = [[a * s, (a + w) * s] for a, w in case["ivs"]]
    v = case["v"] / 2 * s if isinstance(case["v"], int) and case["v"] % 2 else (case["v"] // 2) * s if isinstance(case["v"], int) else case["v"] * s
    given = ivs if case["form"] == "list" or not ivs else np.array(ivs) if case["form"] == "array" else torch.tensor(ivs)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = f(v, given)
    want = any(a <= v <= b for a, b in ivs)
    check(bool(got) == want, "%r in %r: %r" % (v, ivs, got), "contained")
    ctx.nontrivial(len(ivs) > 0)
    ctx.event("end" if any(v in x for x in ivs) else "inside" if want else "outside")


@component(P, "diffractogram", st.fixed_dictionaries(dict(m=st.integers(1, 14), n=st.integers(1, 14), c=st.tuples(gen.even(0.0, 1.0), gen.even(0.0, 1.0)), bins=st.sampled_from([1.0, 1.0, 0.5, 2.0, 0.7]), seed=gen.seeds,
           fill=st.sampled_from(["full", "few", "one", "none"]), dtype=st.sampled_from(["f8", "f4", "i8"]))), 1500, 20000, "an image that is not empty; every pixel in the bin nearest to its radius")
def diffractogram(case, ctx):
    f = fn("_diffractogram")
    rng = np.random.default_rng(case["seed"])
    m, n = case["m"], case["n"]
    I = rng.integers(1, 100, (m, n)).astype(float)
    if case["fill"] != "full":
        k = {"few": 3, "one": 1, "none": 0}[case["fill"]]
        keep = np.zeros(m * n, bool)
        keep[rng.permutation(m * n)[:k]] = True
        I *= keep.reshape(m, n)
    I = I.astype(case["dtype"])
    cz, cy = case["c"][0] * (m - 1), case["c"][1] * (n - 1)
    copy = I.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r, h = f(I, cz, cy, case["bins"])
    check(np.array_equal(I, copy), "the image was changed", "image changed")
    r, h = np.asarray(r, float), np.asarray(h, float)
    check(r.shape == h.shape, "%s bins of %s values" % (r.shape, h.shape), "shape")
    if len(r) > 1:
        close(np.diff(r), np.full(len(r) - 1, case["bins"]), "bin distance", 1e-9, 1e-9, sig="bins")
    radius = np.hypot(np.arange(m)[:, None] - cz, np.arange(n)[None] - cy)
    edge = np.abs((radius / case["bins"]) % 1 - 0.5).min()
    if edge < 1e-9:
        raise Reject()
    idx = np.rint(radius / case["bins"]).astype(int)
    last = len(np.arange(0, max(m, n) + 1, case["bins"])) - 1
    want = np.bincount(idx.ravel(), I.ravel().astype(float), minlength=last + 2)
    close(h, want[:len(h)], "radial sums", 1e-9, 1e-9, sig="radial sums")
    check(not want[len(h):last].any(), "the radii %s hold intensity but are cut off" % (np.flatnonzero(want[len(h):last])[:3] + len(h)), "cut off")
    ctx.nontrivial(bool(I.any()))


# ---------------------------------------------------------------- geometry
@st.composite
def points(draw):
    return dict(seed=draw(gen.seeds), n=draw(st.integers(1, 6)), scale=draw(st.sampled_from([1.0, 1e-3, 1e3])), shift=draw(st.sampled_from([0.0, 0.0, 3.0, 1e3, 1e5])),
                kind=draw(st.sampled_from(["random", "random", "grid", "flat", "regular"])), k=draw(st.integers(2, 4)))


def simplices(case, tries=50):
    rng = np.random.default_rng(case["seed"])
    out = []
    while len(out) < case["n"]:
        if case["kind"] == "grid":
            p = rng.integers(-3, 4, (4, 3)).astype(float)
        elif case["kind"] == "regular":
            p = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1.0]]) @ ref.rotvec_matrix(rng.normal(size=3))
        else:
            p = rng.normal(size=(4, 3))
            if case["kind"] == "flat":
                p[:, 2] *= 0.05
                p = p @ ref.rotvec_matrix(rng.normal(size=3))
        if ref.tet_volume(p) > 1e-3 and np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0])) > 0.05:
            out.append(p + case["shift"] * rng.normal(size=3))
        tries -= 1
        if tries < 0:
            raise Reject()
    return np.array(out) * case["scale"]


@component(P, "simplices", points(), 4000, 60000, "sides, volumes and circumscribed spheres of simplices that are not degenerate")
def geometry(case, ctx):
    T = simplices(case)
    s = case["scale"]
    far = 2e-13 * case["shift"] ** 2  # loss of digits far from the origin, relative to the size
    if case["shift"] > 100:
        ctx.event("far from the origin")
    pairs = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
    done = 0
    f = priv("xrd_simulator.utils", "_compute_sides")
    if f is not None:
        close(arr(f(torch.tensor(T))), np.stack([np.linalg.norm(T[:, i] - T[:, j], axis=1) for i, j in pairs], axis=1), "sides", 1e-9, 1e-9 * s, sig="sides")
        done += 1
    f = priv("xrd_simulator.utils", "_compute_tetrahedra_volumes")
    if f is not None:
        close(arr(f(torch.tensor(T))), [ref.tet_volume(p) for p in T], "volumes", 1e-8, 1e-11 * s**3, sig="volumes")
        done += 1
    for name, k in (("_circumsphere_of_segments", 2), ("_circumsphere_of_triangles", 3), ("_circumsphere_of_tetrahedrons", 4)):
        f = priv("xrd_simulator.utils", name)
        if f is None:
            continue
        done += 1
        c, r = (arr(x) for x in f(torch.tensor(T[:, :k])))
        check(c.shape == (len(T), 3) and r.shape == (len(T),), "shapes %s and %s" % (c.shape, r.shape), name)
        for p, ci, ri in zip(T[:, :k], c, r):
            want, rad = circumcentre(p)
            close(ci, want, "centre of the sphere through %d points" % k, 0, (1e-6 + far) * max(s, rad), sig=name)
            d = np.linalg.norm(p - ci, axis=1)
            check(np.all(d <= ri * (1 + 1e-9 + far)) and ri <= rad * (1.0003 + far), "the sphere of radius %.9g around points at %s" % (ri, d), name + " radius")
    f = priv("xrd_simulator.utils", "_get_circumscribed_sphere_centroid")
    if f is not None:
        done += 1
        p = T[0][:case["k"]]
        close(f(p), circumcentre(p)[0], "circumcentre", 0, (1e-6 + far) * max(s, circumcentre(p)[1]), sig="circumcentre")
    ctx.nontrivial(done > 0)


def circumcentre(p):
    """Point of the affine hull with equal distance to all points."""
    E = p[1:] - p[0]
    x = np.linalg.solve(2 * E @ E.T, np.sum(E ** 2, axis=1))
    return p[0] + x @ E, np.linalg.norm(x @ E)


@component(P, "vectors", st.fixed_dictionaries(dict(e=st.lists(gen.even(-1, 1), min_size=6, max_size=6), G=st.lists(gen.vec(-3, 3), min_size=1, max_size=5), wl=gen.even(0.1, 0.5), one=st.booleans())), 2000, 20000,
           "strain vectors and tensors are inverse; Bragg angles of G vectors")
def vectors(case, ctx):
    to_t, to_v = priv("xrd_simulator.utils", "_strain_as_tensor"), priv("xrd_simulator.utils", "_strain_as_vector")
    done = 0
    if to_t is not None and to_v is not None:
        E = np.asarray(to_t(case["e"]), float)
        close(E, gen.tensor(case["e"]), "strain tensor", 0, 0, sig="strain tensor")
        close([float(x) for x in to_v(E)], case["e"], "strain vector", 0, 0, sig="strain vector")
        close([float(x) for x in to_v(torch.tensor(E))], case["e"], "strain vector of a tensor", 0, 0, sig="strain vector")
        done += 1
    G = np.array(case["G"]).T
    G = G[:, 0] if case["one"] else G
    s = np.linalg.norm(G, axis=0) * case["wl"] / (4 * math.pi)
    f, g = priv("xrd_simulator.laue", "_get_bragg_angle"), priv("xrd_simulator.laue", "_get_sin_theta_and_norm_G")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if f is not None:
            close(arr(f(G, case["wl"])), np.arcsin(s), "Bragg angle", 1e-12, 1e-15, sig="Bragg angle")
            done += 1
        if g is not None:
            a, b = g(G, case["wl"])
            close(arr(a), s, "sin of the Bragg angle", 1e-12, 1e-15, sig="sin theta")
            close(arr(b), np.linalg.norm(G, axis=0), "length of G", 1e-12, 1e-15, sig="norm G")
    ctx.nontrivial(done > 0)


# ---------------------------------------------------------------- conversions
@st.composite
def data(draw):
    shape = draw(st.sampled_from([[], [1], [3], [0], [2, 3], [1, 1], [3, 3], [2, 0], [4, 2, 3], [1, 3, 1, 2]]))
    return dict(shape=shape, kind=draw(st.sampled_from(["int", "big", "float", "float", "special", "bool", "tiny"])), seed=draw(gen.seeds),
                form=draw(st.sampled_from(["array", "array", "tensor", "tensor", "list", "tuple", "scalar", "strided", "transposed", "reversed", "grad", "zero strides"])),
                dtype=draw(st.sampled_from(["float64", "float32", "int64", "int32", "uint8", "int16", "bool", "float16"])), to=draw(st.sampled_from([None, None, "float64", "float32", "int64", "int32", "bool"])))


@component(P, "conversions", data(), 6000, 80000, "values with at least one element; numpy and torch of all shapes, dtypes and layouts, values kept exactly")
def conversions(case, ctx):
    rng = np.random.default_rng(case["seed"])
    shape = case["shape"]
    k = case["kind"]
    x = {"int": lambda: rng.integers(0, 100, shape), "big": lambda: rng.integers(-2 ** 53, 2 ** 53, shape), "float": lambda: rng.normal(size=shape) * 10.0 ** rng.integers(-6, 7),
         "special": lambda: rng.choice([0.0, -0.0, np.inf, -np.inf, np.nan, 1e308, 5e-324], shape), "bool": lambda: rng.integers(0, 2, shape) > 0, "tiny": lambda: rng.normal(size=shape) * 1e-290}[k]()
    x = np.asarray(x)
    t = case["dtype"]
    if k in ("float", "special", "tiny") and not t.startswith("float"):
        t = "float64"
    if k == "big" and t not in ("float64", "int64"):
        t = "int64"
    if k == "bool" and case["form"] not in ("grad",):
        t = "bool"
    if case["form"] == "grad" and not t.startswith("float"):
        t = "float64"
    with np.errstate(all="ignore"):
        x = x.astype(t)
    f = case["form"]
    given = x
    if f == "tensor" or f == "grad":
        given = torch.tensor(x)
        if f == "grad":
            given.requires_grad_(True)
    elif f in ("list", "tuple"):
        if x.ndim == 0:
            given = x[()].item()
        else:
            tup = lambda v: tuple(tup(w) for w in v) if isinstance(v, list) else v
            given = x.tolist() if f == "list" else tup(x.tolist())
    elif f == "scalar":
        x = x.ravel()[:1].reshape(()) if x.size else np.zeros((), t)
        # numpy scalars are no documented input: only as what float() takes
        given = x[()] if case["seed"] % 2 and case["to"] is None else x[()].item()
    elif x.ndim and f == "strided":
        given = np.repeat(x, 2, axis=0)[::2]
    elif x.ndim and f == "transposed":
        given = x.T
        x = x.T.copy()
    elif x.ndim and f == "reversed":
        given = x[::-1]
        x = given.copy()
    elif x.ndim and f == "zero strides":
        given = np.broadcast_to(x, (2,) + x.shape)
        x = given.copy()
    before = snap.take(given)
    want = x.astype(np.float64)
    ctx.nontrivial(x.size > 0)
    ctx.event(f)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        a = utils.ensure_torch(given)
        check(torch.is_tensor(a) and a.dtype == torch.float64, "ensure_torch gave %s" % getattr(a, "dtype", type(a)), "dtype of ensure_torch")
        check(np.array_equal(a.detach().numpy(), want, equal_nan=True) and tuple(a.shape) == want.shape, "ensure_torch turned %r into %r" % (x, a), "values of ensure_torch")
        b = utils.ensure_numpy(given)
        check(isinstance(b, np.ndarray) and b.dtype == np.float64, "ensure_numpy gave %s" % getattr(b, "dtype", type(b)), "dtype of ensure_numpy")
        check(np.array_equal(b, want, equal_nan=True) and b.shape == want.shape, "ensure_numpy turned %r into %r" % (x, b), "values of ensure_numpy")
        check(np.array_equal(np.signbit(b), np.signbit(want)), "signs of zeros changed", "signed zeros")
        c = utils.ensure_numpy(a)
        check(np.array_equal(c, want, equal_nan=True), "numpy to torch to numpy changed the values", "round trip")
        if case["to"] is not None and k in ("int", "bool", "float") and not (k == "float" and case["to"] in ("int64", "int32", "bool")):
            d = utils.ensure_torch(given, dtype=getattr(torch, case["to"]))
            check(d.dtype == getattr(torch, case["to"]), "requested %s, got %s" % (case["to"], d.dtype), "requested dtype")
            check(np.array_equal(d.detach().numpy(), x.astype(case["to"])), "values as %s" % case["to"], "values of requested dtype")
    m = snap.diff(before, snap.take(given))
    check(m is None, "converting changed its input: %s" % m, "input changed")
