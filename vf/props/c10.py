"""C10: the derived geometry of a mesh is that of its nodes after every history of operations."""
import copy
import itertools
import math
import os

import numpy as np
import torch
from hypothesis import strategies as st

from vf import crowd, gen, ref, world
from vf.core import arr, check, close, component, priv
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.motion import RigidBodyMotion

P = "C10"


@st.composite
def meshes(draw):
    kind = draw(st.sampled_from(["tets", "tets", "shared", "ball", "sliver", "regular"]))
    return dict(kind=kind, seed=draw(gen.seeds), n=draw(st.integers(1, 6)), scale=draw(st.sampled_from([1.0, 1e-3, 1e3, 30.0])),
                offset=draw(st.sampled_from([0.0, 0.0, 3.0])), dtype=draw(st.sampled_from(["f8", "f8", "f4", "torch"])),
                etype=draw(st.sampled_from(["i8", "i4", "u4"])))


OPS = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("translate"), by=gen.vec(-1, 1), form=st.sampled_from(["numpy", "torch", "list"]))),
    st.fixed_dictionaries(dict(op=st.just("rotate"), axis=gen.unit, angle=gen.even(0.01, 3.14))),
    st.fixed_dictionaries(dict(op=st.just("update"), motion=world.motions(shift=1.0, origin=1.0),
                               time=st.one_of(gen.even(0, 1), st.sampled_from([0.0, 0.5, 1.0])))),
    st.fixed_dictionaries(dict(op=st.just("reload"), suffix=st.booleans(), data=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("copy"))),
)


def build(m):
    rng = np.random.default_rng(m["seed"])
    n, s = m["n"], m["scale"]
    if m["kind"] == "regular":
        # ties of the bounding sphere: regular, right angled and flat bottomed elements
        base = [np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]], float),
                np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float),
                np.array([[1, 0, 0], [-1, 0, 0], [0, 0.5, 0.1], [0.1, 0, 0.6]], float),
                np.array([[1, 0, 0], [-0.5, 0.8, 0], [-0.5, -0.8, 0], [0.0, 0, 0.5]], float)]
        coord = np.concatenate([base[(i + m["seed"]) % 4] + rng.integers(-2, 3, 3) for i in range(n)]) * s
        enod = np.arange(4 * n).reshape(n, 4)[:, rng.permutation(4)]
    elif m["kind"] == "ball":
        # a fan around a centre: many elements share nodes
        from scipy.spatial import Delaunay
        pts = rng.normal(size=(n + 6, 3))
        pts = pts / np.linalg.norm(pts, axis=1)[:, None] * rng.uniform(0.5, 1, (len(pts), 1))
        tri = Delaunay(pts).simplices
        vol = np.array([ref.tet_volume(pts[t]) for t in tri])
        enod = tri[vol > 1e-3].astype(int)
        coord = pts * s
        if not len(enod):
            enod = np.array([tri[np.argmax(vol)]])
    else:
        coord, enod = gen.tets(m["seed"], n, s, s * 2, m["kind"] == "shared")
        if m["kind"] == "sliver":
            coord = coord * np.array([1, 1, 0.05])
    coord = coord + m["offset"] * s
    if m["dtype"] == "f4":
        coord = coord.astype(np.float32)
    return coord, enod.astype({"i8": np.int64, "i4": np.int32, "u4": np.uint32}[m["etype"]])


def tail(coord, enod, scale, mesh, first, ctx, what):
    """All derived quantities against those computed from the model's coordinates."""
    size = np.abs(coord).max() + scale
    eps = 1e-10 * size
    close(mesh.coord, coord, what + "coord", 0, eps, sig="coord")
    close(mesh.enod, enod, what + "enod", 0, 0, sig="enod")
    check(int(mesh.number_of_elements) == len(enod), what + "number_of_elements", "number_of_elements")
    X = coord[enod]
    close(mesh.ecentroids, X.mean(axis=1), what + "ecentroids", 0, eps, sig="ecentroids")
    close(mesh.centroid, X.mean(axis=1).mean(axis=0), what + "centroid", 0, eps, sig="centroid")
    vol = np.array([ref.tet_volume(x) for x in X])
    close(mesh.evolumes, vol, what + "evolumes", 1e-8, 1e-12 * size * scale**2, sig="evolumes")
    faces, nrm = arr(mesh.efaces), arr(mesh.enormals)
    check(faces.shape == (len(enod), 4, 3) and nrm.shape == (len(enod), 4, 3), what + "shape of faces and normals", "shape")
    for i, e in enumerate(enod):
        check(sorted(tuple(sorted(f)) for f in faces[i]) == sorted(itertools.combinations(sorted(int(x) for x in e), 3)),
              what + "faces of element %d are %s for nodes %s" % (i, faces[i].tolist(), e.tolist()), "efaces")
    V = coord[faces]
    close(np.linalg.norm(nrm, axis=-1), np.ones(nrm.shape[:2]), what + "length of normals", 0, 1e-10, sig="unit normals")
    # angles to the edges lose precision when coordinates are large compared to the element
    tol = 1e-9 * size / scale / min(1.0, (vol.min() / scale**3) if scale else 1.0)
    for a, b in ((0, 1), (0, 2), (1, 2)):
        d = V[:, :, b] - V[:, :, a]
        d = d / np.linalg.norm(d, axis=-1)[..., None]
        s = np.abs(np.sum(d * nrm, axis=-1)).max()
        check(s <= tol, what + "normal is not orthogonal to its face: %g" % s, "orthogonal normals")
    out = np.sum((V.mean(axis=2) - X.mean(axis=1)[:, None]) * nrm, axis=-1).min()
    check(out > 0, what + "normal does not point outwards: %g" % out, "outward normals")
    r, c = arr(mesh.eradius), arr(mesh.espherecentroids)
    check(r.shape == (len(enod),) and c.shape == (len(enod), 3), what + "shape of spheres", "shape")
    reach = np.linalg.norm(X - c[:, None], axis=-1).max(axis=1)
    check(np.all(reach <= r * (1 + 1e-9) + eps), what + "node outside of the bounding sphere, by %g" % (reach - r).max(), "sphere contains nodes")
    for i in range(len(enod)):
        if first[i] is None:
            first[i] = ref.min_sphere(X[i])[1]
        check(r[i] <= first[i] * 1.0003 + eps, what + "bounding sphere radius %g, minimal %g" % (r[i], first[i]), "minimal sphere")


@st.composite
def history_case(draw):
    return dict(mesh=draw(meshes()), ops=draw(st.lists(OPS, min_size=1, max_size=8)))


@component(P, "history", history_case(), 1600, 30000,
           "a mesh with at least one motion that moves it; after every operation all derived quantities are compared with "
           "those computed from a model of the coordinates")
def history(case, ctx):
    m = case["mesh"]
    coord, enod = build(m)
    given = torch.tensor(coord) if m["dtype"] == "torch" else coord
    if m["dtype"] == "torch":
        given = given.numpy()
    before = given.copy(), enod.copy()
    mesh = TetraMesh.generate_mesh_from_vertices(given, enod)
    X, E = np.asarray(coord, float), enod.astype(int)
    s = float(m["scale"])
    first = [None] * len(E)
    tail(X, E, s, mesh, first, ctx, "after generation: ")
    moved, kinds, kept = 0, [], []
    for k, o in enumerate(case["ops"]):
        what = "after %d operations (%s): " % (k + 1, "-".join(kinds + [o["op"]]))
        kinds.append(o["op"])
        if o["op"] == "translate":
            v = np.array(o["by"]) * s
            mesh.translate(v if o["form"] == "numpy" else torch.tensor(v) if o["form"] == "torch" else v)
            X = X + v
            moved += np.any(v != 0)
        elif o["op"] == "rotate":
            mesh.rotate(np.array(o["axis"]), o["angle"])
            X = X @ ref.rot(o["axis"], o["angle"]).T
            moved += 1
        elif o["op"] == "update":
            q = dict(o["motion"])
            q["translation"] = [v * s for v in q["translation"]]
            q["origin"] = [v * s for v in q["origin"]]
            mesh.update(world.make_motion(q), o["time"])
            X = ref.move(q, X, o["time"])
            moved += o["time"] > 0
        elif o["op"] == "copy":
            kept.append((mesh, X, what))
            mesh = copy.deepcopy(mesh)
        else:
            path = ctx.path("mesh.v1")
            data = None
            if o["data"]:
                data = {"a": np.arange(len(E), dtype=float), "b": torch.arange(len(E), dtype=torch.float64)}
            mesh.save(path + (".xdmf" if o["suffix"] else ""), element_data=data)
            tail(X, E, s, mesh, first, ctx, what + "saved mesh: ")
            mesh = TetraMesh.load(path + ".xdmf")
        tail(X, E, s, mesh, first, ctx, what)
    for old, Y, what in kept:
        close(old.coord, Y, "original of a copy, " + what, 0, 1e-10 * (np.abs(Y).max() + s), sig="copy is independent")
    close(given, before[0], "the caller's vertices", 0, 0)
    close(enod, before[1], "the caller's elements", 0, 0)
    ctx.nontrivial(moved)
    for a, b in zip(kinds, kinds[1:]):
        ctx.event("%s then %s" % (a, b))
    ctx.event("mesh %s" % m["kind"])
    ctx.event("operations %d" % len(kinds))


@component(P, "spheres", meshes(), 1200, 20000,
           "every element, the bounding sphere is minimal and contains the nodes; mesh of at least one element (always)")
def spheres(case, ctx):
    coord, enod = build(case)
    rng = np.random.default_rng(case["seed"] + 1)
    # flat, needle like and obtuse shapes: all three supports of the minimal sphere
    stretch = 10.0 ** rng.uniform(-1.3, 0, 3)
    X = (np.asarray(coord, float) * stretch) @ ref.rotvec_matrix(rng.normal(size=3)).T
    E = enod.astype(int)
    mesh = TetraMesh.generate_mesh_from_vertices(X, E)
    r, c = arr(mesh.eradius), arr(mesh.espherecentroids)
    s = np.abs(X).max()
    for i, e in enumerate(E):
        c0, r0 = ref.min_sphere(X[e])
        reach = np.linalg.norm(X[e] - c[i], axis=1).max()
        check(reach <= r[i] * (1 + 1e-9) + 1e-10 * s, "node outside of the bounding sphere: %g > %g" % (reach, r[i]), "contains")
        check(abs(r[i] - r0) <= 3e-4 * r0 + 1e-10 * s, "radius %g, minimal %g" % (r[i], r0), "minimal")
        n = int(np.sum(np.abs(np.linalg.norm(X[e] - c0, axis=1) - r0) < 1e-6 * r0))
        ctx.event("support of the minimal sphere %d" % n)
    ctx.nontrivial()


@component(P, "crowd", st.fixed_dictionaries(dict(crowd=crowd.cases(top=800), ops=st.lists(OPS, min_size=1, max_size=3))), 50, 800,
           "a mesh of up to 800 elements, moved")
def many(case, ctx):
    w = crowd.Crowd(case["crowd"])
    mesh = TetraMesh.generate_mesh_from_vertices(w.coord, w.enod)
    X, s = w.coord, w.scale
    first = [np.inf] * w.n
    for i in range(0, w.n, max(1, w.n // 20)):
        first[i] = None
    tail(X, w.enod, s * 0.3, mesh, first, ctx, "after generation: ")
    for o in case["ops"]:
        if o["op"] == "translate":
            v = np.array(o["by"]) * s
            mesh.translate(v)
            X = X + v
        elif o["op"] == "rotate":
            mesh.rotate(np.array(o["axis"]), o["angle"])
            X = X @ ref.rot(o["axis"], o["angle"]).T
        elif o["op"] == "update":
            q = dict(o["motion"], translation=[x * s for x in o["motion"]["translation"]], origin=[x * s for x in o["motion"]["origin"]])
            mesh.update(world.make_motion(q), o["time"])
            X = ref.move(q, X, o["time"])
        elif o["op"] == "copy":
            mesh = copy.deepcopy(mesh)
    tail(X, w.enod, s * 0.3, mesh, first, ctx, "after operations: ")
    ctx.nontrivial(w.n > 3 and any(o["op"] in ("translate", "rotate", "update") for o in case["ops"]))
