"""C13: rays hit the detector where geometry says, on an exact pixel grid."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from vf import gen, ref, world
from vf.core import Reject, arr, check, close, component, priv

P = "C13"


@st.composite
def detectors(draw, tilt=1.2, pixel=True):
    d = dict(distance=draw(gen.log(1.0, 1e6)), direction=draw(gen.unit))
    d["size"] = [draw(gen.log(0.05, 3.0)) * d["distance"], draw(gen.log(0.05, 3.0)) * d["distance"]]
    d["shift"] = draw(st.one_of(st.just([0.0, 0.0]), st.lists(gen.even(-1, 1), min_size=2, max_size=2).map(
        lambda v: [x for x in v])))
    d["shift"] = [x * z for x, z in zip(d["shift"], d["size"])]
    r = draw(st.one_of(st.just([0.0, 0.0, 0.0]), gen.random_unit.map(lambda u: [x for x in u])))
    a = draw(gen.even(0, tilt))
    d["tilt"] = [x * a for x in r]
    n = [draw(st.integers(1, 40)), draw(st.integers(1, 40))]
    big = draw(gen.rarely(15, st.integers(41, 2500), st.just(0)))
    if big:
        n[draw(st.integers(0, 1))] = big
    kind = draw(st.sampled_from(["pixels", "pixels", "pair", "single"]))
    if kind == "pixels" or not pixel:
        d["pixels"] = n
    elif kind == "pair":
        part = draw(st.sampled_from([0.0, 0.0, 0.3, 0.5]))
        d["pixel"] = [d["size"][1] / (n[0] - part * (n[0] > 1)), d["size"][0] / (n[1] - part * (n[1] > 1))]
    else:
        d["pixel"] = min(d["size"]) / n[0]
        d["size"] = [min(x, d["pixel"] * 60) for x in d["size"]]
    return d


def synthetic(K, X, times=None, n_cols=25):
    """A peaks dictionary for rays K from X."""
    n = len(K)
    p = np.zeros((n, n_cols))
    p[:, 5] = 1.0
    p[:, 6] = np.linspace(0.1, 0.9, n) if times is None else times
    p[:, 13:16], p[:, 16:19] = K, X
    p[:, 19:21] = 1.0
    p[:, 21] = 1.0
    p[:, 22], p[:, 23] = 0.1, 1e-5
    p[:, 24] = np.arange(n)
    return dict(peaks=torch.tensor(p), columns=list(world.COLUMNS), incident_vector=torch.tensor([1.0, 0, 0]), wavelength=0.3,
                rotation_axis=torch.tensor([0.0, 0, 1.0]), verbose=False)


@st.composite
def ray_case(draw):
    return dict(detector=draw(detectors()), seed=draw(gen.seeds), n=draw(gen.rarely(40, st.sampled_from([500, 4000]), st.integers(1, 30))), spread=draw(st.sampled_from([0.0, 0.01, 0.3, 3.0])),
                length=draw(gen.log(1e-3, 1e3)), frames=draw(st.sampled_from([1, 1, 5])))


def split(res):
    c = list(res["columns"])
    p = arr(res["peaks"])
    return p, {n: p[:, c.index(n)] for n in c}


@component(P, "rays", ray_case(), 3500, 50000,
           "rays from spread out sources, some hitting and some missing the detector (over an edge or going backwards); "
           "every hit position and angle is solved independently")
def rays(case, ctx):
    d = case["detector"]
    D = world.make_detector(d)
    c0, c1, c2 = world.detector_corners(d)
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    y, z = (c1 - c0) / np.linalg.norm(c1 - c0), (c2 - c0) / np.linalg.norm(c2 - c0)
    sy, sz = np.linalg.norm(c1 - c0), np.linalg.norm(c2 - c0)
    size = max(sy, sz)
    X = rng.normal(size=(n, 3)) * case["spread"] * d["distance"]
    # aim at points of the detector plane around the detector
    u = rng.choice([0.0, 1.0, 0.5, 0.001, 0.999, -0.001, 1.001, 0.3, 0.77, 1.4, -0.4], size=n)
    v = rng.choice([0.5, 0.5, 0.001, 0.999, -0.001, 1.001, 0.2, 0.9, 1.6, -0.3], size=n)
    target = c0 + np.outer(u * sz, z) + np.outer(v * sy, y)
    K = target - X
    back = rng.uniform(size=n) < 0.15
    far = np.linalg.norm(K, axis=1)
    ok = far > 1e-6 * d["distance"]
    K = K / far[:, None] * case["length"] * np.where(back, -1, 1)[:, None]
    nrm = np.cross(z, y)
    # a ray along the normal
    if n > 2 and not back[0]:
        K[0] = -nrm * case["length"] * np.sign((X[0] - c0) @ nrm)
    graze = np.abs(K @ nrm) / case["length"]
    ok &= graze > 1e-3
    K, X, back = K[ok], X[ok], back[ok]
    if not len(K):
        raise Reject("no usable ray")
    keep_K, keep_X = K.copy(), X.copy()
    pd = synthetic(K, X)
    before = pd["peaks"].clone()
    p, c = split(D.peaks_detector_intersection(pd, case["frames"], verbose=False))
    check(torch.equal(pd["peaks"], before) and list(pd["columns"]) == list(world.COLUMNS), "the input peaks were changed")
    by = {int(round(i)): j for j, i in enumerate(c["peak_index"])}
    check(len(by) == len(p), "a ray is listed twice")
    hits = 0
    for i in range(len(K)):
        s, a, b = ref.ray_hit((c0, c1, c2), keep_X[i], keep_K[i])
        tol = 1e-8 * (size + d["distance"] + np.abs(keep_X[i]).max()) / max(1e-3, abs(keep_K[i] @ nrm) / case["length"])
        inside = min(a, sz - a, b, sy - b)
        forward = s * case["length"]
        if forward < -tol or inside < -tol:
            check(i not in by, lambda: "a ray that %s is reported as a hit" % ("goes away from the detector" if forward < 0 else "misses by %g" % -inside))
        elif forward > tol and inside > tol:
            check(i in by, lambda: "a ray that hits %g inside of the edge is lost" % inside)
        if i in by:
            j = by[i]
            hits += 1
            close([c["zd"][j], c["yd"][j]], [a, b], "hit position", 0, tol)
            cos = -(keep_K[i] @ nrm) / np.linalg.norm(keep_K[i])
            check(np.isfinite(c["incident_angle"][j]), "incidence angle is NaN")
            close(math.cos(math.radians(c["incident_angle"][j])), cos, "cosine of the incidence angle", 0, 1e-9)
            sin = np.linalg.norm(np.cross(keep_K[i], nrm)) / np.linalg.norm(keep_K[i])
            close(math.sin(math.radians(c["incident_angle"][j])), sin, "sine of the incidence angle", 0, 3e-8)
            close(p[j][:25], arr(before)[i], "columns of a hit", 0, 0)
            # contains() agrees
    z_, y_ = torch.tensor([c["zd"], c["yd"]]) if len(p) else (torch.zeros(0), torch.zeros(0))
    check(bool(torch.all(D.contains(z_, y_))), "a listed hit is not contained by the detector")
    ctx.nontrivial(hits > 0)
    if 0 < hits < len(K):
        ctx.event("hits and misses")
    if n > 30:
        ctx.event("many rays")
    if back.any():
        ctx.event("backward rays")


@component(P, "grid", st.fixed_dictionaries(dict(detector=detectors(), seed=gen.seeds, scale=gen.log(1e-2, 1e2))), 2500, 30000,
           "a detector with more than one pixel: number, size and position of all pixels, edges and axes")
def grid(case, ctx):
    d = case["detector"]
    D = world.make_detector(d)
    c0, c1, c2 = world.detector_corners(d)
    sy, sz = np.linalg.norm(c1 - c0), np.linalg.norm(c2 - c0)
    if "pixels" in d:
        nz, ny = d["pixels"]
        pz, py = sz / nz, sy / ny
    else:
        pz, py = d["pixel"] if isinstance(d["pixel"], list) else (d["pixel"],) * 2
        nz, ny = int(math.ceil(sz / pz - 1e-6)), int(math.ceil(sy / py - 1e-6))
    X = arr(D.pixel_coordinates)
    check(X.shape == (nz, ny, 3), lambda: "pixel grid is %s, expected %s" % (X.shape, (nz, ny, 3)), "number of pixels")
    close([float(D.pixel_size_z), float(D.pixel_size_y)], [pz, py], "pixel size", 1e-9, 0)
    close([float(D.zmax), float(D.ymax)], [sz, sy], "detector size", 1e-9, 0)
    z, y = (c2 - c0) / sz, (c1 - c0) / sy
    close(D.zdhat, z, "zdhat", 1e-9, 1e-10)
    close(D.ydhat, y, "ydhat", 1e-9, 1e-10)
    close(D.normal, np.cross(z, y), "normal", 1e-8, 1e-9)
    i, j = np.meshgrid(np.arange(nz), np.arange(ny), indexing="ij")
    E = c0 + (i * pz)[..., None] * z + (j * py)[..., None] * y
    tol = 1e-9 * (d["distance"] + sy + sz)
    close(X, E, "pixel coordinates", 0, tol)
    # contains: on a grid of points in and around the detector, edges included
    rng = np.random.default_rng(case["seed"])
    f = np.r_[0.0, 1.0, rng.uniform(-0.5, 1.5, 10), -1e-6, 1 + 1e-6, 1e-6, 1 - 1e-6]
    A, B = np.meshgrid(f * float(D.zmax), f * float(D.ymax))
    got = arr(D.contains(torch.tensor(A.ravel()), torch.tensor(B.ravel())))
    exp = ((A >= 0) & (A <= float(D.zmax)) & (B >= 0) & (B <= float(D.ymax))).ravel()
    close(got.astype(float), exp.astype(float), "contains", 0, 0)
    # equivalent descriptions: a number, a pair, tuple or list, n_pixels or the pixel size they imply
    if "pixels" in d:
        E1 = world.make_detector({k: v for k, v in d.items() if k != "pixels"}, pixel_size=(pz, py)) if False else None
        from xrd_simulator.detector import Detector
        E1 = Detector(c0, c1, c2, pixel_size=(pz, py))
        check(arr(E1.pixel_coordinates).shape == (nz, ny, 3), "pixel_size equivalent to n_pixels gives another grid")
        if nz == ny:
            close(Detector(c0, c1, c2, n_pixels=nz).pixel_coordinates, X, "single number of pixels", 0, tol)
    if max(nz, ny) > 61:
        ctx.event("large detector")
    ctx.nontrivial(nz * ny > 1)


@component(P, "cone", st.fixed_dictionaries(dict(detector=detectors(pixel=False), seed=gen.seeds, corner=st.integers(-3, 3), k=gen.log(0.1, 100))), 2000, 20000,
           "a source point and a wave vector (sometimes through a corner): half the largest angle to a corner")
def cone(case, ctx):
    d = case["detector"]
    D = world.make_detector(d)
    f = priv(D, "_get_wrapping_cone")
    if f is None:
        ctx.event("helper not present")
        return
    rng = np.random.default_rng(case["seed"])
    c0, c1, c2 = world.detector_corners(d)
    C = np.array([c0, c1, c2, c1 + c2 - c0])
    x = rng.normal(size=3) * d["distance"] * rng.choice([0, 0.01, 0.3])
    k = np.array(d["direction"]) + rng.normal(size=3) * rng.choice([0, 0.1])
    if case["corner"] >= 0:
        k = C[case["corner"]] - x
        ctx.event("through a corner")
    k = k / np.linalg.norm(k)
    V = C - x
    L = np.linalg.norm(V, axis=1)
    if L.min() < 1e-6 * d["distance"]:
        raise Reject("source on a corner")
    ang = np.arctan2(np.linalg.norm(np.cross(V, k), axis=1), V @ k)
    got = float(f(torch.tensor(k * case["k"]), torch.tensor(x)))
    check(np.isfinite(got), "wrapping cone is NaN")
    close(got, ang.max() / 2, "wrapping cone", 1e-7, 3e-8)
    ctx.nontrivial()


@component(P, "single", st.fixed_dictionaries(dict(detector=detectors(), seed=gen.seeds, length=gen.log(1e-2, 1e2))), 1200, 12000,
           "single rays and points through the helpers that take one at a time; the ray hits the plane in front of it")
def single(case, ctx):
    d = case["detector"]
    D = world.make_detector(d)
    c0, c1, c2 = world.detector_corners(d)
    sy, sz = np.linalg.norm(c1 - c0), np.linalg.norm(c2 - c0)
    y, z = (c1 - c0) / sy, (c2 - c0) / sz
    nrm = np.cross(z, y)
    rng = np.random.default_rng(case["seed"])
    X = rng.normal(size=3) * d["distance"] * rng.choice([0, 0.1, 1.0])
    u, v = rng.uniform(-0.5, 1.5, 2)
    K = c0 + u * sz * z + v * sy * y - X
    if np.linalg.norm(K) < 1e-3 * d["distance"] or abs(K @ nrm) < 1e-3 * np.linalg.norm(K):
        raise Reject("no usable ray")
    K = K / np.linalg.norm(K) * rng.choice([-1, 1, 1])
    s, a, b = ref.ray_hit((c0, c1, c2), X, K)
    tol = 1e-8 * (max(sy, sz) + d["distance"] + np.abs(X).max()) / 1e-3
    f = priv(D, "_get_intersection")
    if f is not None:
        got = arr(f(torch.tensor(K * case["length"]), torch.tensor(X)))
        check(got.shape == (1, 3), "shape of the hit of a single ray")
        if s > 0:
            close(got[0, :2], [a, b], "hit of a single ray", 0, tol)
            close(math.cos(math.radians(got[0, 2])), -K @ nrm, "incidence of a single ray", 0, 1e-8)
        else:
            check(np.isnan(got[0, :2]).all(), "a ray that goes away from the detector has a hit")
    f = priv(D, "_ray_detector_intersection")
    if f is not None:
        got = f(X, K)
        check((got is None) == (s < 0), "a ray hits the plane when it goes towards it")
        if got is not None:
            close(got, X + s * K, "point of the plane", 0, tol)
    f = priv(D, "_world_to_pixel_coords")
    if f is not None:
        pz, py = float(D.pixel_size_z), float(D.pixel_size_y)
        n = arr(D.pixel_coordinates).shape
        q = c0 + u * sz * z + v * sy * y + rng.normal() * nrm * d["distance"]
        got = f(q)
        want = np.array([u * sz / pz, v * sy / py])
        m = min(want[0], n[0] - want[0], want[1], n[1] - want[1])
        if abs(m) > 1e-6:
            check((got is None) == (m < 0), "pixel coordinates of a point beside the detector")
            if got is not None:
                close(np.array(got, float), want, "pixel coordinates", 1e-9, 1e-7 * d["distance"] / min(pz, py) + 1e-9)
    ctx.nontrivial(s > 0)
