"""C18: macro images are the shadow of the illuminated part of the element."""
import functools
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy.spatial import ConvexHull

from vf import gen, ref, rend, world
from vf.core import Reject, arr, check, close, component, priv
from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector

P = "C18"


@functools.lru_cache
def some_detector():
    return Detector(pixel_size=(1.0, 1.0), det_corner_0=np.array([9.0, 0, 0]), det_corner_1=np.array([9.0, 4, 0]), det_corner_2=np.array([9.0, 0, 4]))


@st.composite
def line_case(draw):
    kind = draw(st.sampled_from(["random", "random", "box", "prism", "tetrahedron", "thin"]))
    return dict(kind=kind, seed=draw(gen.seeds), n=draw(st.integers(4, 14)), scale=draw(gen.log(1e-3, 1e4)), rot=draw(gen.rotvec),
                aligned=draw(st.sampled_from(["no", "no", "face", "axis", "edge"])), at=draw(gen.vec(-2, 2)), flip=draw(st.booleans()),
                thin=draw(gen.log(1e-4, 1.0)), lines=draw(gen.rarely(25, st.sampled_from([700, 6000]), st.just(6))))


@component(P, "line", line_case(), 2500, 60000,
           "a convex hull and lines through it, beside it, parallel to its faces and edges; path length bracketed by those in a "
           "hull that is smaller and one that is larger by 1e-9, linear in the scale and independent of the points on the lines")
def line(case, ctx):
    clip = priv("xrd_simulator.utils", "_clip_line_with_convex_polyhedron")
    if clip is None:
        return ctx.event("no such helper")
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "box":
        pts = world.box(rng.uniform(0.2, 1, 3), np.eye(3), np.zeros(3))
    elif case["kind"] == "prism":
        a = np.sort(rng.uniform(0, 2 * math.pi, 5))
        pts = np.array([[math.cos(x), math.sin(x), z] for x in a for z in (-0.5, 0.7)])
    elif case["kind"] == "tetrahedron":
        pts = rng.normal(size=(4, 3))
    else:
        pts = rng.normal(size=(case["n"], 3))
    if case["kind"] == "thin":
        pts[:, 2] *= case["thin"]
    if ref.min_width(pts) < 1e-5:
        raise Reject("flat")
    R = ref.rotvec_matrix(case["rot"]) if case["aligned"] != "axis" else np.eye(3)
    pts = pts @ R.T + np.array(case["at"])
    hull = ConvexHull(pts)
    A, b = hull.equations[:, :3], -hull.equations[:, 3]
    d = rng.normal(size=3)
    if case["aligned"] == "face":  # in the plane of a face
        d = np.cross(A[rng.integers(len(A))], d)
    elif case["aligned"] == "axis":
        d = np.eye(3)[rng.integers(3)]
    elif case["aligned"] == "edge":
        s = hull.simplices[rng.integers(len(hull.simplices))]
        d = pts[s[0]] - pts[s[1]]
    d = d / np.linalg.norm(d) * (-1 if case["flip"] else 1)
    # lines: through inner points, around, through vertices, along faces
    many = case.get("lines", 6)
    w = rng.dirichlet(np.ones(len(pts)), size=many)
    x = np.vstack([w @ pts, pts.mean(axis=0) + rng.normal(size=(many, 3)) * np.ptp(pts, axis=0).max(), pts[:3],
                   pts[hull.simplices[0]].mean(axis=0)[None]])
    x = x + rng.normal(size=(len(x), 1)) * 3 * d
    s = case["scale"]
    got = arr(clip(torch.tensor(x * s), torch.tensor(d), torch.tensor((b[:, None] * A) * s), torch.tensor(A)))
    check(got.shape == (len(x),) and np.isfinite(got).all() and (got >= 0).all(), "path lengths are finite and not negative", "finite")
    got = got / s
    size = np.ptp(pts, axis=0).max() + np.abs(pts).max()
    eps = 1e-9 * size
    # faces that are parallel to the line may cut it or not when it runs in them
    lo, hi = ref.clip_lines(A, b - eps, x, d), ref.clip_lines(A, b + eps, x, d)
    small = 2e-12 / s + 1e-9 * size
    grazing = np.abs(A @ d)
    grazing = grazing[(grazing > 0) & (grazing < 1e-5)]
    if len(grazing) == 0:
        for g, l, h in zip(got, lo, hi):
            check(l - small <= g <= h + small, "path length %.12g, expected between %.12g and %.12g" % (g, l, h), "length")
    back = arr(clip(torch.tensor(x * s), torch.tensor(-d), torch.tensor((b[:, None] * A) * s), torch.tensor(A))) / s
    if len(grazing) == 0:
        same = hi - lo < 1e-6 * size
        close(back[same], got[same], "path lengths along the opposite direction", 1e-9, 1e-6 * size, sig="direction")
    one = priv(some_detector(), "_compute_pixel_path_length")
    if one is not None:
        for q in (0, 7, len(x) - 1):
            g = one(x[q] * s, d, ConvexHull(pts * s)) / s
            if len(grazing) == 0:
                check(lo[q] - small - 1e-9 * size <= g <= hi[q] + small + 1e-9 * size, "path length of one line %.12g, expected %.12g to %.12g" % (g, lo[q], hi[q]), "length of one")
    inside = lo > 1e-6 * size
    ctx.nontrivial(inside.any() and (hi == 0).any())
    ctx.event("lines %s" % case["aligned"])
    ctx.event(case["kind"])


@st.composite
def image_case(draw, small=False):
    if small:
        d = draw(rend.detectors(lo=5, hi=9, sigma=st.just(0.05)))
        grain = draw(gen.log(0.3, 0.9))
        at = [draw(gen.even(0.2, 0.8)), draw(gen.even(0.2, 0.8))]
    else:
        d = draw(rend.detectors(lo=10, hi=48, sigma=st.just(0.05)))
        grain = draw(st.one_of(gen.log(1e-3, 100.0), gen.log(3, 25.0)))
        at = [draw(st.one_of(gen.even(0.15, 0.85), gen.even(0.01, 0.99))) for _ in range(2)]
    p = draw(rend.peak(st.just(at)))
    return dict(detector=d, peak=p, grain=grain, thin=draw(st.sampled_from([1.0, 1.0, 0.1, 0.01] if not small else [1.0, 1.0, 0.3])), cut=draw(st.sampled_from([None, None, "half", "corner", "inner", "miss"] if not small else [None, None, "half"])),
                cutdir=draw(gen.random_unit), cutat=draw(gen.even(-0.25, 0.35)), rot=draw(gen.rotvec), snap=draw(st.sampled_from([False, small, True])),
                motion=draw(world.motions(shift=0.01, origin=0.01)))


def setup(case):
    """Scene with one element, the illuminated polytope A x <= b (or None), and its vertices."""
    d, p = case["detector"], dict(case["peak"])
    pz, py = rend.pixel_sizes(d)
    size = case["grain"] * max(pz, py)
    n = d["pixels"]
    pos = [f * m for f, m in zip(p["pos"], n)]
    if case["snap"]:
        pos = [min(max(float(round(q)), 1.0), m - 1.0) for q, m in zip(pos, n)]
    motion = dict(case["motion"])
    motion["translation"] = [x * max(d["size"]) for x in motion["translation"]]
    motion["origin"] = [x * max(d["size"]) for x in motion["origin"]]
    p["volume"] = size**3 * 0.12
    S = rend.Scene(d, [p], [pos], motion=motion)
    if case["thin"] != 1.0:
        # flatten the element along a direction of its own
        X = S.V[0]
        c = X.mean(axis=0)
        u = ref.rotvec_matrix(case["rot"])[:, 0]
        S.V[0] = X - np.outer((X - c) @ u, u) * (1 - case["thin"])
        S.mesh = type(S.mesh).generate_mesh_from_vertices(S.V[0], np.arange(4).reshape(1, 4))
    X = ref.move(S.motion, S.V[0], p["time"])
    c = X.mean(axis=0)
    A, b = ref.halfspaces(X)
    full = A, b
    if case["cut"]:
        u = np.asarray(case["cutdir"])
        big, r = 1e3 * max(d["size"]), np.abs((X - c) @ u).max()
        if case["cut"] == "miss":
            h, at = [big, big, big], c + u * (r * 1.05 + big)
        elif case["cut"] == "half":
            h, at = [big, big, big], c + u * (case["cutat"] * r + big)
        elif case["cut"] == "corner":
            h, at = [big, big, big], None
        else:
            h, at = [0.7 * r, 0.5 * r, big], c + u * case["cutat"] * r
        v = np.cross(u, [0.3, 0.5, 0.8])
        v /= np.linalg.norm(v)
        R = np.stack([u, v, np.cross(u, v)])
        if at is None:
            at = c + R.T @ (np.array([case["cutat"], 0.1, -0.2]) * r + big)
        B = world.box(np.array(h), R, at)
        S.beam = Beam(B, np.asarray(d["direction"], float), 0.3, world.pol_of(S.beam_spec))
        # as the library represents it
        A2, b2 = ref.halfspaces(B)
        A, b = np.vstack([A, A2]), np.r_[b, b2]
    return S, p, X, A, b, c, size


def shadow(S, V):
    pz, py = S.pix
    return np.array([ref.ray_hit(world.detector_corners(S.d), v, S.K[0])[1:] for v in V]) / [pz, py]


def on_detector(S, A, b, rows=None, cols=None):
    """Half spaces of the part of A x <= b that is projected to these pixels (default: all of the detector)."""
    c0, z, y = rend.plane(S.d)
    n = np.cross(z, y)
    K = S.K[0]
    gz, gy = z - n * (z @ K) / (K @ n), y - n * (y @ K) / (K @ n)
    pz, py = S.pix
    rows, cols = rows or (0, S.d["pixels"][0]), cols or (0, S.d["pixels"][1])
    A2 = np.array([gz, -gz, gy, -gy])
    b2 = np.array([rows[1] * pz, -rows[0] * pz, cols[1] * py, -cols[0] * py]) + A2 @ c0
    return np.vstack([A, A2]), np.r_[b, b2]


def volume(A, b, c, s):
    V = ref.polytope(A, b, c, s)
    return 0.0 if V is None else ConvexHull(V).volume


@component(P, "image", image_case(), 1800, 30000,
           "an element from a thousandth of a pixel to larger than the detector, thick or thin, cut by the beam or not, on or partly "
           "beside the detector: support, total and, when it covers pixels, each pixel against the path lengths in the illuminated part")
def image(case, ctx):
    S, p, X, A, b, c, size = setup(case)
    pz, py = S.pix
    nz, ny = S.d["pixels"]
    F = arr(S.render("macro"))[0]
    check(np.isfinite(F).all() and (F >= 0).all(), "image with negative or non finite pixels", "finite")
    scale = pz * py * S.expected_factor[0]
    F = F / scale
    V = ref.polytope(A, b, c, size, tol=1e-7)
    whole = ref.tet_volume(X)
    # accuracy of the half spaces of the library: six decimals
    blur = 4e-6 * (1 + np.abs(X).max()) if case["cut"] else 1e-12 * (size + np.abs(X).max())
    thick = ref.min_width(X)
    if thick < 50 * blur:
        check(F.sum() <= whole * (1 + 1e-5) * (1 + 4 * blur / thick) ** 3, "more intensity than volume", "total")
        ctx.event("too thin to resolve")
        return
    rel = 3e-6 + (6 * blur / thick if case["cut"] else 0)
    if V is None:
        check(F.sum() <= whole * (rel + 1e-5), "image of an element that is not illuminated", "not illuminated")
        ctx.event("not illuminated")
        return
    H = ConvexHull(V)
    sh = shadow(S, V)
    tol = (blur + 1e-9 * np.abs(X).max()) / min(pz, py) * 5 + 1e-7
    if tol > 0.01:
        tol = 0.5
    lo, hi = sh.min(axis=0) - tol, sh.max(axis=0) + tol
    r, q = np.nonzero(F > 1e-14 * F.max())  # (the narrow spread function leaves 1e-87)
    if len(r):
        check(r.min() >= math.floor(lo[0]) and r.max() <= math.floor(hi[0]) and q.min() >= math.floor(lo[1]) and q.max() <= math.floor(hi[1]),
              "intensity in rows %d to %d, columns %d to %d, the shadow covers %s to %s" % (r.min(), r.max(), q.min(), q.max(), lo.tolist(), hi.tolist()), "support")
    inside = np.all(sh > tol) and np.all(sh < np.array([nz, ny]) - tol)
    outside = np.any(sh.max(axis=0) < -tol) or np.any(sh.min(axis=0) > np.array([nz, ny]) + tol)
    if inside:
        close(F.sum(), H.volume, "total of the image and illuminated volume", rel, rel * whole, sig="total")
    else:
        check(F.sum() <= H.volume * (1 + rel) + rel * whole, "total of the image %.6g, illuminated volume %.6g" % (F.sum(), H.volume), "total")
    if outside:
        check(F.sum() <= rel * whole, "image of an element that is projected beside the detector", "beside")
    on = np.clip(sh, 0, [nz, ny])
    span = np.floor(on.max(axis=0)) - np.floor(on.min(axis=0)) + 1
    width = np.ptp(on, axis=0)
    # path lengths along the rays through the pixels
    k = S.K[0] / np.linalg.norm(S.K[0])
    pix = arr(S.detector.pixel_coordinates).reshape(-1, 3)
    L = ref.clip_lines(H.equations[:, :3], -H.equations[:, 3], pix, k).reshape(nz, ny)
    e = 3 * blur + 1e-9 * size
    Llo = ref.clip_lines(H.equations[:, :3], -H.equations[:, 3] - e, pix, k).reshape(nz, ny)
    Lhi = ref.clip_lines(H.equations[:, :3], -H.equations[:, 3] + e, pix, k).reshape(nz, ny)
    if np.prod(span) > 4 and (Llo > 1e-3 * size).sum() >= 3 and tol < 0.01 and np.prod(np.floor(on.max(axis=0) - tol) - np.floor(on.min(axis=0) + tol) + 1) > 4:
        f = F.sum() / L.sum()
        err = (Lhi - Llo).sum() / L.sum() + 1e-6
        if err < 0.02:
            close(F, f * L, "pixels and path lengths", 2 * err, f * ((Lhi - Llo).max() * 2 + (2 * err) * 1e-3 * L.max()), sig="proportional")
            ctx.event("path lengths compared")
            if inside:
                ctx.event("inside of the detector")
            elif min(width) > 5 and case["thin"] == 1.0:
                # the volume that is projected to the detector, to the accuracy of one ray per pixel
                von = volume(*on_detector(S, A, b), c, size)
                check(0.7 * von - 0.06 * H.volume <= F.sum() <= 1.3 * von + 0.06 * H.volume,
                      "total of the image %.4g, volume projected on the detector %.4g of %.4g" % (F.sum(), von, H.volume), "share")
                ctx.event("over the edge")
            ctx.nontrivial()
    elif np.prod(span) <= 4:
        ctx.event("within 4 pixels")
        ctx.nontrivial(np.prod(span) > 1 or case["cut"] is not None)


@component(P, "samples", image_case(small=True), 120, 2400,
           "an element of about one pixel that covers up to four of them, drawn many times: the share of each pixel is the volume "
           "in front of it (5.5 standard errors)")
def samples(case, ctx):
    case = dict(case)
    if case["cut"] == "miss":
        case["cut"] = None
    S, p, X, A, b, c, size = setup(case)
    pz, py = S.pix
    blur = 4e-6 * (1 + np.abs(X).max()) if case["cut"] else 0
    if blur * 20 > size or (case["cut"] and blur * 100 > ref.min_width(X)):
        raise Reject("too small for the six decimals of the beam faces")
    V = ref.polytope(A, b, c, size, tol=1e-4)
    if V is None:
        raise Reject("not illuminated")
    H = ConvexHull(V)
    sh = shadow(S, V)
    i0, i1 = np.floor(sh.min(axis=0)).astype(int), np.floor(sh.max(axis=0)).astype(int) + 1
    npx = int(np.prod(i1 - i0))
    if npx > 4 or npx < 2 or np.any(i0 < 0) or np.any(i1 > S.d["pixels"]):
        raise Reject("not within 2 to 4 pixels")
    N = 160
    peaks = S.peaks()
    peaks["peaks"] = peaks["peaks"].repeat(N, 1)
    F = arr(S.detector.render(peaks, frames_to_render=1, method="macro", verbose=False)[0])[0]
    F = F / (pz * py * S.expected_factor[0] * N * H.volume)
    close(F.sum(), 1.0, "total", 1e-4, sig="total samples")
    worst = 0.0
    for i in range(i0[0], i1[0]):
        for j in range(i0[1], i1[1]):
            v = volume(*on_detector(S, A, b, (i, i + 1), (j, j + 1)), c, size) / H.volume
            se = math.sqrt(max(v * (1 - v), 1e-4) / (7 * npx * N))
            check(abs(F[i, j] - v) <= 5.5 * se + 2e-3, "pixel %d, %d holds %.4f of the intensity, %.4f of the volume is in front of it (standard error %.4f)" % (i, j, F[i, j], v, se), "share of volume")
            worst = max(worst, min(v, 1 - v))
    ctx.nontrivial(worst > 0.1)
    ctx.event("pixels %d" % npx)


@st.composite
def several_case(draw):
    d = draw(rend.detectors(lo=40, hi=56, sigma=st.just(0.05), flags=True))
    n = draw(st.integers(1, 3))
    # element, place on the detector, time, factor: elements diffract more than once
    hit = st.fixed_dictionaries(dict(e=st.integers(0, n - 1), at=st.tuples(gen.even(0, 1), gen.even(0, 1)),
                                     time=st.one_of(gen.even(0, 1), st.sampled_from([0.25, 0.75])), sf=gen.log(0.1, 10)))
    return dict(detector=d, elements=[dict(at=draw(gen.vec(-1, 1)), size=draw(gen.even(3.0, 8.0)), shape=draw(st.integers(0, 2**16))) for _ in range(n)],
                hits=draw(st.lists(hit, min_size=2, max_size=8)), frames=draw(st.sampled_from([1, 1, 2, 3, 7])), cut=draw(st.booleans()),
                cutdir=draw(gen.random_unit), cutat=draw(gen.even(-1.0, 1.0)), motion=draw(world.motions(shift=1.0, origin=1.0)))


@component(P, "several", several_case(), 500, 9000,
           "elements that diffract several times at different times of the motion, drawn together: the frames are the sums of the single "
           "images, and each of them holds the volume of the element that is illuminated at its time")
def several(case, ctx):
    d = case["detector"]
    pz, py = rend.pixel_sizes(d)
    unit = max(pz, py)
    m = dict(case["motion"])
    m["translation"] = [x * 3 * unit for x in m["translation"]]
    m["origin"] = [x * 6 * unit for x in m["origin"]]
    V = []
    for e in case["elements"]:
        rng = np.random.default_rng(e["shape"])
        x = rng.normal(size=(4, 3))
        while ref.min_width(x) < 0.4:
            x = rng.normal(size=(4, 3))
        x -= x.mean(axis=0)
        V.append(x / np.abs(x).max() * e["size"] * unit / 2 + np.array(e["at"]) * 8 * unit)
    V = np.array(V)
    corners = world.detector_corners(d)
    n = len(case["hits"])
    p = np.zeros((n, 25))
    X = np.array([ref.move(m, V[h["e"]], h["time"]) for h in case["hits"]])
    rows = np.array([[14 + f * (q - 28) for f, q in zip(h["at"], d["pixels"])] for h in case["hits"]])
    T = np.array([rend.target(d, q) for q in rows])
    p[:, 0] = [h["e"] for h in case["hits"]]
    p[:, 2:5] = 1
    p[:, 5], p[:, 19], p[:, 20] = [h["sf"] for h in case["hits"]], 2.0, 0.5
    p[:, 6] = [h["time"] for h in case["hits"]]
    p[:, 16:19] = X.mean(axis=1)
    p[:, 13:16] = T - p[:, 16:19]
    p[:, 13:16] *= 20 / np.linalg.norm(p[:, 13:16], axis=1)[:, None]
    p[:, 21] = [ref.tet_volume(V[h["e"]]) for h in case["hits"]]
    p[:, 22], p[:, 23], p[:, 24] = 0.1, 1e-3, np.arange(n)
    factor = np.ones(n)
    for flag, c in (("use_structure_factor", 5), ("use_polarization", 20), ("use_lorentz", 19)):
        if d.get(flag, True):
            factor = factor * p[:, c]
    big = 1e4 * unit
    B = world.box(np.array([big] * 3), np.eye(3), np.zeros(3))
    if case["cut"]:
        u = np.asarray(case["cutdir"])
        v = np.cross(u, [0.3, 0.5, 0.8])
        v /= np.linalg.norm(v)
        mid = X.reshape(-1, 3)
        at = np.average([mid.min(axis=0), mid.max(axis=0)], axis=0) + u * (case["cutat"] * np.ptp(mid @ u) / 2 + big)
        B = world.box(np.array([big] * 3), np.stack([u, v, np.cross(u, v)]), at)
    beam = Beam(B, np.asarray(d["direction"], float), 0.3, world.pol_of(dict(direction=d["direction"], pol=0.0)))
    from xrd_simulator.mesh import TetraMesh
    mesh = TetraMesh.generate_mesh_from_vertices(V.reshape(-1, 3), np.arange(4 * len(V)).reshape(-1, 4))
    detector = world.make_detector(d)

    def draw_(which, frames):
        peaks = dict(peaks=torch.tensor(p[which]), columns=list(world.COLUMNS), incident_vector=beam.wave_vector, wavelength=0.3,
                     rotation_axis=torch.tensor(np.array(m["axis"], float)), mesh_lab=mesh, beam=beam,
                     rigid_body_motion=world.make_motion(m), verbose=False)
        return arr(detector.render(peaks, frames_to_render=frames, method="macro", verbose=False)[0])

    N = case["frames"]
    edge = p[:, 6] * N
    if N > 1 and np.any((np.abs(edge - np.round(edge)) < 1e-6) & (np.round(edge) > 0) & (np.round(edge) < N)):
        raise Reject("on the border of two frames")
    F = draw_(np.arange(n), N)
    want, sampled = np.zeros_like(F), np.zeros(F.shape, bool)
    A2, b2 = ref.halfspaces(B)
    partly = 0
    for i in range(n):
        one = draw_(np.array([i]), 1)[0]
        frame = min(int(edge[i]), N - 1)
        want[frame] += one
        total = one.sum() / (pz * py * factor[i])
        A, b = ref.halfspaces(X[i])
        size = np.ptp(X[i], axis=0).max()
        Y = ref.polytope(np.vstack([A, A2]), np.r_[b, b2], X[i].mean(axis=0), size, tol=1e-7)
        blur = 4e-6 * (1 + np.abs(X[i]).max()) / ref.min_width(X[i])
        whole = p[i, 21]
        vol = 0.0 if Y is None else ConvexHull(Y).volume
        sh = np.array([ref.ray_hit(corners, x, p[i, 13:16])[1:] for x in X[i]]) / [pz, py]
        partly += 0.02 < vol / whole < 0.98
        if Y is not None:
            # the share of pixels is drawn by chance when no ray or few pixels hit the element
            few = np.count_nonzero(one > 1e-9 * one.max())  # (the narrow spread function leaves 1e-87)
            if few <= 6 or (few < 30 and not np.array_equal(one, draw_(np.array([i]), 1)[0])):
                on = np.array([ref.ray_hit(corners, x, p[i, 13:16])[1:] for x in Y]) / [pz, py]
                lo, hi = np.floor(on.min(axis=0) - 0.01).astype(int), np.floor(on.max(axis=0) + 0.01).astype(int) + 1
                sampled[frame, max(0, lo[0]) : max(0, hi[0]), max(0, lo[1]) : max(0, hi[1])] = True
        if np.all(sh > 1) and np.all(sh < np.array(d["pixels"]) - 1):
            check(abs(total - vol) <= (1e-5 + 6 * blur) * whole, "total of the image %.6g, illuminated volume %.6g of %.6g" % (total, vol, whole), "total of one of several")
    tol = 1e-7 * max(F.max(), want.max()) + 1e-300
    close(np.where(sampled, 0, F), np.where(sampled, 0, want), "frames and the sum over their peaks", 1e-6, tol, sig="sum of several")
    if not np.any(sampled[:, [0, -1]]) and not np.any(sampled[:, :, [0, -1]]):
        close(F.sum(axis=(1, 2)), want.sum(axis=(1, 2)), "totals of the frames and of their peaks", 1e-6, tol, sig="total of several")
    again = len(set((h["e"]) for h in case["hits"])) < n
    ctx.nontrivial(again and F.max() > 0 and np.unique(p[:, 6]).size > 1)
    ctx.event("beam cuts an element" if partly else "elements in the beam or beside it")
    ctx.event("frames %d" % N)
