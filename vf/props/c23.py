"""C23: the whole simulation agrees with an independent reference simulation."""
import copy
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy.spatial import ConvexHull

from vf import forward, gen, ref, rend, world
from vf.core import Reject, arr, check, close, component
from vf.props.c02 import valid_cell
from vf.props.c03 import separated
from vf.props.c16 import margin_of
from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.motion import RigidBodyMotion
from xrd_simulator.polycrystal import Polycrystal

P = "C23"

OPS = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("transform"), motion=world.motions(shift=0.5, origin=1.0), time=st.one_of(gen.even(0.05, 1), st.just(1.0)))),
    st.fixed_dictionaries(dict(op=st.just("transform"), motion=world.motions(shift=0.5, origin=1.0), time=st.one_of(gen.even(0.05, 1), st.just(1.0)))),
    st.fixed_dictionaries(dict(op=st.just("simulate"), motion=world.motions(angle=gen.even(0.2, 2.0)), wavelength=gen.even(0.3, 0.9), frames=st.integers(1, 3))),
    st.fixed_dictionaries(dict(op=st.sampled_from(["reload sample", "reload detector", "reload beam", "reload motion", "copy"]))),
)


@st.composite
def cases(draw, methods, ops):
    s = draw(world.samples(max_elements=4, max_phases=2, strain=0.02, scale=gen.log(0.05, 6.0), spread=1.5))
    for c in s["cells"]:
        c["cell"][:3] = [2.5 + (x - 2.5) * 0.5 for x in c["cell"][:3]]
    structures = None
    if draw(st.booleans()):
        structures = [draw(gen.structure(max_atoms=2, lo=2.5, hi=5.0)) for _ in s["cells"]]
    method = draw(st.sampled_from(methods))
    n = dict(nano=(90, 160)).get(method, (50, 110))
    d = draw(rend.detectors(lo=n[0], hi=n[1], sigma=st.sampled_from([1.0, 0.5, 2.0]) if method != "nano" else st.sampled_from([1.0, 0.5]), flags=True))
    b = draw(world.beams(wavelength=gen.even(0.25, 0.9)))
    return dict(sample=s, structures=structures, detector=d, beam=b, motion=draw(world.motions(angle=st.one_of(gen.even(0.8, 3.1), gen.even(0.05, 1.0)), shift=1.0, origin=1.0)), method=method,
                frames=draw(st.sampled_from([1, 2, 3, 5, 10])), near=draw(gen.log(0.3, 1.3)), aim=draw(gen.vec(-0.3, 0.3)),
                cut=draw(st.one_of(st.none(), st.none(), st.lists(gen.log(0.8, 5.0), min_size=3, max_size=3))), at=draw(gen.vec(-0.4, 0.4)),
                bounds=draw(st.booleans()), stl=draw(gen.even(0.25, 0.42)), no_limit=draw(st.booleans()),
                ops=draw(st.lists(OPS, min_size=ops[0], max_size=ops[1])) if ops[1] else [])


def setup(case):
    """Scale the case to its detector; plain descriptions."""
    s, d, b = copy.deepcopy(case["sample"]), dict(case["detector"]), dict(case["beam"])
    if case["structures"] is not None:
        s["cells"] = [dict(cell=q["cell"], sg=q["sg"]) for q in case["structures"]]
    for c in s["cells"]:
        if not valid_cell(c["cell"]):
            raise Reject("degenerate cell")
    for q in case["structures"] or []:
        if not separated(q):
            raise Reject("ambiguous multiplicity")
    width = max(d["size"])
    k = np.asarray(b["direction"], float)
    n = k + np.asarray(case["aim"])
    d["direction"] = [float(x) for x in n / np.linalg.norm(n)]
    d["distance"] = case["near"] * width
    d["shift"] = [x * 0.5 for x in d["shift"]]
    pz, py = rend.pixel_sizes(d)
    s["scale"] = s["scale"] * min(pz, py)
    scale = s["scale"]

    def scaled(m):
        return dict(m, translation=[x * scale for x in m["translation"]], origin=[x * scale for x in m["origin"]])

    if case["cut"] is None:
        b["half"] = [1e3 * scale] * 3
    else:
        b["half"] = [x * scale for x in case["cut"]]
        b["centre"] = [x * scale for x in case["at"]]
    return s, d, b, scaled, scale


def library_peaks(res):
    """Rows of the detected peaks: key, time, frame, row and column, intensity."""
    p = arr(res["peaks"]).astype(float)
    c = list(res["columns"])
    return {x: p[:, c.index(x)] for x in c}


def compare_table(spots, cols, pix):
    """Every certain spot is in the table once with its position, frame and factor; nothing else is."""
    left = {}
    n = len(cols["h"])
    for j in range(n):
        key = tuple(int(round(cols[x][j])) for x in ("grain_index", "phase_number", "h", "k", "l"))
        left.setdefault(key, []).append(j)
    for s in sorted(spots, key=lambda s: not s.sure):
        c = left.get(s.key, [])
        best = min(c, key=lambda j: abs(cols["diffraction_times"][j] - s.t), default=None)
        if best is None or abs(cols["diffraction_times"][best] - s.t) > (1e-6 if s.sure else 1e-2):
            check(not s.sure, lambda: "the spot of element %d phase %d hkl %s at t=%.6f is missing" % (s.key[0], s.key[1], s.key[2:], s.t), "missing spot")
            continue
        c.remove(best)
        if not s.sure:
            continue
        got = cols["zd"][best] / pix[0], cols["yd"][best] / pix[1]
        check(math.hypot(got[0] - s.row, got[1] - s.col) < 1e-3, lambda: "a spot is at (%.4f, %.4f) pixels, predicted (%.4f, %.4f)" % (got + (s.row, s.col)), "position")
        check(int(cols["frame"][best]) in s.frames, lambda: "a spot of t=%.6f is in frame %d, predicted %s" % (s.t, cols["frame"][best], s.frames), "frame")
        close(cols["intensity_factors"][best] * cols["volumes"][best], s.factor * s.volume, "intensity of a spot", 1e-4, 0, sig="intensity")
    extra = [(k, cols["diffraction_times"][j]) for k, c in left.items() for j in c]
    check(not extra, lambda: "a spot was invented: element, phase, hkl %s, t=%.6f" % extra[0], "invented spot")


def compare_image(F, spots, d, b, method, frames, ctx):
    """Groups of overlapping spots hold their total intensity around their centre; nothing is elsewhere."""
    n = np.array(d["pixels"])
    pz, py = rend.pixel_sizes(d)
    sigma = d["gaussian_sigma"]
    total = intensity = None
    r_fix = 0.0
    if method == "nano":
        c0 = world.detector_corners(d)[0]
        fw = max([s.width * np.linalg.norm(c0) / s.cos / pz for s in spots], default=0.0)
        r_fix = margin_of("nano", d, fw)
    elif method == "micro":
        r_fix = margin_of("micro", d) + 1
    boxes, hulls = [], []
    for s in spots:
        lo = hi = np.array([s.row, s.col])
        H = None
        value, sure = s.factor * s.volume, s.sure
        if method == "macro":
            H = forward.illuminated(s, b)
            if H is None:
                value, sure = 0.0, False
            else:
                hull = ConvexHull(H)
                value = s.factor * hull.volume * pz * py
                blur = 4e-6 * (1 + np.abs(H).max())
                sure &= blur * 2e3 < ref.min_width(H)
            pts = np.array([ref.ray_hit(world.detector_corners(d), x, s.K)[1:] for x in s.X]) / [pz, py]
            lo, hi = pts.min(axis=0), pts.max(axis=0)
            if H is not None:
                pts = np.array([ref.ray_hit(world.detector_corners(d), x, s.K)[1:] for x in H]) / [pz, py]
                mid = np.array(ref.ray_hit(world.detector_corners(d), centre_of(H, hull), s.K)[1:]) / [pz, py]
            else:
                mid = (lo + hi) / 2
            pad = 4
            edge = np.any(lo < pad) or np.any(hi > n - 1 - pad)
        else:
            mid, pad = lo, r_fix
            edge = np.any(lo < pad) or np.any(hi > n - 1 - pad)
        boxes.append((np.floor(lo - pad).astype(int), np.ceil(hi + pad).astype(int), mid, value, sure and not edge and len(s.frames) == 1))
    loss = d["kernel_threshold"] + 1e-9 if method == "nano" else 2e-3 if method == "micro" else 4e-3
    groups = 0
    for f in range(frames):
        here = [q for q, s in zip(boxes, spots) if f in s.frames]
        img = F[f]
        free = np.ones(img.shape, bool)
        for lo, hi, _, _, _ in here:
            free[max(0, lo[0]):max(0, hi[0] + 1), max(0, lo[1]):max(0, hi[1] + 1)] = False
        top = np.abs(img[free]).max(initial=0)
        check(top <= 1e-12 * max(img.max(), 1e-300), lambda: "there is intensity in frame %d far from every predicted spot" % f, "intensity elsewhere")
        todo = list(range(len(here)))
        while todo:
            g, grown = [todo.pop()], True
            while grown:
                grown = False
                for j in list(todo):
                    if any(np.all(here[j][0] <= here[i][1]) and np.all(here[i][0] <= here[j][1]) for i in g):
                        g.append(j)
                        todo.remove(j)
                        grown = True
            if not all(here[i][4] for i in g):
                continue
            m = np.zeros(img.shape, bool)
            for i in g:
                lo, hi = here[i][:2]
                m[max(0, lo[0]):hi[0] + 1, max(0, lo[1]):hi[1] + 1] = True
            want = sum(here[i][3] for i in g)
            got = img[m].sum()
            check(want * (1 - loss) <= got <= want * (1 + (1e-6 if method != "macro" else loss)),
                  lambda: "frame %d holds %.6g where %d spots of %.6g in total are predicted" % (f, got, len(g), want), "total intensity, " + method)
            mid = sum(here[i][2] * here[i][3] for i in g) / want
            q = rend.centroid(np.where(m, img, 0))
            check(np.abs(q - mid).max() < dict(micro=0.1, nano=0.1, macro=1.2)[method],
                  lambda: "the centroid in frame %d is (%.3f, %.3f), predicted (%.3f, %.3f)" % (f, q[0], q[1], mid[0], mid[1]), "centroid, " + method)
            groups += 1
    return groups


def centre_of(P, hull):
    """Centre of mass of a convex hull."""
    c = P.mean(axis=0)
    T = P[hull.simplices]
    v = np.abs(np.einsum("ni,ni->n", T[:, 0] - c, np.cross(T[:, 1] - c, T[:, 2] - c)))
    return (v[:, None] * (T.sum(axis=1) + c) / 4).sum(axis=0) / v.sum()


def simulate(case, ctx):
    s, d, b, scaled, scale = setup(case)
    structures, method, frames = case["structures"], case["method"], case["frames"]
    cifs = None if structures is None else [world.write_cif(ctx.path("s%d.cif" % i), q) for i, q in enumerate(structures)]
    pc, D, beam = world.make_polycrystal(s, cifs), world.make_detector(d), world.make_beam(b)
    motion = scaled(case["motion"])
    M = world.make_motion(motion)
    X, enod, U, eps, pm = world.build_sample(s)
    if method == "auto":
        v = np.array([ref.tet_volume(X[e]) for e in enod])
        pz, py = rend.pixel_sizes(d)
        if np.any(np.abs(v / min(pz, py) ** 3 - 1) < 1e-6) or np.any(np.abs(v / 1e-3 - 1) < 1e-6):
            raise Reject("on the limit of a method")
        kinds = {"macro" if x > min(pz, py) ** 3 else "nano" if x < 1e-3 else "micro" for x in v}
        if len(kinds) > 1:
            raise Reject("several methods")
        method = kinds.pop()
    R = np.eye(3)
    names = []
    for o in case["ops"]:
        names.append(o["op"])
        if o["op"] == "transform":
            q = scaled(o["motion"])
            pc.transform(world.make_motion(q), o["time"])
            X, R = ref.move(q, X, o["time"]), ref.rot(q["axis"], q["angle"] * o["time"]) @ R
        elif o["op"] == "simulate":
            other = world.make_beam(dict(b, wavelength=o["wavelength"]))
            r = pc.diffract(other, world.make_motion(o["motion"]), max_bragg_angle=math.asin(0.25 * o["wavelength"]), verbose=False)
            D.render(r, frames_to_render=o["frames"], method="micro", verbose=False)
        elif o["op"] == "reload sample":
            path = ctx.path("x.pc")
            pc.save(path, save_mesh_as_xdmf=False)
            pc = Polycrystal.load(path)
        elif o["op"] == "reload detector":
            path = ctx.path("x.det")
            D.save(path)
            D = Detector.load(path)
        elif o["op"] == "reload beam":
            path = ctx.path("x.beam")
            beam.save(path)
            beam = Beam.load(path)
        elif o["op"] == "reload motion":
            path = ctx.path("x.motion")
            M.save(path)
            M = RigidBodyMotion.load(path)
        else:
            pc, D, beam, M = copy.deepcopy((pc, D, beam, M))
    user = None if case["no_limit"] and case["bounds"] else math.asin(min(0.98, case["stl"] * b["wavelength"]))
    hi = forward.window(b, d, X, user, case["bounds"])
    if hi is not None and math.sin(hi) > 0.45 * b["wavelength"]:
        user = math.asin(0.4 * b["wavelength"])
        hi = forward.window(b, d, X, user, case["bounds"])
    if hi is None:
        raise Reject("ambiguous Bragg window")
    spots = forward.spots(s, structures, b, motion, d, frames, R, X, hi)
    if spots is None:
        raise Reject("a reflection does not depend on time")
    kw = dict(detector=D) if case["bounds"] else {}
    res = pc.diffract(beam, M, max_bragg_angle=user, verbose=False, **kw)
    F, out = D.render(res, frames_to_render=frames, method=case["method"], verbose=False)
    F = arr(F)
    check(F.shape == (frames,) + tuple(d["pixels"]), "frames of shape %s" % (F.shape,), "shape")
    check(np.isfinite(F).all() and F.min() >= 0, "negative or non finite pixels", "finite")
    compare_table(spots, library_peaks(out), rend.pixel_sizes(d))
    groups = compare_image(F, spots, d, b, method, frames, ctx)
    sure = sum(q.sure for q in spots)
    ctx.event("%s: %s" % (method, "no spot" if not spots else "spots"))
    if sure < len(spots):
        ctx.event("some spots are within the numerical resolution of an edge")
    ctx.event("groups of spots %s" % ("0" if not groups else "1-3" if groups < 4 else "4 or more"))
    for q in set(names):
        ctx.event("history: " + q)
    return sure, groups, names


@component(P, "frames", cases(["micro", "macro", "nano", "auto"], (0, 0)), 900, 14000,
           "an experiment with at least one certain spot: table and frames of diffract and render against the reference simulation")
def frames(case, ctx):
    sure, groups, _ = simulate(case, ctx)
    ctx.nontrivial(sure and groups)


@component(P, "history", cases(["micro", "micro", "macro", "nano"], (1, 6)), 700, 10000,
           "the same after transforms, other simulations, copies, saves and loads; at least one certain spot")
def history(case, ctx):
    sure, groups, names = simulate(case, ctx)
    ctx.nontrivial(sure and groups)
