"""C22: invalid input is refused and changes nothing; every form of valid input gives the same result."""
import math
import os

import numpy as np
import torch
from hypothesis import strategies as st

from vf import gen, rend, ref, snap, world
from vf.core import Reject, arr, check, close, component, priv
from xrd_simulator import cuda, templates
from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.motion import RigidBodyMotion
from xrd_simulator.phase import Phase
from xrd_simulator.polycrystal import Polycrystal

P = "C22"

REFUSALS = (
    "axis", "angle", "translate", "polarization", "hull", "new hull", "pixels", "method", "orientation", "strain", "unfeasible strain",
    "no map", "map length", "map value", "bragg", "negative bragg", "device", "extension", "key")


@st.composite
def refusal(draw):
    s = draw(world.samples(max_elements=4, max_phases=2, strain=0.01))
    return dict(kind=draw(st.sampled_from(REFUSALS)), sample=s, beam=draw(world.beams()), motion=draw(world.motions(shift=0.3, origin=0.3)),
                detector=draw(rend.detectors(lo=4, hi=12)), amount=draw(gen.log(1e-4, 1.0)), which=draw(st.integers(0, 999)), sign=draw(st.sampled_from([-1, 1])),
                u=draw(gen.even(0, 1)), seed=draw(gen.seeds))


def refused(f, what, kinds=(Exception,)):
    try:
        f()
    except kinds:
        return
    except Exception as e:
        check(False, "%s: raised %s instead of %s" % (what, type(e).__name__, kinds[0].__name__), what)
    check(False, "%s was accepted" % what, what)


def unchanged(before, objs, what):
    m = snap.diff(before, snap.take(objs))
    check(m is None, "refusing %s changed something: %s" % (what, m), "changed by refusal: " + what)


@component(P, "refused", refusal(), 2500, 30000,
           "valid objects and one invalid variation of their input, that must raise and leave every object as it was")
def refused_input(case, ctx):
    kind, i, u = case["kind"], case["which"], case["u"]
    rng = np.random.default_rng(case["seed"])
    size = case["amount"] * case["sign"]
    m, b, d, s = case["motion"], case["beam"], case["detector"], case["sample"]
    ctx.event(kind)
    ctx.nontrivial()
    both = (AssertionError, ValueError)
    if kind == "axis":
        RigidBodyMotion(np.array(m["axis"]), m["angle"], m["translation"], m["origin"])
        bad = np.array(m["axis"]) * (1 + size if abs(size) < 1 else [0, 2, -3, 1e6][i % 4])
        if abs(np.linalg.norm(bad) - 1) < 5e-5:
            raise Reject()
        refused(lambda: RigidBodyMotion(bad, m["angle"], m["translation"], m["origin"]), "a non-unit axis", both)
        mesh = TetraMesh.generate_mesh_from_vertices(*world.build_sample(s)[:2])
        before = snap.take(mesh)
        refused(lambda: mesh.rotate(bad, m["angle"]), "rotating a mesh about a non-unit axis", both)
        unchanged(before, mesh, "rotating a mesh about a non-unit axis")
    elif kind == "angle":
        bad = [0.0, math.pi, -case["amount"], math.pi + case["amount"], -m["angle"], 2 * math.pi, math.nan, math.inf, -math.inf, 0, 4, 180][i % 12]
        refused(lambda: RigidBodyMotion(m["axis"], bad, m["translation"], m["origin"]), "a rotation angle outside (0, pi)", both)
        mesh = TetraMesh.generate_mesh_from_vertices(*world.build_sample(s)[:2])
        before = snap.take(mesh)
        refused(lambda: mesh.rotate(np.array(m["axis"]), bad), "rotating a mesh by an angle outside (0, pi)", both)
        unchanged(before, mesh, "rotating a mesh by an angle outside (0, pi)")
    elif kind == "translate":
        mo = world.make_motion(m)
        x = rng.normal(size=(3,) if i % 2 else (5, 3))
        mo.translate(x, 0), mo.translate(x, 1)
        bad = [-case["amount"], 1 + case["amount"], -1e-9, 1 + 1e-9, 2, -1][i % 6]
        before = snap.take([mo, x])
        refused(lambda: mo.translate(x, bad), "a translation at a time outside [0, 1]", both)
        unchanged(before, [mo, x], "a translation at a time outside [0, 1]")
    elif kind == "polarization":
        rows = world.frame_of(b["direction"])
        V = world.box(b["half"], rows)
        pol = world.pol_of(b)
        Beam(V, rows[0], b["wavelength"], pol)
        bad = pol + size * rows[0] if i % 5 else rows[0]
        before = snap.take([V, bad])
        refused(lambda: Beam(V, rows[0] * (1 + u), b["wavelength"], bad * (0.5 + u)), "a polarization that is not orthogonal to the beam", both)
        unchanged(before, [V, bad], "a polarization")
    elif kind in ("hull", "new hull"):
        beam = world.make_beam(b)
        V = arr(beam.vertices)
        w = rng.dirichlet(np.ones(len(V)), size=1 + i % 2)
        w = (w + 0.1) / (w + 0.1).sum(axis=1, keepdims=True)
        bad = np.insert(V, i % 9, w @ V, axis=0)
        if kind == "hull":
            refused(lambda: Beam(bad, b["direction"], b["wavelength"], world.pol_of(b)), "non-convex beam vertices", both)
        else:
            bad = torch.tensor(bad)
            before = snap.take([beam, bad])
            refused(lambda: beam.set_beam_vertices(bad), "new non-convex beam vertices", both)
            unchanged(before, [beam, bad], "new non-convex beam vertices")
            x = torch.tensor(rng.uniform(-1.5, 1.5, (3, 20)) * max(b["half"]))
            fresh = world.make_beam(b)
            if priv(beam, "_contains") is not None:
                close(arr(beam._contains(x)) > 0, arr(fresh._contains(x)) > 0, "the illuminated points after refused vertices", sig="illumination after refusal")
    elif kind == "pixels":
        c = world.detector_corners(d)
        kw = dict(n_pixels=(3, 5), pixel_size=(1.0, 2.0)) if i % 2 else {}
        if i % 4 == 1:
            kw = dict(n_pixels=4, pixel_size=0.5)
        refused(lambda: Detector(*c, **kw), "%s pixel specification" % ("a contradictory" if kw else "a missing"), (ValueError, TypeError))
    elif kind == "method":
        det = world.make_detector(d)
        pc = world.make_polycrystal(s)
        peaks = pc.diffract(world.make_beam(b), world.make_motion(m), 0.0, 0.08, verbose=False)
        bad = ["airy", "centroid", "projection", "gauss", "", "none", "microscopic", "centroids_with_scintillator", "nan", "autos"][i % 10]
        before = snap.take([det, peaks, pc])
        refused(lambda: det.render(peaks, 1 + i % 3, bad, verbose=False), "an unknown rendering method", (ValueError, KeyError))
        now = snap.take([det, peaks, pc])
        mm = snap.diff(before, now)
        check(mm is None, "refusing an unknown rendering method changed something: %s" % mm, "changed by refusal: method")
    elif kind in ("orientation", "strain", "unfeasible strain", "no map", "map length", "map value"):
        coord, enod, U, eps, pm = world.build_sample(s)
        n = len(enod)
        mesh = TetraMesh.generate_mesh_from_vertices(coord, enod)
        phases = world.make_phases(s)
        if kind == "no map" and len(phases) == 1:
            phases = phases + [Phase(list(s["cells"][0]["cell"]), s["cells"][0]["sg"])]
        good = dict(mesh=mesh, orientation=U, strain=eps, phases=phases, element_phase_map=pm)
        Polycrystal(**good)
        bad = dict(good)
        if kind in ("orientation", "strain"):
            A = good[kind]
            bad[kind] = [np.concatenate([A, A[:1]]), A[:-1] if n != 1 else np.concatenate([A, A, A]), A[:, :2], A[:, :, :2], A.reshape(n, 9), A[0, 0],
                         A[None], A[0][:2]][i % 8]
            if n == 3 and i % 8 == 6:
                bad[kind] = np.concatenate([A[None]] * 2)
        elif kind == "unfeasible strain":
            j = i % n
            Q = ref.rotvec_matrix(rng.normal(size=3))
            bad["strain"] = eps.copy()
            bad["strain"][j] = Q @ np.diag(np.r_[-0.5 - max(case["amount"], 1e-3), rng.uniform(-0.2, 0.2, 2)]) @ Q.T
        elif kind == "no map":
            bad["element_phase_map"] = None
        elif kind == "map length":
            bad["element_phase_map"] = [np.r_[pm, 0], pm[:-1] if n > 1 else np.r_[pm, pm, pm], np.r_[pm, pm], pm[None] if n > 1 else np.r_[pm, pm]][i % 4]
        else:
            bad["element_phase_map"] = pm.copy()
            bad["element_phase_map"][i % n] = [len(phases), -1, len(phases) + 7][i % 3]
        before = snap.take(bad)
        refused(lambda: Polycrystal(**bad), "%s of shape %s" % (kind, np.shape(bad["strain" if "strain" in kind else "orientation" if kind == "orientation" else "element_phase_map"])) if kind in ("orientation", "strain", "map length") else kind,
                (ValueError, AssertionError, IndexError, RuntimeError))
        now = snap.take(bad)
        mm = snap.diff(before, now)
        check(mm is None, "refusing %s changed something: %s" % (kind, mm), "changed by refusal: " + kind)
        Polycrystal(**good)
    elif kind in ("bragg", "negative bragg"):
        det, beam, mo, pc = world.make_detector(d), world.make_beam(b), world.make_motion(m), world.make_polycrystal(s)
        for p in pc.phases:
            if priv(p, "_setup_diffracting_planes") is not None:
                p._setup_diffracting_planes(beam.wavelength, 0.0, 0.05)
        if kind == "bragg":
            hi = 0.1 + 0.3 * u
            lo = [hi, hi + case["amount"], math.pi / 2, 1.6][i % 4]
        else:
            lo, hi = -case["amount"], 0.2
        before = snap.take([det, beam, mo, pc])
        refused(lambda: pc.diffract(beam, mo, lo, hi, detector=det, verbose=False), "a minimum Bragg angle %s" % ("below zero" if lo < 0 else "above the maximum"), both)
        unchanged(before, [det, beam, mo, pc], "a Bragg interval")
    elif kind == "device":
        was = cuda.get_selected_device()
        good = [None, "cpu", "CPU", " cpu ", "gpu", "GPU", "cuda", " Cuda", "auto", "AUTO"][i % 10]
        try:
            got = cuda.configure_device(good, verbose=False)
            want = "cuda" if torch.cuda.is_available() and str(good).strip().lower() != "cpu" else "cpu"
            check(got == want == cuda.get_selected_device(), "configure_device(%r) returned %r, selected %r" % (good, got, cuda.get_selected_device()), "device")
            before = (cuda.get_selected_device(), torch.tensor(0.0).device)
            bad = ["tpu", "", "cudaa", "cp", "gpu:x", 7, "none of these", "mps0", "c p u", 0][i % 10]
            refused(lambda: cuda.configure_device(bad, verbose=False), "an unknown device", (ValueError,))
            check((cuda.get_selected_device(), torch.tensor(0.0).device) == before, "refusing a device changed the device", "changed by refusal: device")
        finally:
            cuda.configure_device(was, verbose=False)
    elif kind == "extension":
        obj, cls, ext = [(lambda: world.make_beam(b), Beam, ".beam"), (lambda: world.make_motion(m), RigidBodyMotion, ".motion"),
                         (lambda: world.make_detector(d), Detector, ".det"), (lambda: world.make_polycrystal(s), Polycrystal, ".pc")][i % 4]
        root = ctx.path("ext")
        os.makedirs(root, exist_ok=True)
        obj = obj()
        good = os.path.join(root, "x" + ext)
        obj.save(good) if ext != ".pc" else obj.save(good, save_mesh_as_xdmf=False)
        cls.load(good)
        bad = os.path.join(root, "x" + [e for e in (".beam", ".motion", ".det", ".pc", ".pickle", ".xdmf", "", ext + ".bak", ext.upper(), ext[1:]) if e != ext][(i // 4) % 9])
        with open(good, "rb") as f, open(bad, "wb") as g:
            g.write(f.read())
        refused(lambda: cls.load(bad), "loading a %s file as %s" % (os.path.basename(bad), cls.__name__), (ValueError,))
    else:
        p = dict(detector_distance=1000.0, number_of_detector_pixels_z=4, number_of_detector_pixels_y=5, detector_center_pixel_z=2, detector_center_pixel_y=2,
                 pixel_side_length_z=1.0, pixel_side_length_y=1.0, wavelength=0.3, beam_side_length_z=3.0, beam_side_length_y=3.0, rotation_step=0.1,
                 rotation_axis=np.array([0.0, 0.0, 1.0]))
        templates.s3dxrd(p)
        gone = sorted(p)[i % len(p)]
        bad = {k: v for k, v in p.items() if k != gone}
        if i % 3 == 0:
            bad[gone + "_"] = p[gone]
        before = snap.take(bad)
        refused(lambda: templates.s3dxrd(bad), "parameters without %s" % gone, (ValueError, KeyError))
        unchanged(before, bad, "parameters")


# ---------------------------------------------------------------- forms
FORMS = ["list", "tuple", "array", "tensor", "fortran", "strided", "reversed", "readonly", "array32", "tensor32", "ints", "int array", "int tensor", "int32 array"]


def form(x, f):
    """The same values in another representation; integer forms only for integer values."""
    x = np.asarray(x, float)
    if f.startswith("int") and not np.array_equal(x, np.round(x)) or "32" in f and not np.array_equal(x.astype(np.float32).astype(float), x):
        f = f.replace("ints", "list").replace("int32 ", "").replace("int ", "").replace("32", "")
    if f == "list":
        return x.tolist()
    if f == "ints":
        return np.asarray(x, int).tolist()
    if f == "tuple":
        t = lambda v: tuple(t(w) for w in v) if isinstance(v, list) else v
        return t(x.tolist())
    if f == "tensor":
        return torch.tensor(x)
    if f == "tensor32":
        return torch.tensor(x, dtype=torch.float32)
    if f == "int tensor":
        return torch.tensor(x.astype(int))
    if f == "array32":
        return x.astype(np.float32)
    if f == "int array":
        return x.astype(np.int64)
    if f == "int32 array":
        return x.astype(np.int32)
    if f == "fortran":
        return np.array(x, order="F")
    if f == "strided" and x.ndim:
        return np.repeat(x, 2, axis=0)[::2]
    if f == "reversed" and x.ndim:
        return x[::-1].copy()[::-1]
    if f == "readonly":
        x = x.copy()
        x.flags.writeable = False
    return x


@st.composite
def forms(draw):
    whole = draw(st.sampled_from(["int", "eighth", "float"]))
    n = draw(st.integers(1, 4))
    sp = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return dict(values=whole, n=n, seed=draw(gen.seeds), f=draw(st.lists(st.sampled_from(FORMS), min_size=12, max_size=12)),
                axis=draw(st.sampled_from([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], None])), unit=draw(gen.unit),
                angle=draw(st.sampled_from([1.0, 2.0, 3.0, 0.5, None])), free=draw(gen.angle), time=draw(st.sampled_from([0, 1, 0.5, None])), t=draw(gen.even(0, 1)),
                cell=draw(gen.cell()), pixels=sp, scalar=draw(st.booleans()), one=draw(st.booleans()), two=draw(st.booleans()))


def scalar(x, f):
    if f == "tensor":
        return torch.tensor(float(x))
    if f == "array":
        return np.array(float(x))
    if f == "strided":
        return np.float64(x)
    if f == "array32" and float(np.float32(x)) == x:
        return np.float32(x)
    if f in ("ints", "int array", "int tensor") and x == int(x):
        return {"ints": int, "int array": np.int64, "int tensor": lambda v: torch.tensor(int(v))}[f](x)
    return float(x)


@component(P, "forms", forms(), 1200, 15000,
           "the same values as list, tuple, array, tensor, integers, single precision (when exact) and views; equal results required")
def representations(case, ctx):
    rng = np.random.default_rng(case["seed"])
    f = iter(case["f"] * 4)
    value = {"int": lambda *s: rng.integers(-9, 10, s).astype(float), "eighth": lambda *s: rng.integers(-72, 73, s) / 8, "float": lambda *s: rng.normal(size=s) * 5}[case["values"]]

    def same(a, b, what):
        close(arr(a), arr(b), what, 1e-13, 1e-13, sig=what)

    for x in set(case["f"]):
        ctx.event(x)
    ctx.nontrivial(len(set(case["f"])) > 2)
    # rigid body motion
    axis = np.array(case["axis"] or case["unit"])
    angle = case["angle"] or case["free"]
    time = case["t"] if case["time"] is None else case["time"]
    tr, og = value(3), value(3)
    A = RigidBodyMotion(axis, angle, tr, og)
    B = RigidBodyMotion(form(axis, next(f)), scalar(angle, next(f)), form(tr, next(f)), form(og, next(f)))
    C = RigidBodyMotion(axis, angle, tr)
    for x in (value(3), value(case["n"], 3)):
        g, t = next(f), scalar(time, next(f))
        same(B(form(x, g), t), A(x, time), "the motion of points")
        same(B.rotate(form(x, g), t), A.rotate(x, time), "the rotation of points")
        same(B.translate(form(x, g), t), A.translate(x, time), "the translation of points")
        same(B.inverse()(form(x, g), t), A.inverse()(x, time), "the inverse motion of points")
    same(RigidBodyMotion(form(axis, next(f)), angle, form(tr, next(f)))(x, time), RigidBodyMotion(axis, angle, tr, np.zeros(3))(x, time), "the default origin")
    # beam
    d = np.array(case["axis"] or [0.0, 0.0, 1.0])
    rows = world.frame_of(d)
    V = world.box([3, 4, 5], np.round(rows)) if case["values"] == "int" else world.box([3, 4.5, 5.25], rows)
    wl = 2.0 if case["values"] == "int" else 0.375
    pol = np.round(rows[1])
    a = Beam(V, d, wl, pol)
    b = Beam(form(V, next(f)), form(d, next(f)), scalar(wl, next(f).replace("32", "")) if case["scalar"] else wl, form(pol, next(f)))
    W = V * 2 + np.round(value(3))
    c = Beam(W, d, wl, pol)
    b2 = Beam(V, d, wl, pol)
    b2.set_beam_vertices(form(W, next(f)))
    pts = torch.tensor(rng.uniform(-12, 12, (3, 30)))
    for p, q, n in ((a, b, "a beam"), (c, b2, "a beam with new vertices")):
        for k in ("wave_vector", "vertices", "polarization_vector", "halfspaces", "centroid"):
            same(getattr(q, k), getattr(p, k), "%s of %s" % (k, n))
        if priv(p, "_contains") is not None:
            same(p._contains(pts), q._contains(pts), "the points in " + n)
    # detector
    c0 = np.array([20.0, -4.0, -6.0])
    c1, c2 = c0 + [0, 8, 0], c0 + [0, 0, 12]
    nz, ny = case["pixels"]
    size = (12.0 / nz, 8.0 / ny)
    F = next(f)
    if case["one"]:
        ny = nz
        kw, kv = dict(n_pixels=(nz, nz)), dict(n_pixels=nz if case["two"] else np.int64(nz))
    elif case["two"]:
        kw, kv = dict(n_pixels=(nz, ny)), dict(n_pixels=[nz, ny])
    elif case["scalar"]:
        kw, kv = dict(pixel_size=(0.5, 0.5)), dict(pixel_size=scalar(0.5, F))
    else:
        kw, kv = dict(pixel_size=size), dict(pixel_size=list(size))
    D, E = Detector(c0, c1, c2, **kw), Detector(form(c0, next(f)), form(c1, next(f)), form(c2, next(f)), **kv)
    for k in ("pixel_coordinates", "normal", "zdhat", "ydhat", "zmax", "ymax", "pixel_size_z", "pixel_size_y"):
        same(getattr(E, k), getattr(D, k), k + " of a detector")
    # mesh
    coord, enod = gen.tets(case["seed"], case["n"], 4.0, 6.0, bool(case["one"]))
    coord = np.round(coord * 64) / 8 if case["values"] != "float" else coord
    if case["values"] == "int":
        coord = np.round(coord * 10)
    if min(ref.tet_volume(coord[e]) for e in enod) < 1e-3:
        raise Reject()
    M = TetraMesh.generate_mesh_from_vertices(coord, enod)
    g = next(f)
    nodes = form(coord, "list" if "32" in g else g)
    N = TetraMesh.generate_mesh_from_vertices(nodes, [enod, enod.tolist(), torch.tensor(enod), enod.astype(np.int32), np.asfortranarray(enod)][case["seed"] % 5])
    shift = value(3)
    for step in range(3):
        for k in ("coord", "enod", "evolumes", "eradius", "ecentroids", "espherecentroids", "enormals", "centroid"):
            same(getattr(N, k), getattr(M, k), k + " of a mesh")
        if step == 0:
            M.translate(shift), N.translate(form(shift, next(f)))
        elif step == 1:
            M.rotate(axis, angle), N.rotate(form(axis, next(f)), scalar(angle, next(f)))
    # polycrystal
    n = len(enod)
    ph = case["cell"]
    phases = lambda g: [Phase(form(ph["cell"], g) if g in ("list", "tuple", "array", "ints") else list(ph["cell"]), ph["sg"]) for _ in range(2)]
    U = np.array([ref.rotvec_matrix(rng.normal(size=3)) for _ in range(n)]) if case["values"] == "float" else np.array([[[0.0, -1, 0], [1, 0, 0], [0, 0, 1]], np.eye(3), [[0.0, 0, 1], [1, 0, 0], [0, 1, 0]], np.diag([-1.0, -1, 1])])[np.arange(n) % 4]
    eps = rng.integers(-8, 9, (n, 3, 3)) / 1024.0
    eps = (eps + eps.transpose(0, 2, 1)) / 2
    pm = rng.integers(0, 2, n)
    if case["scalar"]:
        U, eps = U[0], eps[0]
        full = np.repeat(U[None], n, axis=0), np.repeat(eps[None], n, axis=0)
    else:
        full = U, eps
    G = Polycrystal(M, *full, phases("list"), pm)
    H = Polycrystal(N, form(U, next(f)), form(eps, next(f)), phases(next(f)), form(pm, next(f)))
    mo = RigidBodyMotion(np.array([0.0, 0.0, 1.0]), 1.0, np.zeros(3))
    big = Beam(world.box([1e4, 1e4, 1e4], np.eye(3)), [1, 0, 0], 0.5, [0, 0, 1])
    p, q = (world.peaks_array(x.diffract(big, mo, 0, 0.12, verbose=False)) for x in (G, H))
    check(len(p) == len(q), "%d peaks became %d in another form of the same input" % (len(p), len(q)), "peaks of forms")
    close(q, p, "peaks of another form of the same input", 1e-9, 1e-9 * (1 + np.abs(p).max(initial=0)), sig="peaks of forms")
    for k in ("orientation_lab", "strain_lab", "element_phase_map"):
        same(getattr(H, k), getattr(G, k), k + " of a polycrystal")
    if case["two"]:
        S, T = (Polycrystal(x, *full, phases("list")[0]) for x in (M, N))
        same(T.element_phase_map, np.zeros(n), "the default phase map")
