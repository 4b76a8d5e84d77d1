"""C19: saved objects load back to behave identically."""
import os
import shutil

import meshio
import numpy as np
import torch
from hypothesis import strategies as st

from vf import gen, ref, rend, snap, world
from vf.core import Reject, arr, check, close, component, priv
from xrd_simulator import utils
from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.motion import RigidBodyMotion
from xrd_simulator.polycrystal import Polycrystal

P = "C19"
KINDS = dict(beam=(Beam, ".beam"), motion=(RigidBodyMotion, ".motion"), detector=(Detector, ".det"), polycrystal=(Polycrystal, ".pc"))
STEMS = st.sampled_from(["a", "run_1", "a.b", "a.b.c", "a.xdmf", "a.PC", "with space", "über", ".hidden", "a.h5", "pc", "det", "xbeam", "a.motion.old", "a.pc.bak", "sub/a"])


def name_of(stem, ext, add):
    return stem + ext if add else stem


@st.composite
def session(draw):
    s = draw(world.samples(max_elements=4, max_phases=2, strain=0.01))
    for c in s["cells"]:
        c["cell"][:3] = [min(x, 5.0) for x in c["cell"][:3]]
    save = st.fixed_dictionaries(dict(op=st.just("save"), what=st.sampled_from(["beam", "motion", "detector", "polycrystal", "polycrystal", "mesh"]), stem=STEMS,
                                   ext=st.booleans(), keep=st.booleans(), xdmf=st.booleans(), relative=st.booleans()))
    op = st.one_of(save, save, save,
        st.fixed_dictionaries(dict(op=st.just("transform"), motion=world.motions(shift=0.3, origin=0.3), time=gen.even(0.01, 1))),
        st.fixed_dictionaries(dict(op=st.just("diffract"))),
        st.fixed_dictionaries(dict(op=st.just("vertices"), half=st.lists(gen.even(0.5, 3), min_size=3, max_size=3), tilt=gen.rotvec)))
    d = draw(rend.detectors(lo=6, hi=16))
    return dict(sample=s, beam=draw(world.beams(wavelength=gen.num(0.3, 0.7))), detector=d, motion=draw(world.motions(angle=st.one_of(gen.even(0.4, 3.1), gen.angle), shift=0.3, origin=0.3)),
                hi=draw(gen.even(0.18, 0.34)), ops=draw(st.lists(op, min_size=3, max_size=7)), method=draw(st.sampled_from(["micro", "nano", "auto"])), sub=draw(st.booleans()))


def scaled(m, s):
    return dict(m, translation=[x * s for x in m["translation"]], origin=[x * s for x in m["origin"]])


def listing(root):
    return {os.path.relpath(os.path.join(r, f), root) for r, _, fs in os.walk(root) for f in fs}


def save_checked(obj, kind, o, root, ctx, n):
    """Save through the rules of the file names; returns the path of the file."""
    cls, ext = KINDS[kind]
    d = os.path.join(root, "d%d" % n)
    os.makedirs(os.path.join(d, os.path.dirname(o["stem"])), exist_ok=True)
    name = name_of(o["stem"], ext, o["ext"])
    path = os.path.join(d, name)
    given = os.path.relpath(path) if o["relative"] else path
    before = snap.take(obj)
    kw = dict(save_mesh_as_xdmf=o["xdmf"]) if kind == "polycrystal" else {}
    check(obj.save(given, **kw) is None, "save returned something", "return value")
    m = snap.diff(before, snap.take(obj))
    check(m is None, "saving changed the %s: %s" % (kind, m), "save changed the object")
    want = name if name.endswith(ext) else name + ext
    files = listing(d)
    check(want in files, "saving to %r wrote %s" % (name, sorted(files)), "file name")
    more = {f for f in files if f != want}
    if kind == "polycrystal" and o["xdmf"]:
        x = want[:-3] + ".xdmf"
        check(x in files, "saving to %r wrote %s" % (name, sorted(files)), "mesh file name")
        more -= {x} | {f for f in more if f.endswith(".h5")}
    check(not more, "saving to %r also wrote %s" % (name, sorted(more)), "other files")
    ctx.event("extension %s" % ("given" if name.endswith(ext) else "added"))
    return os.path.join(d, want)


def mesh_data(pc, path, ctx):
    """The element data of the mesh file are those of the sample."""
    f = meshio.read(path[:-3] + ".xdmf")
    data = {k: np.asarray(v[0]).reshape(-1) for k, v in f.cell_data.items()}
    close(f.points, pc.mesh_sample.coord, "nodes of the mesh file", 0, 0, sig="mesh file nodes")
    close(f.cells_dict["tetra"], pc.mesh_sample.enod, "elements of the mesh file", 0, 0, sig="mesh file elements")
    e, U = arr(pc.strain_sample), arr(pc.orientation_sample)
    for k, (i, j) in dict(xx=(0, 0), yy=(1, 1), zz=(2, 2), xy=(0, 1), xz=(0, 2), yz=(1, 2)).items():
        close(data["Strain Tensor Component " + k], e[:, i, j], "strain %s in the mesh file" % k, 0, 1e-15, sig="mesh file strain")
    close(data["Material Phase Index"], pc.element_phase_map, "phases in the mesh file", 0, 0, sig="mesh file phases")
    a = [np.radians(data["Bunge Euler Angle %s [degrees]" % k]) for k in ("phi_1", "Phi", "phi_2")]
    Z, X = (lambda t: ref.rot([0, 0, 1.0], t)), (lambda t: ref.rot([1.0, 0, 0], t))
    back = np.array([Z(p) @ X(q) @ Z(r) for p, q, r in zip(*a)])
    close(back, U, "orientations from the Euler angles of the mesh file", 0, 2e-6, sig="mesh file euler angles")


def compare_files(a, b):
    return snap.diff(a, b, 1e-12)


@component(P, "session", session(), 500, 12000,
           "an experiment of which any object is saved and loaded at any time, while a twin that was never saved goes through the same "
           "history; at least two round trips; afterwards both diffract, render, move and contain alike")
def histories(case, ctx):
    s = case["sample"]
    size = s["scale"]
    cap = dict(case["beam"], half=[3.0 * size, 4.0 * size, 3.5 * size])
    m0 = scaled(case["motion"], size)
    d = dict(case["detector"])

    def build():
        pc = world.make_polycrystal(s)
        return dict(beam=world.make_beam(cap), motion=world.make_motion(m0), detector=world.make_detector(d), polycrystal=pc)

    A, B = build(), build()
    root = ctx.path("files")
    os.makedirs(root, exist_ok=True)
    trips = 0
    kept = []
    for n, o in enumerate(case["ops"]):
        if o["op"] == "transform":
            q = scaled(o["motion"], size)
            for w in (A, B):
                w["polycrystal"].transform(world.make_motion(q), o["time"])
        elif o["op"] == "diffract":
            for w in (A, B):
                w["polycrystal"].diffract(w["beam"], w["motion"], max_bragg_angle=case["hi"], verbose=False)
        elif o["op"] == "vertices":
            V = torch.tensor(world.box(np.array(o["half"]) * size, ref.rotvec_matrix(o["tilt"]), np.zeros(3)))
            for w in (A, B):
                w["beam"].set_beam_vertices(V)
        elif o["what"] == "mesh":
            mesh = A["polycrystal"].mesh_lab
            p = os.path.join(root, "mesh%d" % n, o["stem"])
            os.makedirs(os.path.dirname(p))
            data = dict(a=torch.arange(float(s["n"])), b=list(range(s["n"])), c=np.linspace(0, 1, s["n"]))
            given = snap.take(data)
            before = snap.take(mesh)
            for _ in range(2):  # also a second time with the same data
                mesh.save(p + (".xdmf" if o["ext"] else ""), element_data=data if o["keep"] else None)
            check(snap.diff(given, snap.take(data)) is None, "saving changed the element data", "element data")
            check(snap.diff(before, snap.take(mesh)) is None, "saving changed the mesh", "save changed the mesh")
            want = p + (".xdmf" if o["ext"] or not p.endswith(".xdmf") else "")
            check(os.path.isfile(want), "saving to %r wrote %s" % (p, os.listdir(os.path.dirname(p))), "mesh file name")
            back = TetraMesh.load(want)
            m = snap.diff({k: v for k, v in before.items() if k not in ("enod", "efaces", "dof")},
                          {k: v for k, v in snap.take(back).items() if k not in ("enod", "efaces", "dof")}, 1e-12)
            # the centres of the spheres are the ones moved with the mesh: recomputed from the nodes, up to rounding
            if m is not None and ("sphere" in m or "eradius" in m or "enormals" in m or "centroid" in m):
                m = snap.diff({k: before[k] for k in before if k not in ("enod", "efaces", "dof")},
                              {k: v for k, v in snap.take(back).items() if k not in ("enod", "efaces", "dof")}, 1e-7)
                if m is not None and ("sphere" in m or "eradius" in m):
                    m = None  # spheres of equal size: C10
            check(m is None, "loaded mesh differs: %s" % m, "loaded mesh")
            close(back.enod, mesh.enod, "elements of the loaded mesh", 0, 0, sig="loaded elements")
            close(back.efaces, mesh.efaces, "faces of the loaded mesh", 0, 0, sig="loaded elements")
            if o["keep"]:
                f = meshio.read(want)
                for k in data:
                    close(np.asarray(f.cell_data[k][0]).reshape(-1), np.asarray(data[k], float), "element data %s" % k, 0, 0, sig="element data")
            trips += 1
        else:
            kind = o["what"]
            cls, ext = KINDS[kind]
            obj = A[kind]
            path = save_checked(obj, kind, o, root, ctx, n)
            if kind == "polycrystal" and o["xdmf"]:
                mesh_data(obj, path, ctx)
            loaded = cls.load(path)
            check(isinstance(loaded, cls), "load returned a %s" % type(loaded), "type")
            if o["keep"] and n % 2:
                os.remove(path)
            kept.append((kind, obj, snap.take(obj)))
            m = snap.diff(snap.take(obj), snap.take(loaded), 1e-15)
            check(m is None, "loaded %s differs from the saved one: %s" % (kind, m), "loaded " + kind)
            A[kind] = loaded
            trips += 1
            ctx.event("round trip of the %s" % kind)
            # other extensions are refused
            if os.path.isfile(path):
                bad = path + "." + ["txt", "pickle", "mesh"][n % 3] if o["keep"] or o["xdmf"] else path[:-len(ext)] + "_x"
                shutil.copy(path, bad)
                try:
                    cls.load(bad)
                except Exception:
                    ctx.event("wrong extension refused")
                else:
                    check(False, "%r was loaded as a %s" % (os.path.basename(bad), kind), "wrong extension")
                os.remove(bad)
    # the originals are not affected by what happened to the loaded ones
    for kind, obj, before in kept:
        if kind != "polycrystal":
            m = snap.diff(before, snap.take(obj))
            check(m is None, "the saved %s changed later: %s" % (kind, m), "original changed")
    # behaviour
    hi = case["hi"]
    motions = A["motion"], B["motion"]
    x = np.random.default_rng(s["seed"]).normal(size=(7, 3)) * size * 2
    for t in (0.0, 0.37, 1.0):
        close(motions[0](torch.tensor(x), t), arr(motions[1](torch.tensor(x), t)), "moved points", 0, 1e-12 * size * 10, sig="loaded motion moves")
        close(motions[0].rotate(torch.tensor(x), t), arr(motions[1].rotate(torch.tensor(x), t)), "rotated points", 0, 1e-12 * size * 10, sig="loaded motion rotates")
        close(motions[0].translate(torch.tensor(x), t), arr(motions[1].translate(torch.tensor(x), t)), "translated points", 0, 1e-12 * size * 10, sig="loaded motion translates")
        close(motions[0].inverse()(torch.tensor(x), t), arr(motions[1].inverse()(torch.tensor(x), t)), "inverse motion", 0, 1e-12 * size * 10, sig="loaded motion inverse")
    inside = [priv(w["beam"], "_contains") for w in (A, B)]
    if inside[0] is not None:
        check(np.array_equal(arr(inside[0](torch.tensor(x.T))), arr(inside[1](torch.tensor(x.T)))), "the loaded beam contains other points", "loaded beam contains")
    dets = A["detector"], B["detector"]
    close(dets[0].pixel_coordinates, arr(dets[1].pixel_coordinates), "pixel coordinates", 1e-14, 1e-14, sig="loaded detector pixels")
    p = [w["polycrystal"].diffract(w["beam"], w["motion"], max_bragg_angle=hi, verbose=False) for w in (A, B)]
    a, b = world.peaks_array(p[0]), world.peaks_array(p[1])
    check(a.shape == b.shape, "the loaded objects diffract %d peaks, their twins %d" % (len(a), len(b)), "peaks")
    close(a, b, "peaks of the loaded objects", 1e-12, 1e-12, sig="peaks")
    # aim the detector: replay the peaks with a common, finite factor, to see the frames
    for w in p:
        w["peaks"] = w["peaks"].clone()
        w["peaks"][:, 19] = torch.where(torch.isfinite(w["peaks"][:, 19]), w["peaks"][:, 19], torch.ones(()))
    F = [arr(w["detector"].render(q, frames_to_render=2, method=case["method"], verbose=False)[0]) for w, q in zip((A, B), p)]
    close(F[0], F[1], "frames of the loaded objects", 1e-9, 1e-12 * (np.abs(F[1]).max() + 1e-300), sig="frames")
    # directed onto the detector
    peaks = [dict(draw_peak(i), fwhm=0.4) for i in range(3)]
    S = rend.Scene(d, peaks, [[f * n for f, n in zip(q["pos"], d["pixels"])] for q in peaks])
    for method in ("micro", "nano"):
        F = [arr(w["detector"].render(S.peaks(), frames_to_render=3, method=method, verbose=False)[0]) for w in (A, B)]
        check(F[1].sum() > 0, "nothing is rendered", "rendered")
        close(F[0], F[1], "frames of the loaded detector", 1e-9, 1e-12 * F[1].max(), sig="frames of the loaded detector")
    q = world.make_motion(scaled(case["motion"], size * 0.5))
    for w in (A, B):
        w["polycrystal"].transform(q, 0.6)
    m = snap.diff(snap.take(B["polycrystal"], skip=("phases",)), snap.take(A["polycrystal"], skip=("phases",)), 1e-12)
    check(m is None, "after a transform the loaded polycrystal differs from its twin: %s" % m, "transformed after loading")
    ctx.nontrivial(trips >= 2 and len(a) > 0)
    ctx.event("round trips %d" % trips)
    ctx.event("peaks" if len(a) else "no peaks")


def draw_peak(i):
    return dict(pos=[0.3 + 0.2 * i, 0.62 - 0.11 * i], time=0.1 + 0.4 * i, volume=1.0 + i, sf=2.0, lorentz=1.5, pol=0.7, fwhm=0.4, shape=i, source=[0.001 * i, 0.0, 0.0])


LOADER = """
import sys
sys.path[:0] = %r
import numpy as np, torch
torch.set_num_threads(1)
from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.motion import RigidBodyMotion
from xrd_simulator.polycrystal import Polycrystal
root, hi = sys.argv[1], float(sys.argv[2])
if sys.argv[3] == "backwards":
    motion, detector, beam, pc = RigidBodyMotion.load(root + "/x.motion"), Detector.load(root + "/x.det"), Beam.load(root + "/x.beam"), Polycrystal.load(root + "/x.pc")
else:
    pc, beam, detector, motion = Polycrystal.load(root + "/x.pc"), Beam.load(root + "/x.beam"), Detector.load(root + "/x.det"), RigidBodyMotion.load(root + "/x.motion")
out = {}
for n in range(2):
    r = pc.diffract(beam, motion, max_bragg_angle=hi, verbose=False)
    out["peaks%%d" %% n] = np.asarray(r["peaks"])
    out["frames%%d" %% n] = np.asarray(detector.render(r, frames_to_render=2, method="micro", verbose=False)[0])
    pc.transform(motion, 0.3)
for k in ("coord", "ecentroids", "enormals", "eradius", "espherecentroids"):
    out["lab " + k], out["sample " + k] = np.asarray(getattr(pc.mesh_lab, k)), np.asarray(getattr(pc.mesh_sample, k))
np.savez(root + "/out.npz", **out)
"""


@st.composite
def process_case(draw):
    c = draw(session())
    return dict({k: c[k] for k in ("sample", "beam", "detector", "motion", "hi")}, structures=[draw(gen.structure(max_atoms=2, lo=2.5, hi=4.5)) for _ in c["sample"]["cells"]],
                cif=draw(st.booleans()), order=draw(st.sampled_from(["forwards", "backwards"])), transform=draw(st.booleans()))


@component(P, "process", process_case(), 24, 500,
           "an experiment that is saved, and loaded by another process, which diffracts, renders and transforms with the same results")
def process(case, ctx):
    import subprocess
    import sys
    s = dict(case["sample"])
    cifs = None
    root = ctx.path("other")
    os.makedirs(root)
    if case["cif"]:
        from vf.props.c03 import separated
        if not all(separated(q) for q in case["structures"]):
            raise Reject("ambiguous multiplicity")
        s["cells"] = [dict(cell=q["cell"], sg=q["sg"]) for q in case["structures"]]
        cifs = [world.write_cif(os.path.join(root, "s%d.cif" % i), q) for i, q in enumerate(case["structures"])]
    size = s["scale"]
    pc = world.make_polycrystal(s, cifs)
    beam = world.make_beam(dict(case["beam"], half=[20.0 * size] * 3))
    motion, detector = world.make_motion(scaled(case["motion"], size)), world.make_detector(case["detector"])
    if case["transform"]:
        pc.transform(motion, 0.7)
    pc.save(root + "/x", save_mesh_as_xdmf=False)
    beam.save(root + "/x")
    motion.save(root + "/x")
    detector.save(root + "/x")
    code = LOADER % [p for p in sys.path if p]
    p = subprocess.run([sys.executable, "-c", code, root, repr(case["hi"]), case["order"]], capture_output=True, text=True, env=dict(os.environ, OMP_NUM_THREADS="1"))
    check(p.returncode == 0, lambda: "another process cannot use the loaded objects: %s" % p.stderr.strip()[-300:], "other process fails")
    out = np.load(root + "/out.npz")
    count = 0
    for n in range(2):
        r = pc.diffract(beam, motion, max_bragg_angle=case["hi"], verbose=False)
        a = world.peaks_array(r)
        count += len(a)
        check(out["peaks%d" % n].shape == a.shape, lambda: "another process diffracts %d peaks, this one %d" % (len(out["peaks%d" % n]), len(a)), "peaks of the other process")
        close(out["peaks%d" % n], a, "peaks of the other process", 1e-12, 1e-12)
        F = arr(detector.render(r, frames_to_render=2, method="micro", verbose=False)[0])
        close(out["frames%d" % n], F, "frames of the other process", 1e-9, 1e-12 * (F.max() + 1e-300))
        pc.transform(motion, 0.3)
    for k in ("coord", "ecentroids", "enormals", "eradius", "espherecentroids"):
        close(out["lab " + k], getattr(pc.mesh_lab, k), "laboratory mesh of the other process: " + k, 1e-12, 1e-12)
        close(out["sample " + k], getattr(pc.mesh_sample, k), "sample mesh of the other process: " + k, 1e-12, 1e-12)
    ctx.nontrivial(count > 0)
    ctx.event("structure" if cifs else "cell")
