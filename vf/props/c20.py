"""C20: simulating changes neither inputs nor state and is repeatable."""
import numpy as np
import torch
from hypothesis import strategies as st

from vf import gen, ref, rend, snap, world
from vf.core import Reject, arr, check, close, component
from vf.props.c19 import scaled
from xrd_simulator import utils
from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.motion import RigidBodyMotion
from xrd_simulator.phase import Phase
from xrd_simulator.polycrystal import Polycrystal

P = "C20"
# what diffract is meant to set up anew in every call
CACHES = ("miller_indices", "structure_factors", "frames")
N = st.integers(0, 1)


@st.composite
def session(draw):
    s = draw(world.samples(max_elements=4, max_phases=2, strain=0.01))
    for c in s["cells"]:
        c["cell"][:3] = [min(x, 4.5) for x in c["cell"][:3]]
    op = st.one_of(
        st.fixed_dictionaries(dict(op=st.just("diffract"), pc=N, beam=N, motion=N, hi=st.sampled_from([0.15, 0.25, 0.32]), lo=st.sampled_from([0.0, 0.0, 0.1]),
                                   det=st.sampled_from([None, None, 0, 1]))),
        st.fixed_dictionaries(dict(op=st.just("diffract"), pc=N, beam=N, motion=N, hi=st.sampled_from([0.25, 0.32]), lo=st.just(0.0), det=st.none())),
        st.fixed_dictionaries(dict(op=st.just("render"), det=N, which=st.integers(0, 5), method=st.sampled_from(["micro", "nano", "macro", "auto"]), frames=st.integers(1, 3),
                                   f32=st.booleans())),
        st.fixed_dictionaries(dict(op=st.just("render"), det=N, which=st.integers(0, 5), method=st.sampled_from(["micro", "nano", "macro", "auto"]), frames=st.integers(1, 3),
                                   f32=st.booleans())),
        st.fixed_dictionaries(dict(op=st.just("transform"), pc=N, motion=N, time=gen.even(0.01, 1))),
        st.fixed_dictionaries(dict(op=st.just("vertices"), beam=N, half=st.lists(gen.even(1, 3), min_size=3, max_size=3), tilt=gen.rotvec)),
        st.fixed_dictionaries(dict(op=st.just("save"), what=st.sampled_from(["polycrystal", "beam", "detector", "motion"]), i=N)),
        st.fixed_dictionaries(dict(op=st.just("mesh"), motion=N, time=gen.even(0.05, 1), how=st.sampled_from(["translate", "update", "rotate"]))),
        st.fixed_dictionaries(dict(op=st.just("again"))))
    return dict(sample=s, beams=[draw(world.beams(wavelength=gen.num(0.35, 0.7))) for _ in range(2)], motions=[draw(world.motions(angle=st.one_of(gen.even(0.5, 3.0), gen.angle), shift=0.3, origin=0.3)) for _ in range(2)],
                detectors=[draw(rend.detectors(lo=6, hi=20, flags=True)) for _ in range(2)], same_mesh=draw(st.booleans()), other_strain=draw(st.booleans()),
                form=draw(st.sampled_from(["numpy", "torch", "float32", "list"])), ops=draw(st.lists(op, min_size=3, max_size=9)))


def as_form(x, form):
    if form == "torch":
        return torch.tensor(x)
    if form == "list":
        return np.asarray(x).tolist()
    return np.array(x)


class World:
    """The two polycrystals, beams, motions and detectors of a session, built from shared inputs."""

    def __init__(self, case):
        s = case["sample"]
        self.case, size, form = case, s["scale"], case["form"]
        self.size = size
        coord, enod, U, eps, pm = world.build_sample(s)
        shared = "numpy" if form in ("list", "float32") else form
        self.inputs = dict(coord=coord, enod=enod, U=as_form(U, shared), eps=as_form(eps, shared), pm=as_form(pm, "numpy"), eps2=as_form(eps[0], shared), U2=as_form(U[0], shared))
        self.meshes = [TetraMesh.generate_mesh_from_vertices(self.inputs["coord"], self.inputs["enod"])]
        if not case["same_mesh"]:
            self.meshes.append(TetraMesh.generate_mesh_from_vertices(self.inputs["coord"], self.inputs["enod"]))
        self.phases = world.make_phases(s)
        I = self.inputs
        self.polycrystals = [Polycrystal(self.meshes[0], I["U"], I["eps"], self.phases, I["pm"]),
                             Polycrystal(self.meshes[-1], I["U2"] if case["other_strain"] else I["U"], I["eps2"] if case["other_strain"] else I["eps"], self.phases, I["pm"])]
        self.beams, self.motions, self.detectors = [], [], []
        for i, b in enumerate(case["beams"]):
            rows = world.frame_of(b["direction"])
            V = as_form(world.box(np.array([4.0, 3.0, 3.5]) * size, rows), form)
            self.inputs["beam%d" % i] = [V, as_form(rows[0], form), as_form(world.pol_of(b), form)]
            self.beams.append(Beam(V, self.inputs["beam%d" % i][1], b["wavelength"], self.inputs["beam%d" % i][2]))
        for i, m in enumerate(case["motions"]):
            m = scaled(m, size)
            args = [as_form(np.array(m[k], float), form) for k in ("axis", "translation", "origin")]
            self.inputs["motion%d" % i] = args
            self.motions.append(RigidBodyMotion(args[0], m["angle"], args[1], args[2]))
        for i, d in enumerate(case["detectors"]):
            c = [as_form(x, form) for x in world.detector_corners(d)]
            self.inputs["detector%d" % i] = c
            self.detectors.append(Detector(*c, n_pixels=tuple(d["pixels"]), gaussian_sigma=d["gaussian_sigma"], kernel_threshold=d["kernel_threshold"],
                                           **{k: d[k] for k in ("use_lorentz", "use_polarization", "use_structure_factor")}))
        self.results = []

    def state(self):
        return dict(inputs=snap.take(self.inputs), meshes=snap.take(self.meshes), phases=snap.take(self.phases, CACHES), polycrystals=snap.take(self.polycrystals, CACHES),
                    beams=snap.take(self.beams), motions=snap.take(self.motions), detectors=snap.take(self.detectors, CACHES))

    def diffract(self, o, verbose=False):
        kw = {} if o["det"] is None else dict(detector=self.detectors[o["det"]])
        try:
            return self.polycrystals[o["pc"]].diffract(self.beams[o["beam"]], self.motions[o["motion"]], o["lo"], o["hi"], verbose=verbose, **kw)
        except AssertionError:
            if o["det"] is None:
                raise
            return None  # the detector sees no scattering in this range of angles

    def render(self, peaks, o, verbose=False):
        if hasattr(utils, "rng"):
            utils.rng = np.random.default_rng(7)  # sampled shadows
        kw = dict(render_dtype=torch.float32) if o["f32"] else {}
        return self.detectors[o["det"]].render(peaks, frames_to_render=o["frames"], method=o["method"], verbose=verbose, **kw)


def peaks_for(W, case, i):
    """A dictionary of peaks that hit the detectors (made by hand), one per number."""
    ps = [dict(pos=[0.25 + 0.13 * k, 0.7 - 0.12 * k], time=0.2 + 0.3 * k, volume=10.0 ** (k - 2), sf=2.0 + k, lorentz=1.5, pol=0.7, fwhm=0.3 + 0.3 * k, shape=k, source=[0.001 * k, 0.0, 0.0]) for k in range(3)]
    d = case["detectors"][i]
    return rend.Scene(d, ps, [[f * n for f, n in zip(q["pos"], d["pixels"])] for q in ps]).peaks()


@component(P, "session", session(), 700, 12000,
           "two polycrystals, beams, motions and detectors made from the same arrays, mesh and phases; after every operation all "
           "inputs and objects, other than the one operated on, are as before, repeated operations give equal results, and the "
           "results are those of objects that were built for one operation alone; at least three operations of which one gave peaks")
def run(case, ctx):
    W = World(case)
    fresh = snap.take(W.inputs)
    first = snap.take(World(case).inputs)
    m = snap.diff(first, fresh)
    check(m is None, "construction changed its input: %s" % m, "construction")
    rows = [np.asarray(x) for x in world.build_sample(case["sample"])]
    for k, x in zip(("coord", "enod", "U", "eps", "pm"), rows):
        close(np.asarray(W.inputs[k], float), x, "input %s after construction" % k, 0, 0, sig="construction")
    made = [("scene", peaks_for(W, case, i)) for i in range(2)]
    todo = []  # (operation, result) that must come out again
    version = dict(pc=[0, 0], beam=[0, 0])
    log = dict(pc=[[], []], beam=[[], []])
    count = 0
    for n, o in enumerate(case["ops"]):
        before = W.state()
        kept = [snap.take({k: v for k, v in d.items() if k != "verbose"}, CACHES) for _, d in made]
        changed = set()
        if o["op"] == "diffract":
            r = W.diffract(o)
            if r is not None:
                again = W.diffract(o, True)  # talking about it
                m = snap.diff(*(snap.take({k: v for k, v in x.items() if k != "verbose"}, CACHES) for x in (r, again)))
                check(m is None, "diffracting once more gave another result: %s" % m, "repeated diffract")
                made.append((dict(o, v=(version["pc"][o["pc"]], version["beam"][o["beam"]])), r))
                todo.append((o, arr(r["peaks"]).copy(), [list(x) for x in (log["pc"][o["pc"]], log["beam"][o["beam"]])], (version["pc"][o["pc"]], version["beam"][o["beam"]])))
                count += len(r["peaks"]) > 0
        elif o["op"] == "render":
            d = made[o["which"] % len(made)][1]
            fin = torch.isfinite(d["peaks"]).all(dim=1)
            if len(fin) and not fin.all():
                ctx.event("infinite factors")
            a = W.render(d, o)
            b = W.render(d, o, True)
            close(b[0], arr(a[0]), "rendered once more", 0, 0, sig="repeated render")
            m = snap.diff(snap.take(a[1]["peaks"]), snap.take(b[1]["peaks"]))
            check(m is None, "rendering once more gave other peaks: %s" % m, "repeated render")
            # the result can be rendered again
            check(a[1] is not d and a[1]["peaks"] is not d["peaks"], "render returned its argument", "aliased")
            count += float(arr(a[0]).sum()) > 0
        elif o["op"] == "transform":
            W.polycrystals[o["pc"]].transform(W.motions[o["motion"]], o["time"])
            changed.add(("polycrystals", o["pc"]))
            version["pc"][o["pc"]] += 1
            log["pc"][o["pc"]].append(o)
        elif o["op"] == "vertices":
            V = torch.tensor(world.box(np.array(o["half"]) * W.size, ref.rotvec_matrix(o["tilt"])))
            W.beams[o["beam"]].set_beam_vertices(V)
            V *= 0  # the caller's array is free again
            changed.add(("beams", o["beam"]))
            version["beam"][o["beam"]] += 1
            log["beam"][o["beam"]].append(o)
        elif o["op"] == "save":
            obj = getattr(W, o["what"] + "s")[o["i"]]
            obj.save(ctx.path("x%d" % n))
        elif o["op"] == "mesh":
            # the mesh is still the caller's
            M = W.meshes[0]
            if o["how"] == "translate":
                M.translate(np.array(case["motions"][o["motion"]]["translation"]) + 0.1)
            elif o["how"] == "rotate":
                M.rotate(np.array(case["motions"][o["motion"]]["axis"]), 0.3)
            else:
                M.update(W.motions[o["motion"]], o["time"])
            changed.add(("meshes", 0))
        else:
            # everything diffracted so far comes out again, as long as the objects have not been moved
            for q, peaks, _, v in todo:
                if v == (version["pc"][q["pc"]], version["beam"][q["beam"]]):
                    r = W.diffract(q)
                    check(r is not None, "diffract gave nothing the second time", "repeated later")
                    close(arr(r["peaks"]), peaks, "diffracted again later", 0, 0, sig="repeated later")
                    ctx.event("repeated later")
        after = W.state()
        for kind in before:
            items = before[kind] if isinstance(before[kind], list) else [before[kind]]
            now = after[kind] if isinstance(after[kind], list) else [after[kind]]
            for i, (x, y) in enumerate(zip(items, now)):
                if (kind, i) in changed:
                    if kind == "polycrystals":  # the sample frame stays
                        for k in ("mesh_sample", "strain_sample", "orientation_sample", "phases", "element_phase_map"):
                            m = snap.diff(x[k], y[k])
                            check(m is None, "transform changed %s: %s" % (k, m), "transform changed " + k)
                    continue
                m = snap.diff(x, y)
                check(m is None, "%s changed %s %d: %s" % (o["op"], kind, i, m), "%s changed %s" % (o["op"], kind))
        for (_, d), x in zip(made, kept):
            m = snap.diff(x, snap.take({k: v for k, v in d.items() if k != "verbose"}, CACHES))
            check(m is None, "%s changed peaks handed out before: %s" % (o["op"], m), "%s changed peaks" % o["op"])
        ctx.event(o["op"])
    # objects built for one operation alone
    for o, peaks, (pl, bl), _ in todo[-2:]:
        X = World(case)
        for q in pl:
            X.polycrystals[o["pc"]].transform(X.motions[q["motion"]], q["time"])
        for q in bl:
            X.beams[o["beam"]].set_beam_vertices(torch.tensor(world.box(np.array(q["half"]) * X.size, ref.rotvec_matrix(q["tilt"]))))
        r = X.diffract(o)
        check(r is not None, "objects built for one operation alone diffract nothing", "alone")
        close(arr(r["peaks"]), peaks, "peaks of objects built for one operation alone", 1e-13, 1e-13, sig="alone")
        ctx.event("alone")
    ctx.nontrivial(count > 0 and len(case["ops"]) > 2)
