"""C12: laboratory quantities are the composed motion of the sample ones; the sample frame never changes."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st

from vf import crowd, gen, ref, world
from vf.core import arr, check, close, component
from vf.props.c10 import tail
from xrd_simulator.polycrystal import Polycrystal
from xrd_simulator.mesh import TetraMesh

P = "C12"

OPS = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("transform"), motion=world.motions(shift=1.0, origin=1.0),
                               time=st.one_of(gen.even(0, 1), st.sampled_from([1.0, 0.5, 0.0])), form=st.sampled_from(["float", "torch"]))),
    st.fixed_dictionaries(dict(op=st.just("transform"), motion=world.motions(shift=1.0, origin=1.0), time=gen.even(0.05, 1), form=st.just("float"))),
    # the motion of an earlier step goes on: the same object at another time
    st.fixed_dictionaries(dict(op=st.just("again"), time=gen.even(0.05, 1), form=st.sampled_from(["float", "torch"]))),
    st.fixed_dictionaries(dict(op=st.just("diffract"), same=st.booleans(), motion=world.motions(shift=1.0))),
    st.fixed_dictionaries(dict(op=st.just("reload"))),
    st.fixed_dictionaries(dict(op=st.just("copy"))),
)


@st.composite
def cases(draw):
    s = draw(world.samples(max_elements=5, max_phases=2))
    for c in s["cells"]:
        c["cell"][:3] = [min(x, 5.0) for x in c["cell"][:3]]
    return dict(sample=s, one_u=draw(st.booleans()), one_eps=draw(st.booleans()), form=draw(st.sampled_from(["numpy", "torch"])),
                no_map=draw(st.booleans()), ops=draw(st.lists(OPS, min_size=3, max_size=9)), beam=draw(world.beams(wavelength=gen.num(0.4, 0.9))))


def look(pc):
    """Everything observable, as numpy copies."""
    out = {}
    for name in ("orientation_lab", "orientation_sample", "strain_lab", "strain_sample", "element_phase_map"):
        out[name] = arr(getattr(pc, name)).copy()
    for frame in ("mesh_lab", "mesh_sample"):
        for name in ("coord", "enod", "ecentroids", "enormals", "eradius", "espherecentroids", "evolumes", "centroid"):
            out[frame + "." + name] = arr(getattr(getattr(pc, frame), name)).copy()
    return out


@component(P, "history", cases(), 1300, 20000,
           "at least one transform by a time in (0, 1]; after every operation both frames are compared with the composed motion")
def history(case, ctx):
    s, form = case["sample"], (torch.tensor if case["form"] == "torch" else np.array)
    coord, enod, U, eps, pm = world.build_sample(s)
    if case["one_u"]:
        U = np.repeat(U[:1], len(enod), axis=0)
    if case["one_eps"]:
        # the given strain is in the laboratory frame
        eps = np.repeat(eps[:1], len(enod), axis=0)
    if case["no_map"]:
        pm = np.zeros(len(enod), int)
        s = dict(s, cells=s["cells"][:1])
    phases = world.make_phases(s)
    mesh = TetraMesh.generate_mesh_from_vertices(coord, enod)
    given = form(U[0] if case["one_u"] else U), form(eps[0] if case["one_eps"] else eps)
    pc = Polycrystal(mesh, given[0], given[1], phases, None if case["no_map"] else pm)
    scale = float(s["scale"])
    B = [ref.strained_b(s["cells"][m]["cell"], eps[i], U[i]) for i, m in enumerate(pm)]
    beam = world.make_beam(case["beam"])
    X, R = coord.copy(), np.eye(3)
    spheres_lab, spheres_sample = [None] * len(enod), [None] * len(enod)
    kinds, kept, n, used = [], [], 0, None

    def verify(p, X, R, what):
        tail(X, enod, scale, p.mesh_lab, spheres_lab, ctx, what + "mesh_lab: ")
        tail(coord, enod, scale, p.mesh_sample, spheres_sample, ctx, what + "mesh_sample: ")
        close(p.orientation_lab, R @ U, what + "orientation_lab", 0, 1e-9, sig="orientation_lab")
        close(p.orientation_sample, U, what + "orientation_sample", 0, 1e-12, sig="orientation_sample")
        close(p.strain_lab, R @ eps @ R.T, what + "strain_lab", 0, 1e-10, sig="strain_lab")
        close(p.strain_sample, eps, what + "strain_sample", 0, 1e-12, sig="strain_sample")
        close(p.element_phase_map, pm, what + "element_phase_map", 0, 0, sig="element_phase_map")
        L = arr(p.orientation_lab)
        close(L @ L.transpose(0, 2, 1), np.repeat(np.eye(3)[None], len(L), axis=0), what + "orthogonality", 0, 1e-9, sig="orthogonality")
        close(np.linalg.det(L), np.ones(len(L)), what + "handedness", 0, 1e-9, sig="handedness")
        e = arr(p.strain_lab)
        close(np.linalg.eigvalsh((e + e.transpose(0, 2, 1)) / 2), np.linalg.eigvalsh(eps), what + "principal strains", 0, 1e-10, sig="strain invariants")

    verify(pc, X, R, "after construction: ")
    for k, o in enumerate(case["ops"]):
        kinds.append(o["op"])
        what = "after %s: " % "-".join(kinds)
        if o["op"] == "again" and used is None:
            continue
        if o["op"] in ("transform", "again"):
            if o["op"] == "transform":
                q = dict(o["motion"])
                q["translation"] = [v * scale for v in q["translation"]]
                q["origin"] = [v * scale for v in q["origin"]]
                used = world.make_motion(q)
            t = torch.tensor(o["time"]) if o["form"] == "torch" else o["time"]
            check(pc.transform(used, t) is None, what + "transform returned something", "return value")
            X, R = ref.move(q, X, o["time"]), ref.rot(q["axis"], q["angle"] * o["time"]) @ R
            n += o["time"] > 0
        elif o["op"] == "diffract":
            before = look(pc)
            M = used if used is not None and o["same"] else world.make_motion(o["motion"])
            p = world.peaks_array(pc.diffract(beam, M, max_bragg_angle=0.3, verbose=False))
            after = look(pc)
            for name in before:
                close(after[name], before[name], what + name, 0, 0, sig="diffract changed " + name)
            if len(p):
                i = p[:, 0].astype(int)
                G = np.einsum("ij,njk,nk->ni", R, (U @ np.array(B))[i], p[:, 2:5])
                close(p[:, 7:10], G, what + "G0", 1e-7, 1e-7, sig="lattice of the moved elements")
                close(p[:, 1], pm[i], what + "phase of the peaks", 0, 0, sig="phase of the peaks")
                ctx.event("peaks of moved elements compared" if n else "peaks compared")
        elif o["op"] == "reload":
            path = ctx.path("sample.pc")
            pc.save(path, save_mesh_as_xdmf=bool(k % 2))
            verify(pc, X, R, what + "saved: ")
            pc = Polycrystal.load(path)
        else:
            kept.append((pc, X, R, what))
            pc = copy.deepcopy(pc)
        verify(pc, X, R, what)
    for p, Y, Q, what in kept:
        verify(p, Y, Q, "original of a copy, " + what)
    close(given[0], U[0] if case["one_u"] else U, "the caller's orientations", 0, 0)
    close(given[1], eps[0] if case["one_eps"] else eps, "the caller's strains", 0, 0)
    close(mesh.coord, coord, "the caller's mesh", 0, 0)
    ctx.nontrivial(n)
    ctx.event("transforms %d" % n)
    for a, b in zip(kinds, kinds[1:]):
        ctx.event("%s then %s" % (a, b))


@component(P, "crowd", st.fixed_dictionaries(dict(crowd=crowd.cases(top=1200), moves=st.lists(st.fixed_dictionaries(dict(
    motion=world.motions(shift=1.0, origin=1.0), time=gen.even(0.05, 1))), min_size=1, max_size=3), reload=st.booleans())), 50, 800,
           "a polycrystal of up to 1200 elements, moved; both frames")
def many(case, ctx):
    w = crowd.Crowd(case["crowd"])
    pc = w.polycrystal()
    X, R = w.coord, np.eye(3)
    for o in case["moves"]:
        q = dict(o["motion"], translation=[x * w.scale for x in o["motion"]["translation"]], origin=[x * w.scale for x in o["motion"]["origin"]])
        pc.transform(world.make_motion(q), o["time"])
        X, R = ref.move(q, X, o["time"]), ref.rot(q["axis"], q["angle"] * o["time"]) @ R
    if case["reload"]:
        path = ctx.path("sample.pc")
        pc.save(path, save_mesh_as_xdmf=False)
        pc = Polycrystal.load(path)
    tol = 1e-9 * (np.abs(X).max() + w.scale)
    for frame, Y, Q in (("lab", X, R), ("sample", w.coord, np.eye(3))):
        mesh = getattr(pc, "mesh_" + frame)
        close(mesh.coord, Y, "nodes, %s frame" % frame, 0, tol, sig="nodes " + frame)
        close(mesh.enod, w.enod, "elements, %s frame" % frame, 0, 0, sig="elements " + frame)
        close(mesh.ecentroids, Y[w.enod].mean(axis=1), "centroids, %s frame" % frame, 0, tol, sig="centroids " + frame)
        C, r = arr(mesh.espherecentroids), arr(mesh.eradius)
        reach = np.linalg.norm(Y[w.enod] - C[:, None], axis=-1).max(axis=1)
        check(np.all(np.abs(reach - r) <= 3e-4 * r + tol), "bounding spheres, %s frame" % frame, "spheres " + frame)
        close(getattr(pc, "orientation_" + frame), Q @ w.U, "orientations, %s frame" % frame, 0, 1e-9, sig="orientations " + frame)
        close(getattr(pc, "strain_" + frame), Q @ w.eps @ Q.T, "strains, %s frame" % frame, 0, 1e-11, sig="strains " + frame)
    close(pc.element_phase_map, w.pm, "phases", 0, 0)
    ctx.nontrivial(w.n > 3)
