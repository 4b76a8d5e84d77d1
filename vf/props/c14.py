"""C14: using a detector to bound the Bragg angles loses no detectable peak."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, world
from vf.core import Reject, arr, check, close, component
from vf.props.c02 import valid_cell

P = "C14"


@st.composite
def window_case(draw):
    s = draw(world.samples(max_elements=3, max_phases=2, strain=0.003, scale=gen.log(0.01, 5.0), spread=1.0))
    b = draw(world.beams(half=(2e3, 2e3, 2e3)))
    dist = draw(gen.log(1e5, 1e6))
    size = [draw(gen.log(0.05, 1.5)) * dist, draw(gen.log(0.05, 1.5)) * dist]
    d = dict(distance=dist, direction=b["direction"], size=size, pixels=[20, 30],
             shift=[draw(gen.even(-1, 1)) * size[0], draw(gen.even(-1, 1)) * size[1]],
             tilt=[x * draw(gen.even(0, 0.5)) for x in draw(gen.random_unit)])
    return dict(sample=s, beam=b, detector=d, motion=draw(world.motions(angle=gen.even(0.2, 3.0))),
                lo=draw(st.one_of(st.just(None), gen.even(0.0, 0.6))), hi=draw(st.sampled_from(["none", "none", "default", "inside", "outside"])),
                part=draw(gen.even(0.2, 0.98)), at=[x * draw(gen.even(0.05, 2.0)) for x in draw(gen.random_unit)],
                how=draw(st.sampled_from(["origin", "built there", "moved there", "moved there"])))


def keys(p):
    return [tuple(int(round(v)) for v in r[:5]) + (round(float(r[6]), 9),) for r in p]


@component(P, "detectable", window_case(), 2000, 14000,
           "a run with a detector whose peaks on the detector equal those of a run without, "
           "with at least one peak on the detector and one reflection skipped")
def detectable(case, ctx):
    s, b, d = case["sample"], case["beam"], case["detector"]
    if not all(valid_cell(c["cell"]) for c in s["cells"]):
        raise Reject("degenerate cell")
    c0, c1, c2 = world.detector_corners(d)
    C = np.array([c0, c1, c2, c1 + c2 - c0])
    k = np.array(b["direction"])
    ang = np.arctan2(np.linalg.norm(np.cross(C, k), axis=1), C @ k) / 2
    cone = ang.max()
    if ang.max() > math.radians(44) or np.min(C @ k) < 0.1 * d["distance"]:
        raise Reject("the detector is not in front of the sample")
    # margin of the cone for the size of the sample
    spread = s["scale"] * 6
    margin = spread / d["distance"] * 2
    # limit of the reference run: everything, or a fine sin(theta)/lambda limit to bound the cost
    full = min(math.asin(min(0.99, 0.42 * b["wavelength"])), math.pi / 2)
    lo = 0.0 if case["lo"] is None else case["lo"] * min(cone, full)
    kw = {}
    if case["lo"] is not None:
        kw["min_bragg_angle"] = lo
    if case["hi"] == "inside":
        hi = min(full, lo + (cone - lo) * case["part"])
    elif case["hi"] == "outside":
        hi = min(full, cone * 1.3 + 0.01)
    else:
        hi = None
    limit = full if hi is None else hi
    if hi is not None:
        kw["max_bragg_angle"] = hi
    elif cone > full:
        kw["max_bragg_angle"] = full
    elif case["hi"] == "none":
        kw["max_bragg_angle"] = None
    if min(limit, cone) - lo < 1e-3:
        raise Reject("empty window")
    # the sample, with the axis and the detector, may lie anywhere
    o = np.array(case["at"]) * d["distance"] * (case["how"] != "origin")
    from xrd_simulator.detector import Detector
    from xrd_simulator.mesh import TetraMesh
    from xrd_simulator.motion import RigidBodyMotion
    from xrd_simulator.polycrystal import Polycrystal
    D = Detector(c0 + o, c1 + o, c2 + o, n_pixels=tuple(d["pixels"]))
    beam, M = world.make_beam(dict(b, centre=list(o))), world.make_motion(dict(case["motion"], origin=o))

    def sample():
        if case["how"] == "built there":
            coord, enod, U, eps, pm = world.build_sample(s)
            return Polycrystal(TetraMesh.generate_mesh_from_vertices(coord + o, enod), U, eps, world.make_phases(s), pm)
        pc = world.make_polycrystal(s)
        if case["how"] == "moved there":
            pc.transform(RigidBodyMotion(np.array(case["motion"]["axis"]), 0.4, o), 1.0)
        return pc

    ctx.event("sample " + case["how"])
    pc = sample()
    with_det = pc.diffract(beam, M, detector=D, verbose=False, **kw)
    p = world.peaks_array(with_det)
    listed = sum(len(ph.miller_indices) for ph in pc.phases)
    pc2 = sample()
    without = pc2.diffract(beam, M, min_bragg_angle=lo, max_bragg_angle=limit, verbose=False)
    q = world.peaks_array(without)
    listed2 = sum(len(ph.miller_indices) for ph in pc2.phases)

    def on(res):
        out = D.peaks_detector_intersection(dict(res), 1, verbose=False)
        return set(keys(arr(out["peaks"])))

    a, r = on(with_det), on(without)
    lost = r - a
    check(not lost, lambda: "a peak on the detector is lost by bounding the Bragg angles: %s" % sorted(lost)[:2])
    extra = set(keys(p)) - set(keys(q))
    # the window of the other run may end a little earlier than the cone
    if limit < cone + margin:
        extra = {e for e, row in zip(keys(p), p) if e in extra and row[22] / 2 < limit - 0.02 - 4 * s["strain_scale"]}
    check(not extra, lambda: "bounding the Bragg angles invents peaks: %s" % sorted(extra)[:2])
    # unstrained Bragg angle of the planes listed is inside the requested window and the cone
    for i, ph in enumerate(pc.phases):
        H = arr(ph.miller_indices).reshape(-1, 3)
        if len(H):
            g = np.linalg.inv(ref.metric(s["cells"][i]["cell"]))
            st_ = 0.5 * np.sqrt(np.einsum("ni,ij,nj->n", H, g, H)) * b["wavelength"]
            check(st_.min() >= math.sin(lo) * (1 - 1e-9) - 1e-12, "a plane below the requested minimum Bragg angle is considered")
            top = min(limit, cone + margin)
            check(st_.max() <= math.sin(top) * (1 + 1e-9) + 1e-9, lambda: "a plane beyond the %s is considered" % ("requested maximum" if limit < cone else "detector"))
    ctx.nontrivial(len(a) > 0)
    if listed < listed2:
        ctx.event("reflections skipped")
    ctx.event("max " + case["hi"])
