"""C07: exactly the illuminated diffraction events enter the diffraction pattern."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from vf import crowd, gen, ref, world
from vf.core import Reject, arr, check, close, component
from vf.props.c02 import valid_cell

P = "C07"


@st.composite
def beam_case(draw):
    s = draw(world.samples(max_elements=8, max_phases=2, strain=0.005, spread=1.0))
    m = draw(world.motions(angle=st.one_of(gen.even(0.5, 3.1), gen.even(0.1, 0.8)), shift=1.0, origin=1.0))
    b = draw(world.beams())
    return dict(sample=s, motion=m, beam=b, stl=draw(gen.even(0.18, 0.33)),
                cut=[draw(gen.log(0.4, 6.0)) for _ in range(3)], at=draw(gen.vec(-1.2, 1.2)), tilt=draw(gen.rotvec),
                grow=draw(gen.even(1.0, 3.0)), shift=draw(st.sampled_from([0.0, 0.5, 3.0])))


def rows_key(p):
    return [tuple(int(round(v)) for v in r[:5]) + (round(float(r[6]), 9),) for r in p]


def build(case):
    """Scale the motion and the narrow beam with the sample."""
    s = dict(case["sample"])
    size = s["scale"]
    m = dict(case["motion"])
    m["translation"] = [x * size * case["shift"] for x in m["translation"]]
    m["origin"] = [x * size for x in m["origin"]]
    R = ref.rotvec_matrix(case["tilt"])
    V = world.box(np.array(case["cut"]) * size, R, np.array(case["at"]) * size)
    return s, m, V


@component(P, "filter", beam_case(), 2500, 30000,
           "a narrow beam that keeps some and removes some of the events of the fully illuminated sample")
def narrow(case, ctx):
    s, m, V = build(case)
    if not all(valid_cell(c["cell"]) for c in s["cells"]):
        raise Reject("degenerate cell")
    from xrd_simulator.beam import Beam
    b = dict(case["beam"], half=[1e5] * 3)
    hi = math.asin(min(0.98, case["stl"] * b["wavelength"]))
    wide, small = world.make_beam(b), Beam(V, np.array(b["direction"]), b["wavelength"], world.pol_of(b))
    centre = V.mean(axis=0)
    W = centre + (V - centre) * case["grow"]
    larger = Beam(W, np.array(b["direction"]), b["wavelength"], world.pol_of(b))
    M = world.make_motion(m)
    pc = world.make_polycrystal(s)
    # alternate the beams on the same polycrystal
    a = world.peaks_array(pc.diffract(wide, M, max_bragg_angle=hi, verbose=False))
    c = world.peaks_array(pc.diffract(small, M, max_bragg_angle=hi, verbose=False))
    d = world.peaks_array(pc.diffract(larger, M, max_bragg_angle=hi, verbose=False))
    if len(a) == 0:
        return
    coord, enod, _, _, _ = world.build_sample(s)
    centres = np.array([ref.min_sphere(coord[e])[0] for e in enod])
    src = np.array([ref.move(m, centres[int(r[0])], r[6]) for r in a])
    spread = np.array([ref.sphere_spread(coord[e]) for e in enod])
    off = spread[a[:, 0].astype(int)].max()
    close(a[:, 16:19], src, "source point of an event", 1e-6, 2e-6 * s["scale"] + off)
    margin = ref.inside_margin(V, src)
    tol = 1e-5 * (1 + np.abs(V).max() + np.abs(src).max()) + off
    ka, kc, kd = rows_key(a), rows_key(c), rows_key(d)
    must = {k for k, x in zip(ka, margin) if x > tol}
    never = {k for k, x in zip(ka, margin) if x < -tol}
    missing, extra = must - set(kc), (set(kc) & never) | (set(kc) - set(ka))
    check(not missing, lambda: "an illuminated event is missing: %s" % sorted(missing)[:2])
    check(not extra, lambda: "an event outside of the beam is in the pattern: %s" % sorted(extra)[:2])
    unsure = {k for k, x in zip(ka, margin) if abs(x) <= tol}
    lost = set(kc) - set(kd) - unsure
    check(not lost, lambda: "enlarging the beam removed %s" % sorted(lost)[:2])
    # all columns of the remaining rows are unchanged, but for the running index
    where = {k: i for i, k in enumerate(ka)}
    if len(where) == len(ka):
        for k, r in zip(kc, c):
            close(r[:24], a[where[k]][:24], "columns of an illuminated event", 1e-9, 1e-10 * min(1, s["scale"]))
    close(c[:, 24], np.arange(len(c)), "peak index", 0, 0)
    ctx.nontrivial(bool(must) and bool(never))
    by = {}
    for k, x in zip(ka, margin):
        by.setdefault(k[0], set()).add(x > 0)
    if any(len(v) == 2 for v in by.values()):
        ctx.event("an element enters or leaves the beam")


@component(P, "crowd", crowd.cases(top=600), 80, 1200,
           "a sample of up to 600 elements and a narrow beam that keeps some and removes some of the events")
def many(case, ctx):
    w = crowd.Crowd(case)
    pc = w.polycrystal()
    V, beam = w.narrow()
    a, c = world.peaks_array(w.diffract(pc)), world.peaks_array(w.diffract(pc, beam))
    centre, off = w.centres(np.arange(w.n))
    o = np.asarray(w.m["origin"])

    def depth(el, t):
        return ref.inside_margin(V, crowd.rotate(w.axis, w.m["angle"] * t, centre[el] - o) + o + np.outer(t, w.m["translation"]))

    # the crossings themselves
    L, have = w.lattice(), {k[:5] for k in rows_key(c)}
    for i in range(len(w.cells)):
        H, certain = w.planes(i)
        el = np.nonzero(w.pm == i)[0]
        if not len(H) or not len(el):
            continue
        idx, t, sure, _ = ref.crossings(w.k, w.axis, w.m["angle"], np.einsum("nij,mj->nmi", L[el], H).reshape(-1, 3))
        j, h = el[idx // len(H)], idx % len(H)
        sure &= certain[h]
        j, h, t = j[sure], h[sure], t[sure]
        inside = depth(j, t) > 1e-5 * (1 + np.abs(V).max()) + off.max()
        lost = [(int(e), i, *(int(v) for v in H[q])) for e, q in zip(j[inside], h[inside])]
        lost = [k for k in lost if k not in have]
        check(not lost, lambda: "%d illuminated crossings are missing, as %s" % (len(lost), lost[0]), "missing")
        if len(t) > 4096:
            ctx.event("more than 4096 crossings")
    if not len(a):
        return
    margin = depth(a[:, 0].astype(int), a[:, 6])
    tol = 1e-5 * (1 + np.abs(V).max()) + off.max()
    kept = set(rows_key(c))
    ka = rows_key(a)
    lost = [k for k, q in zip(ka, margin) if q > tol and k not in kept]
    check(not lost, lambda: "%d illuminated events are missing, as %s" % (len(lost), lost[0]), "missing")
    out = kept - {k for k, q in zip(ka, margin) if q > -tol}
    check(not out, lambda: "%d events outside of the beam, as %s" % (len(out), sorted(out)[0]), "outside")
    check(len(c) <= int((margin > -tol).sum()), "an event is listed twice", "twice")
    ctx.nontrivial((margin > tol).any() and (margin < -tol).any())
