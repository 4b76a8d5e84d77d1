"""C08: every row of the peak table is consistent with its geometry."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from vf import crowd, gen, ref, world
from vf.core import Reject, arr, check, close, component, priv
from vf.props.c02 import valid_cell

P = "C08"


@st.composite
def table_case(draw):
    s = draw(world.samples(max_elements=5, max_phases=3, strain=0.02, scale=gen.log(1e-3, 50.0)))
    m = draw(world.motions(angle=st.one_of(gen.even(0.3, 3.1), gen.even(0.01, 0.5)), shift=1.0, origin=1.0))
    m["translation"] = draw(st.sampled_from([m["translation"], [0.0, 0.0, 0.0]]))
    stl = draw(gen.even(0.1, 0.33))
    return dict(sample=s, motion=m, beam=draw(world.beams(half=(1e5, 1e5, 1e5), wavelength=gen.num(0.12, 1.8))), stl=stl,
                narrow=draw(st.sampled_from([0.0, 0.0, 0.0, 0.9, 0.97])))


def verify_table(res, s, b, m, ctx=None):
    coord, enod, U, eps, pm = world.build_sample(s)
    p = world.peaks_array(res)
    check(list(res["columns"]) == world.COLUMNS, "column names %s" % list(res["columns"]))
    check(arr(res["peaks"]).shape == (len(p), len(world.COLUMNS)), "number of columns")
    close(p[:, 24], np.arange(len(p)), "peak index", 0, 0)
    k = world.k_of(b)
    pol = world.pol_of(b)
    axis = np.asarray(m["axis"])
    size = s["scale"] * 10 + np.abs(m["origin"]).max() + np.abs(m["translation"]).max()
    centres = [ref.min_sphere(coord[e])[0] for e in enod]
    off = [ref.sphere_spread(coord[e]) for e in enod]
    for r in p:
        e, ph = int(r[0]), int(r[1])
        check(r[0] == e and 0 <= e < s["n"], "grain index %r" % r[0])
        check(ph == pm[e] and r[1] == ph, "phase of a peak is not that of its element")
        h = r[2:5]
        check(np.all(h == np.round(h)) and np.any(h != 0), "Miller indices %s" % h)
        check(0 <= r[6] <= 1, "diffraction time %r" % r[6])
        g0 = U[e] @ ref.strained_b(s["cells"][ph]["cell"], eps[e], U[e]) @ h
        close(r[7:10], g0, "G0 column", 1e-9, 1e-9)
        g = ref.rot(axis, m["angle"] * r[6]) @ g0
        close(r[10:13], g, "G column", 1e-9, 1e-8)
        close(r[13:16], k + r[10:13], "K_out column", 1e-12, 1e-11)
        kn = np.linalg.norm(k)
        close(np.linalg.norm(r[13:16]), kn, "length of K_out", 1e-6, 0)
        tt = math.atan2(np.linalg.norm(np.cross(k, r[13:16])), k @ r[13:16])
        close(r[22], tt, "2theta column", 1e-7, 3e-8)
        close(2 * kn * math.sin(r[22] / 2), np.linalg.norm(g0), "Bragg's law", 1e-6, 1e-7)
        close(r[16:19], ref.move(m, centres[e], r[6]), "source column", 1e-7, 1e-7 * size + off[e])
        L, margin = ref.lorentz(k, r[13:16], axis)
        if margin > 1e-6:
            if math.isinf(L):
                check(math.isinf(r[19]) and r[19] > 0, lambda: "Lorentz factor is %r in the forbidden zone" % r[19])
            else:
                close(r[19], L, "Lorentz factor", 1e-6, 0)
        close(r[20], ref.polarization(r[13:16], pol), "polarization factor", 1e-9, 1e-12)
        V = ref.tet_volume(coord[enod[e]])
        close(r[21], V, "volume column", 1e-9, 0)
        close(r[23], ref.scherrer(V, tt, b["wavelength"]), "Scherrer width", 1e-6 + 1e-7 / max(1e-3, abs(math.cos(tt / 2))), 0)
        check(r[5] == 1.0, "intensity without a structure")
    return p


@component(P, "rows", table_case(), 1500, 20000,
           "a diffraction pattern with at least one peak; every column of every row is recomputed from element, hkl and time")
def rows(case, ctx):
    s, b = case["sample"], case["beam"]
    if not all(valid_cell(c["cell"]) for c in s["cells"]):
        raise Reject("degenerate cell")
    m = dict(case["motion"])
    m["translation"] = [x * s["scale"] for x in m["translation"]]
    m["origin"] = [x * s["scale"] * 3 for x in m["origin"]]
    hi = math.asin(min(0.995, case["stl"] * b["wavelength"]))
    pc = world.make_polycrystal(s)
    res = pc.diffract(world.make_beam(b), world.make_motion(m), min_bragg_angle=hi * case["narrow"], max_bragg_angle=hi, verbose=False)
    p = verify_table(res, s, b, m)
    # the other entries
    close(res["incident_vector"], world.k_of(b), "incident_vector", 1e-12, 1e-12)
    close(float(res["wavelength"]), b["wavelength"], "wavelength", 0, 0)
    close(res["rotation_axis"], m["axis"], "rotation_axis", 0, 1e-15)
    ctx.nontrivial(len(p) > 0)
    ctx.event("no peak" if len(p) == 0 else "one peak" if len(p) == 1 else "many peaks")
    if len(p) and np.isinf(p[:, 19]).any():
        ctx.event("infinite Lorentz factor")
    if len(set(p[:, 1])) > 1:
        ctx.event("several phases")
    if len(p) and p[:, 22].max() > math.pi / 2:
        ctx.event("back scattering")


@st.composite
def single_case(draw):
    c = draw(table_case())
    c["pick"] = draw(gen.even(0, 1))
    return c


@component(P, "single_peak", single_case(), 800, 8000,
           "a Bragg window and a rotation range cut down to one peak of a pattern: it is found alone, with the same columns")
def single_peak(case, ctx):
    s, b = case["sample"], case["beam"]
    if not all(valid_cell(c["cell"]) for c in s["cells"]):
        raise Reject("degenerate cell")
    m = dict(case["motion"], translation=[0.0] * 3)
    hi = math.asin(min(0.995, case["stl"] * b["wavelength"]))
    pc = world.make_polycrystal(s)
    B, M = world.make_beam(b), world.make_motion(m)
    p = world.peaks_array(pc.diffract(B, M, max_bragg_angle=hi, verbose=False))
    ok = world.stable(p, world.k_of(b), np.asarray(m["axis"]), m["angle"])
    if not ok.any():
        return
    i = np.nonzero(ok)[0][int(case["pick"] * ok.sum())]
    r = p[i]
    t = r[6]
    gap = np.abs(np.delete(p[:, 6], i) - t).min() if len(p) > 1 else 1.0
    d = min(gap * 0.5, t * 0.5, (1 - t) * 0.5, 0.05)
    if d * m["angle"] < 1e-4:
        return
    # start the sample just before the event
    pc.transform(M, t - d)
    m2 = dict(m, angle=m["angle"] * 2 * d)
    p2 = verify = world.peaks_array(pc.diffract(B, world.make_motion(m2), max_bragg_angle=hi, verbose=False))
    check(len(p2) == 1, lambda: "a rotation range around one event holds %d peaks" % len(p2))
    q = p2[0]
    check(world.event_keys(p2)[0] == world.event_keys(p[i:i + 1])[0], "another event is found")
    close(q[6], 0.5, "time of the event", 0, 1e-6 / (m["angle"] * 2 * d) + 1e-6)
    close(q[10:16], r[10:16], "G and K_out of the event", 1e-6, 1e-6)
    close(q[20:24], r[20:24], "factors of the event", 1e-5, 1e-9)
    check(q[24] == 0, "peak index of a single peak")
    ctx.nontrivial()


@component(P, "factors", st.fixed_dictionaries(dict(seed=gen.seeds, n=st.integers(1, 40), k=gen.unit, wavelength=gen.log(0.05, 3),
                                                    axis=gen.unit, perpendicular=st.booleans(), pol=gen.even(0, 3.2), volume=gen.log(1e-9, 1e6))), 2500, 30000,
           "a batch of scattered vectors at chosen Bragg angle and azimuth, including the edges of and the centre of the forbidden zones")
def factors(case, ctx):
    lor, pol, sch = (priv("xrd_simulator.scattering_factors", n) for n in ("_lorentz", "_polarization", "_scherrer"))
    rng = np.random.default_rng(case["seed"])
    k = np.array(case["k"]) * 2 * math.pi / case["wavelength"]
    axis = np.array(case["axis"])
    if case["perpendicular"]:
        axis = world.frame_of(case["k"])[1]
    n = case["n"]
    tt = np.radians(np.where(rng.uniform(size=n) < 0.7, rng.uniform(0.2, 170, n), rng.choice([0.98, 1.02, 1.5, 90.0, 5.0], size=n)))
    rows = world.frame_of(case["k"])
    a = axis - rows[0] * (axis @ rows[0])
    if np.linalg.norm(a) > 1e-3:
        a = a / np.linalg.norm(a)
        e1, e2 = a, np.cross(rows[0], a)
    else:
        e1, e2 = rows[1], rows[2]
    az = np.where(rng.uniform(size=n) < 0.6, rng.uniform(0, 360, n), rng.choice([0.0, 180.0, 0.4, 0.6, 179.4, 179.6, 359.6, 359.4, 90.0, 270.0], size=n))
    az = np.radians(az)
    K = np.linalg.norm(k) * (np.cos(tt)[:, None] * rows[0] + np.sin(tt)[:, None] * (np.cos(az)[:, None] * e1 + np.sin(az)[:, None] * e2))
    if lor is not None:
        L = arr(lor(torch.tensor(k), torch.tensor(K), torch.tensor(axis)))
        check(L.shape == (n,), "shape of the Lorentz factors")
        for i in range(n):
            e, margin = ref.lorentz(k, K[i], axis)
            if margin > 1e-6:
                if math.isinf(e):
                    check(math.isinf(L[i]), lambda: "Lorentz factor is %r in the forbidden zone" % L[i])
                    ctx.event("forbidden zone")
                else:
                    close(L[i], e, "Lorentz factor", 1e-6, 0)
        one = float(lor(torch.tensor(k), torch.tensor(K[0]), torch.tensor(axis)))
        check(one == L[0] or abs(one - L[0]) <= 1e-9 * abs(L[0]), "single vector and batch disagree")
    p = math.cos(case["pol"]) * rows[1] + math.sin(case["pol"]) * rows[2]
    if pol is not None:
        got = arr(pol(torch.tensor(K), torch.tensor(p)))
        close(got, [ref.polarization(x, p) for x in K], "polarization factor", 1e-9, 1e-12)
        check(np.all(got >= -1e-12) and np.all(got <= 1 + 1e-12), "polarization factor outside of [0, 1]")
    if sch is not None:
        V = case["volume"] * rng.uniform(0.5, 2, n)
        got = arr(sch(torch.tensor(V), torch.tensor(tt), case["wavelength"]))
        close(got, [ref.scherrer(v, t, case["wavelength"]) for v, t in zip(V, tt)], "Scherrer width", 1e-9, 0)
    ctx.nontrivial()


@component(P, "crowd", crowd.cases(), 80, 1200,
           "a sample of up to 1500 elements, or a crystal of thousands of planes, with more than 100 peaks; every column of every row")
def many(case, ctx):
    w = crowd.Crowd(case)
    p = world.peaks_array(w.diffract(w.polycrystal()))
    close(p[:, 24], np.arange(len(p)), "peak index", 0, 0)
    if not len(p):
        return
    e, t, k = p[:, 0].astype(int), p[:, 6], w.k
    check(np.all(p[:, 0] == e) and e.min() >= 0 and e.max() < w.n, "grain index", "grain index")
    close(p[:, 1], w.pm[e], "phase column", 0, 0)
    check(t.min() >= 0 and t.max() <= 1, "diffraction times", "times")
    g0 = np.einsum("nij,nj->ni", w.lattice()[e], p[:, 2:5])
    close(p[:, 7:10], g0, "G0 column", 1e-9, 1e-8)
    g = crowd.rotate(w.axis, w.m["angle"] * t, g0)
    close(p[:, 10:13], g, "G column", 1e-9, 1e-7)
    K = k + g
    close(p[:, 13:16], K, "K_out column", 1e-9, 1e-7)
    tt = np.arctan2(np.linalg.norm(np.cross(k, K), axis=1), K @ k)
    close(p[:, 22], tt, "2theta column", 1e-6, 1e-7)
    some = np.random.default_rng(case["seed"]).permutation(len(p))[:300]
    u = np.unique(e[some])
    C, off = np.zeros((w.n, 3)), np.zeros(w.n)
    C[u], off[u] = w.centres(u)
    o = np.asarray(w.m["origin"])
    x = crowd.rotate(w.axis, w.m["angle"] * t, C[e] - o) + o + np.outer(t, w.m["translation"])
    bound = 1e-6 * np.abs(x[some]) + 2e-6 * w.scale + off[e[some]][:, None]
    check(np.all(np.abs(p[some, 16:19] - x[some]) <= bound),
          lambda: "source column off by %g" % np.abs(p[some, 16:19] - x[some]).max(), "source column")
    pol = world.pol_of(w.b)
    close(p[:, 20], 1 - (K @ pol / np.linalg.norm(K, axis=1)) ** 2, "polarization factor", 1e-6, 1e-8)
    vol = np.abs(np.linalg.det(w.T[:, 1:] - w.T[:, :1])) / 6
    close(p[:, 21], vol[e], "volume column", 1e-9, 0)
    D = 2 * (3 * vol[e] / (4 * math.pi)) ** (1 / 3) * 1e4
    close(p[:, 23] * np.cos(tt / 2), 0.9 * w.b["wavelength"] / D, "Scherrer width", 1e-5, 0)
    for i in some:
        L, margin = ref.lorentz(k, p[i, 13:16], w.axis)
        if margin > 1e-6 and np.isfinite(L):
            close(p[i, 19], L, "Lorentz factor", 1e-6, 0)
        elif margin > 1e-6:
            check(np.isinf(p[i, 19]), "Lorentz factor %r in the forbidden zone" % p[i, 19], "Lorentz factor")
    ctx.nontrivial(len(p) > 100)
    ctx.event("elements %s" % ("1-3" if w.n < 4 else "40-300" if w.n <= 300 else "more than 300"))
