"""C01: every Laue crossing is found, none is invented."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import crowd, gen, ref, world
from vf.core import arr, check, close, component, priv

P = "C01"


def verify_events(pc_keys, G_by_key, k, axis, dw, got_key, got_t, ctx, tol=2e-7):
    """G_by_key: dict key -> G0. Compares the reported events with the reference crossings."""
    keys = list(G_by_key)
    G = np.array([G_by_key[q] for q in keys]).reshape(-1, 3)
    idx, t, sure, skip = ref.crossings(k, axis, dw, G)
    ignore = {keys[i] for i in np.nonzero(skip)[0]}
    ek = [keys[i] for i in idx]
    gk, gt = [], []
    for q, tt in zip(got_key, got_t):
        if q not in ignore:
            gk.append(q)
            gt.append(tt)
    unknown = set(gk) - set(keys)
    check(not unknown, lambda: "event of an unknown element or reflection: %s" % sorted(unknown)[:3])
    check(np.all(np.isfinite(gt)) and np.all(np.asarray(gt) >= 0) and np.all(np.asarray(gt) <= 1),
          "a time outside of [0, 1] is reported")
    msg = ref.compare_events(ek, t, sure, gk, gt, tol)
    check(msg is None, lambda: "Laue events: " + str(msg), "Laue events differ from the crossings")
    n_sure = int(np.sum(sure))
    twice = len(set(np.array([hash(q) for q, s in zip(ek, sure) if s]).tolist())) < n_sure
    if n_sure:
        ctx.event("crossings present")
    if twice:
        ctx.event("a reflection crosses twice")
    return n_sure


# ------------------------------------------------------------------ whole polycrystals
@st.composite
def poly_case(draw):
    s = draw(world.samples(max_elements=4, max_phases=2, strain=0.02))
    b = draw(world.beams())
    stl = draw(gen.num(0.1, 0.34))
    m = draw(world.motions(angle=st.one_of(gen.even(0.02, 1.0), gen.even(0.2, 3.14), st.just(math.pi / 2))))
    return dict(sample=s, beam=b, motion=m, stl=stl)


@component(P, "diffract", poly_case(), 1500, 20000,
           "a diffraction run with at least one certain crossing, all events of all elements compared")
def diffract(case, ctx):
    s, b, m = case["sample"], case["beam"], case["motion"]
    pc = world.make_polycrystal(s)
    sin_max = min(0.98, case["stl"] * b["wavelength"])
    res = pc.diffract(world.make_beam(b), world.make_motion(m), max_bragg_angle=math.asin(sin_max), verbose=False)
    p = world.peaks_array(res)
    _, _, U, eps, pm = world.build_sample(s)
    G = {}
    for i, ph in enumerate(pc.phases):
        H = arr(ph.miller_indices).reshape(-1, 3)
        for e in np.nonzero(pm == i)[0]:
            UB = U[e] @ ref.strained_b(s["cells"][i]["cell"], eps[e], U[e])
            for h in H:
                G[(int(e), i) + tuple(int(round(x)) for x in h)] = UB @ h
    got = [tuple(int(round(v)) for v in (r[0], r[1], r[2], r[3], r[4])) for r in p]
    k = world.k_of(b)
    n = verify_events(None, G, k, m["axis"], m["angle"], got, p[:, 6], ctx)
    # the event carries the vectors of this very crossing
    for q, r in zip(got, p):
        g0 = G[q]
        close(r[7:10], g0, "unrotated G of an event", rtol=1e-9, atol=1e-8)
        g = ref.rot(m["axis"], m["angle"] * r[6]) @ g0
        close(r[10:13], g, "rotated G of an event", rtol=1e-9, atol=1e-7)
        close(np.linalg.norm(k + r[10:13]), np.linalg.norm(k), "Laue condition of an event", rtol=1e-6, atol=0)
    ctx.nontrivial(n > 0)


# ------------------------------------------------------------------ constructed crossings
@st.composite
def aimed_case(draw):
    """A reflection built to cross at chosen rotation angles."""
    return dict(
        axis=draw(gen.unit), k=draw(gen.unit), wavelength=draw(gen.num(0.1, 1.0)),
        angle=draw(gen.angle), t=draw(st.one_of(gen.even(0, 1), st.sampled_from([1e-6, 1 - 1e-6, 0.5]))),
        theta=draw(st.one_of(gen.even(0.005, 0.6), gen.even(0.01, 1.5))), psi=draw(gen.even(0, 6.283)),
        graze=draw(gen.rarely(3, gen.log(4e-4, 0.1), st.just(0.0))),
        spin=draw(gen.even(0, 6.283)), at_pi=draw(st.booleans()), hkl=draw(st.sampled_from([[1, 0, 0], [0, -1, 0], [0, 0, 1], [1, 1, 0], [-1, 1, 1]])))


@component(P, "aimed", aimed_case(), 2500, 40000,
           "a crystal oriented so that a reflection crosses at a chosen time of the rotation "
           "(or exactly half a turn away, where the tangent half angle equation degenerates)")
def aimed(case, ctx):
    axis = np.array(case["axis"])
    k = np.array(case["k"]) * 2 * math.pi / case["wavelength"]
    dw, theta = case["angle"], case["theta"]
    # a G in Laue condition: |G| = 2 k sin(theta), k.G = -|G|^2 / 2
    rows = world.frame_of(case["k"])
    perp = math.cos(case["psi"]) * rows[1] + math.sin(case["psi"]) * rows[2]
    top = axis - rows[0] * (rows[0] @ axis)
    if case["graze"] and np.linalg.norm(top) > 0.05:
        # the reflection touches the Ewald sphere: it enters and leaves it again after a small angle
        top /= np.linalg.norm(top)
        perp = math.copysign(1, math.cos(case["psi"])) * math.cos(case["graze"]) * top + math.copysign(1, math.sin(case["psi"])) * math.sin(case["graze"]) * np.cross(rows[0], top)
        ctx.event("grazing")
    gl = 2 * np.linalg.norm(k) * math.sin(theta)
    G_lab = gl * (-math.sin(theta) * rows[0] + math.cos(theta) * perp)
    phi = math.pi if case["at_pi"] else case["t"] * dw
    G0 = ref.rot(axis, -phi) @ G_lab
    h = np.array(case["hkl"], float)
    a = 2 * math.pi * np.linalg.norm(h) / gl  # cubic cell with |B h| = |G|
    d0, d1 = h / np.linalg.norm(h), G0 / np.linalg.norm(G0)
    F0, F1 = world.frame_of(d0), world.frame_of(d1)
    U = F1.T @ np.array([[1, 0, 0], [0, math.cos(case["spin"]), -math.sin(case["spin"])],
                         [0, math.sin(case["spin"]), math.cos(case["spin"])]]) @ F0
    from xrd_simulator.mesh import TetraMesh
    from xrd_simulator.phase import Phase
    from xrd_simulator.polycrystal import Polycrystal
    mesh = TetraMesh.generate_mesh_from_vertices(np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0]]), np.array([[0, 1, 2, 3]]))
    pc = Polycrystal(mesh, U, np.zeros((3, 3)), Phase([a, a, a, 90.0, 90.0, 90.0], "P1"))
    b = dict(direction=case["k"], wavelength=case["wavelength"], pol=0.3, half=[100.0] * 3)
    m = dict(axis=case["axis"], angle=dw, translation=[0, 0, 0], origin=[0, 0, 0])
    lo, hi = theta * 0.98, min(theta * 1.02, math.pi / 2)
    res = pc.diffract(world.make_beam(b), world.make_motion(m), min_bragg_angle=lo, max_bragg_angle=hi, verbose=False)
    p = world.peaks_array(res)
    G = {tuple(int(round(x)) for x in q): U @ np.asarray(q, float) * 2 * math.pi / a for q in arr(pc.phases[0].miller_indices)}
    got = [tuple(int(round(v)) for v in r[2:5]) for r in p]
    verify_events(None, G, k, axis, dw, got, p[:, 6], ctx)
    check(tuple(case["hkl"]) in G, "the constructed reflection is missing from the Bragg window")
    rho_ok = np.hypot(k @ (G0 - axis * (axis @ G0)), k @ np.cross(axis, G0)) > 1e-3 * np.linalg.norm(k) * gl
    if not case["at_pi"] and 1e-4 < case["t"] < 1 - 1e-4 and rho_ok:
        slope = abs(k @ np.cross(axis, G_lab)) / (np.linalg.norm(k) * gl)
        if slope > 1e-4:
            times = [r[6] for q, r in zip(got, p) if q == tuple(case["hkl"])]
            check(any(abs(t - case["t"]) < 1e-6 for t in times),
                  lambda: "constructed crossing at t=%r is not reported, got %s" % (case["t"], times))
            ctx.nontrivial()
            ctx.event("aimed at t")
    if case["at_pi"]:
        ctx.event("aimed at half a turn")
        ctx.nontrivial(len(p) > 0)


# ------------------------------------------------------------------ the solver itself, in bulk
@st.composite
def bulk_case(draw):
    return dict(seed=draw(gen.seeds), k=draw(gen.unit), axis=draw(gen.unit), angle=draw(gen.angle),
                n=draw(st.integers(1, 6)), m=draw(st.integers(1, 60)), glen=draw(gen.log(0.02, 2.0)),
                graze=draw(gen.rarely(2, gen.log(5e-4, 0.1), st.just(0.0))))


@component(P, "solver", bulk_case(), 4000, 60000,
           "a batch of grains and planes with at least one certain crossing")
def solver(case, ctx):
    find = priv("xrd_simulator.laue", "_find_solutions_to_tangens_half_angle_equation")
    if find is None:
        ctx.event("helper not present")
        return
    rng = np.random.default_rng(case["seed"])
    n, m = case["n"], case["m"]
    G = rng.normal(size=(n, 3, m)) * case["glen"]
    k, axis = np.array(case["k"]), np.array(case["axis"])
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    K2 = K @ K
    if case["graze"]:
        # lengths for which the two crossings are 2 graze apart
        d = G / np.linalg.norm(G, axis=1, keepdims=True)
        along = np.einsum("nim,i->nm", d, axis)
        c = np.einsum("nim,i->nm", d - along[:, None] * axis[None, :, None], k)
        rho = np.hypot(c, np.einsum("nim,i->nm", d, np.cross(k, axis)))
        g = 2 * (rng.choice([-1, 1], size=along.shape) * rho * math.cos(case["graze"]) - along * (axis @ k))
        ok = (g > 0.02) & (rho > 1e-2) & (rng.random(g.shape) < 0.7)
        G = np.where(ok[:, None], d * g[:, None], G)
        ctx.event("grazing")
    keep = G.copy()
    grains, planes, times, Gout = find(G, -k @ K2, k @ K, k @ (np.eye(3) + K2), case["angle"])
    close(G, keep, "input G vectors after the call", 0, 0)
    grains, planes, times, Gout = arr(grains), arr(planes), arr(times), arr(Gout)
    check(len(grains) == len(planes) == len(times) == len(Gout), "lengths of the reported columns differ")
    by = {(i, j): G[i, :, j] for i in range(n) for j in range(m)}
    got = [(int(i), int(j)) for i, j in zip(grains, planes)]
    c = verify_events(None, by, k, axis, case["angle"], got, times, ctx)
    for q, g in zip(got, Gout):
        close(g, by[q], "G of an event", 0, 1e-12)
    ctx.nontrivial(c > 0)


# ------------------------------------------------------------------ many elements, many planes
@component(P, "crowd", crowd.cases(), 120, 1800,
           "a sample of up to 1500 elements, or a crystal with thousands of planes; all events are compared")
def many(case, ctx):
    w = crowd.Crowd(case)
    p = world.peaks_array(w.diffract(w.polycrystal()))
    L = w.lattice()
    total = 0
    key = p[:, :5].astype(int)
    got_used = np.zeros(len(p), bool)
    for i in range(len(w.cells)):
        H, sure_h = w.planes(i)
        el = np.nonzero(w.pm == i)[0]
        if not len(H) or not len(el):
            continue
        G = np.einsum("nij,mj->nmi", L[el], H)
        idx, t, sure, skip = ref.crossings(w.k, w.axis, w.m["angle"], G.reshape(-1, 3))
        sure &= sure_h[idx % len(H)]
        code = lambda e, h: ((e * 128 + h[:, 0] + 64) * 128 + h[:, 1] + 64) * 128 + h[:, 2] + 64
        ours = code(el[idx // len(H)], H[idx % len(H)])
        mine = key[:, 1] == i
        theirs = code(key[mine, 0], key[mine, 2:5])
        tt = p[mine, 6]
        close(np.isin(key[mine, 0], el), np.ones(mine.sum(), bool), "phase of the events", 0, 0, sig="phase")
        skipped = set(code(el[np.nonzero(skip)[0] // len(H)], H[np.nonzero(skip)[0] % len(H)]).tolist())
        a = np.lexsort((t, ours))
        b = np.lexsort((tt, theirs))
        # every certain event has a partner
        ok = matched(ours[a], t[a], theirs[b], tt[b], 2e-7 / min(1, w.m["angle"]))
        bad = a[~ok & sure[a]]
        check(not len(bad), lambda: "of %d events of %d elements %d are missing, as element %d, hkl %s, t=%.9f" % (
            len(a), len(el), len(bad), el[idx[bad[0]] // len(H)], H[idx[bad[0]] % len(H)], t[bad[0]]), "missing")
        # every reported one is expected, maybe only just
        ok = matched(theirs[b], tt[b], ours[a], t[a], 1e-3)
        bad = [j for j in b[~ok] if int(theirs[j]) not in skipped]
        check(not bad, lambda: "%d events were invented, as %s" % (len(bad), p[mine][bad[0]][:7]), "invented")
        check(mine.sum() <= len(t) + len(skipped), "more events than crossings", "more events")
        total += int(sure.sum())
    ctx.nontrivial(total > 100)
    ctx.event("elements %s" % ("1-3" if w.n < 4 else "40-300" if w.n <= 300 else "more than 300"))


def matched(a, ta, b, tb, tol):
    """For events sorted by (key, time): has each of a one of b with the same key and about the same time?"""
    ok = np.zeros(len(a), bool)
    lo, hi = np.searchsorted(b, a, "left"), np.searchsorted(b, a, "right")
    for s in range(int((hi - lo).max(initial=0))):
        j = lo + s
        inside = j < hi
        ok[inside] |= np.abs(tb[j[inside]] - ta[inside]) <= tol
    return ok
