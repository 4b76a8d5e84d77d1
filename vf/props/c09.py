"""C09: diffraction is the union over elements and time, and follows frame changes."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import crowd, gen, ref, world
from vf.core import Reject, arr, check, close, component
from vf.props.c02 import valid_cell

P = "C09"


@st.composite
def base_case(draw, **kw):
    kw.setdefault("max_elements", 6)
    s = draw(world.samples(max_phases=3, strain=0.02, **kw))
    m = draw(world.motions(angle=gen.even(0.3, 3.1), shift=1.0, origin=1.0))
    b = draw(world.beams(half=(1e4, 1e4, 1e4)))
    return dict(sample=s, motion=m, beam=b, stl=draw(gen.even(0.15, 0.33)), seed=draw(gen.seeds), f=draw(gen.even(0.05, 0.95)),
                R=draw(gen.rotvec), cut=draw(st.booleans()))


class World:
    def __init__(self, case):
        s = case["sample"]
        if not all(valid_cell(c["cell"]) for c in s["cells"]):
            raise Reject("degenerate cell")
        self.s, self.b = s, case["beam"]
        self.coord, self.enod, self.U, self.eps, self.pm = world.build_sample(s)
        self.m = dict(case["motion"], translation=[x * s["scale"] * 0.3 for x in case["motion"]["translation"]],
                      origin=[x * s["scale"] for x in case["motion"]["origin"]])
        self.k, self.axis = world.k_of(self.b), np.asarray(self.m["axis"])
        self.hi = math.asin(min(0.98, case["stl"] * self.b["wavelength"]))
        # optionally a beam that cuts the sample, so that illumination takes part
        rows = world.frame_of(self.b["direction"])
        half = [1e4, s["scale"] * 2, s["scale"] * 2] if case["cut"] else [1e4] * 3
        self.V = world.box(half, rows)

    def beam(self, R=np.eye(3)):
        from xrd_simulator.beam import Beam
        return Beam(self.V @ R.T, R @ np.asarray(self.b["direction"]), self.b["wavelength"], R @ world.pol_of(self.b))

    def polycrystal(self, elements=None, phases=None, pm=None, R=np.eye(3), **kw):
        from xrd_simulator.mesh import TetraMesh
        from xrd_simulator.phase import Phase
        from xrd_simulator.polycrystal import Polycrystal
        elements = np.arange(len(self.enod)) if elements is None else np.asarray(elements)
        phases = self.s["cells"] if phases is None else phases
        pm = self.pm if pm is None else pm
        mesh = TetraMesh.generate_mesh_from_vertices(self.coord @ R.T, self.enod[elements])
        return Polycrystal(mesh, R @ self.U[elements], R @ self.eps[elements] @ R.T,
                           [c if isinstance(c, Phase) else Phase(list(c["cell"]), c["sg"]) for c in phases], np.asarray(pm)[elements])

    def diffract(self, pc, m=None, R=np.eye(3)):
        return world.peaks_array(pc.diffract(self.beam(R), world.make_motion(m or self.m), max_bragg_angle=self.hi, verbose=False))

    def stable(self, p, edges=(0.0, 1.0)):
        ok = world.stable(p, self.k, self.axis, self.m["angle"], edges)
        A, b = ref.halfspaces(self.V)
        if len(p):
            margin = np.min(b[None] - p[:, 16:19] @ A.T, axis=1)
            ok &= np.abs(margin) > 1e-5 * (1 + np.abs(self.V).max())
        return ok

    def compare(self, a, b, what, tol_t=1e-6, columns=True, edges=(0.0, 1.0)):
        pairs, msg = world.match_patterns(a, b, self.stable(a, edges), self.stable(b, edges), tol_t / min(1, self.m["angle"]))
        check(msg is None, lambda: "%s: %s" % (what, msg), what)
        sa = self.stable(a, edges)
        for i, j in pairs:
            if not sa[i]:
                continue
            x, y = a[i], b[j]
            close(y[5], x[5], what + ": intensity", 1e-9, 0)
            if columns:
                close(y[7:10], x[7:10], what + ": G0", 1e-7, 1e-7)
            close(y[10:16], x[10:16], what + ": G and K_out", 1e-6, 1e-6)
            close(y[16:19], x[16:19], what + ": source", 1e-6, 1e-6 * (1 + self.s["scale"] * 5))
            close(y[20:24], x[20:24], what + ": factors", 1e-5, 1e-8)
            if np.isfinite(x[19]) and np.isfinite(y[19]):
                close(y[19], x[19], what + ": Lorentz factor", 1e-4, 0)
            else:
                _, margin = ref.lorentz(self.k, x[13:16], self.axis)
                check(np.isfinite(x[19]) == np.isfinite(y[19]) or margin < 1e-3, what + ": finite Lorentz factor")
        return len(pairs)


@component(P, "union", base_case(), 700, 10000,
           "a polycrystal of several elements with peaks: permuted, split into two polycrystals, phases reordered or duplicated")
def union(case, ctx):
    w = World(case)
    n = len(w.enod)
    rng = np.random.default_rng(case["seed"])
    whole = w.diffract(w.polycrystal())
    # permuted elements
    perm = rng.permutation(n)
    p = w.diffract(w.polycrystal(perm))
    p[:, 0] = perm[p[:, 0].astype(int)]
    w.compare(whole, p, "permuted elements")
    # two parts
    if n > 1:
        c = int(rng.integers(1, n))
        parts = []
        for sel in (perm[:c], perm[c:]):
            q = w.diffract(w.polycrystal(sel))
            q[:, 0] = sel[q[:, 0].astype(int)]
            parts.append(q)
        w.compare(whole, np.concatenate(parts), "parts of a polycrystal")
        ctx.event("split")
    # reordered and duplicated phases
    m = len(w.s["cells"])
    order = rng.permutation(m)
    inv = np.argsort(order)
    q = w.diffract(w.polycrystal(phases=[w.s["cells"][i] for i in order], pm=inv[w.pm]))
    q[:, 1] = order[q[:, 1].astype(int)]
    w.compare(whole, q, "reordered phases")
    dup = np.where(rng.uniform(size=n) < 0.5, w.pm, w.pm + m)
    from xrd_simulator.phase import Phase
    twice = [Phase(list(c["cell"]), c["sg"]) for c in w.s["cells"]] if case["seed"] % 3 else w.s["cells"]  # the same objects, or others
    q = w.diffract(w.polycrystal(phases=twice + twice, pm=dup))
    close(q[:, 1], dup[q[:, 0].astype(int)], "phase of a duplicated list", 0, 0)
    q[:, 1] %= m
    w.compare(whole, q, "duplicated phases")
    # an unused phase changes nothing
    q = w.diffract(w.polycrystal(phases=w.s["cells"] + [dict(cell=[4.0, 4.0, 4.0, 90.0, 90.0, 90.0], sg="P1")]))
    w.compare(whole, q, "unused phase")
    ctx.nontrivial(len(whole) > 0)


@component(P, "split_motion", base_case(max_elements=4), 1000, 14000,
           "a motion with rotation and translation about a shifted origin done in two parts, the sample transformed in between")
def split_motion(case, ctx):
    w = World(case)
    f, m = case["f"], w.m
    whole = w.diffract(w.polycrystal())
    first = dict(m, angle=m["angle"] * f, translation=[x * f for x in m["translation"]])
    second = dict(m, angle=m["angle"] * (1 - f), translation=[x * (1 - f) for x in m["translation"]],
                  origin=[o + x * f for o, x in zip(m["origin"], m["translation"])])
    pc = w.polycrystal()
    a = w.diffract(pc, first)
    if case["seed"] % 2:
        pc.transform(world.make_motion(m), f)
    else:
        pc.transform(world.make_motion(first), 1.0)
    b = w.diffract(pc, second)
    a[:, 6] *= f
    b[:, 6] = f + (1 - f) * b[:, 6]
    w.compare(whole, np.concatenate([a, b]), "motion in two parts", columns=False, edges=(0.0, 1.0, f))
    ctx.nontrivial(len(a) > 0 and len(b) > 0)


@component(P, "frame", base_case(max_elements=4), 800, 12000,
           "the whole experiment rotated into another frame")
def frame(case, ctx):
    w = World(case)
    R = ref.rotvec_matrix(case["R"])
    whole = w.diffract(w.polycrystal())
    m = dict(w.m, **{q: list(R @ np.asarray(w.m[q])) for q in ("axis", "translation", "origin")})
    p = w.diffract(w.polycrystal(R=R), m, R)
    for c in (7, 10, 13, 16):
        p[:, c:c + 3] = p[:, c:c + 3] @ R
    w.compare(whole, p, "rotated experiment")
    ctx.nontrivial(len(whole) > 0 and np.abs(R - np.eye(3)).max() > 1e-3)


SETTINGS = [np.array(x) for x in ([[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[0, -1, 0], [-1, 0, 0], [0, 0, -1]],
                                  [[1, 0, 0], [1, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 1, 1]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]])]


@component(P, "setting", base_case(max_elements=3), 800, 12000,
           "an unstrained primitive crystal described by another cell of the same lattice (axes permuted or combined), with peaks")
def setting(case, ctx):
    case = dict(case, sample=dict(case["sample"], cells=[dict(c, sg="P1") for c in case["sample"]["cells"]], strain_scale=0.0))
    w = World(case)
    T = SETTINGS[case["seed"] % len(SETTINGS)]
    if round(np.linalg.det(T)) != 1:
        T = -T
    whole = w.diffract(w.polycrystal())
    # new axes a'_i = sum_j T_ij a_j, so h' = T h
    cells, U = [], w.U.copy()
    for i, c in enumerate(w.s["cells"]):
        g = T @ ref.metric(c["cell"]) @ T.T
        L = np.sqrt(np.diag(g))
        ang = [math.degrees(math.acos(g[a, b] / L[a] / L[b])) for a, b in ((1, 2), (0, 2), (0, 1))]
        new = [float(x) for x in L] + ang
        if not valid_cell(new) or min(ang) < 25 or max(ang) > 155:
            raise Reject("oblique setting")
        cells.append(dict(cell=new, sg="P1"))
        Q = ref.b_matrix(c["cell"]) @ np.linalg.inv(T) @ np.linalg.inv(ref.b_matrix(new))
        for e in np.nonzero(w.pm == i)[0]:
            U[e] = w.U[e] @ Q
    w.U = U
    p = w.diffract(w.polycrystal(phases=cells))
    p[:, 2:5] = np.round(p[:, 2:5] @ np.linalg.inv(T).T)
    # planes at the edge of the window may be cut by rounding
    top = math.sin(w.hi) / w.b["wavelength"]

    def inner(q):
        return q[np.linalg.norm(q[:, 7:10], axis=1) / (4 * math.pi) < top * (1 - 1e-7)]

    w.compare(inner(whole), inner(p), "other cell setting")
    ctx.nontrivial(len(whole) > 0)


@component(P, "crowd", crowd.cases(), 80, 1200,
           "a sample of up to 1500 elements: its pattern is that of its parts, taken together")
def many(case, ctx):
    w = crowd.Crowd(case)
    a = world.peaks_array(w.diffract(w.polycrystal()))
    rng = np.random.default_rng(case["seed"])
    perm = rng.permutation(w.n)
    parts = []
    for sel in np.array_split(perm, max(2, w.n // 50)):
        if len(sel):
            q = world.peaks_array(w.diffract(w.polycrystal(sel)))
            q[:, 0] = sel[q[:, 0].astype(int)]
            parts.append(q)
    b = np.concatenate(parts)
    sort = lambda p: p[np.lexsort((np.round(p[:, 6], 6), p[:, 4], p[:, 3], p[:, 2], p[:, 0]))]
    check(abs(len(a) - len(b)) <= 2, "%d peaks, but its parts have %d" % (len(a), len(b)), "number of peaks")
    if len(a) != len(b):
        ctx.event("a peak at the limit of the resolution")
        return
    a, b = sort(a), sort(b)
    ok = world.stable(a, w.k, w.axis, w.m["angle"]) & world.stable(b, w.k, w.axis, w.m["angle"])
    ok &= np.isfinite(a[:, 19]) & np.isfinite(b[:, 19])
    close(b[ok, :19], a[ok, :19], "peaks of the parts", 1e-6, 1e-6 * (1 + w.scale), sig="peaks of the parts")
    close(b[ok, 20:24], a[ok, 20:24], "factors of the parts", 1e-5, 1e-8, sig="factors of the parts")
    ctx.nontrivial(len(a) > 100 and w.n > 3)
