"""C02: the set of diffracting planes is complete and within the Bragg window."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, world
from vf.core import arr, check, close, component

P = "C02"
EDGE = 1e-9


def tiny_polycrystal(s, cif=None, rotvec=(0.3, 0.2, -0.5)):
    from xrd_simulator.mesh import TetraMesh
    from xrd_simulator.phase import Phase
    from xrd_simulator.polycrystal import Polycrystal
    mesh = TetraMesh.generate_mesh_from_vertices(
        np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0]]), np.array([[0, 1, 2, 3]]))
    return Polycrystal(mesh, ref.rotvec_matrix(rotvec), np.zeros((3, 3)), Phase(list(s["cell"]), s["sg"], cif))


def valid_cell(cell):
    try:
        np.linalg.cholesky(ref.metric(cell))
    except np.linalg.LinAlgError:
        return False
    g = ref.metric(cell)
    return np.linalg.det(g) > 0.02 * g[0, 0] * g[1, 1] * g[2, 2]


def run(s, wavelength, lo, hi, motion, cif=None, default_max=False):
    pc = tiny_polycrystal(s, cif)
    b = dict(direction=[1.0, 0.0, 0.0], wavelength=wavelength, pol=0.4, half=[50.0] * 3)
    kw = dict(min_bragg_angle=lo, verbose=False)
    if not default_max:
        kw["max_bragg_angle"] = hi
    res = pc.diffract(world.make_beam(b), world.make_motion(motion), **kw)
    return pc, world.peaks_array(res)


def planes_of(s, lo, hi):
    """Reference: certain and possible (within EDGE of the window) planes, stl window lo < stl <= hi."""
    R, t = ref.symops(s["sg"])
    H, stl = ref.hkl_box(s["cell"], hi * (1 + EDGE) + 1e-15)
    keep = stl > lo * (1 - EDGE)
    H, stl = H[keep], stl[keep]
    if len(H):
        ok = ~ref.absent(H, R, t)
        H, stl = H[ok], stl[ok]
    unsure = (np.abs(stl - lo) <= EDGE * lo) | (np.abs(stl - hi) <= EDGE * hi)
    return H, stl, unsure


@st.composite
def planes_case(draw):
    s = draw(gen.cell(lo=2.4, hi=9.0))
    wavelength = draw(gen.num(0.1, 3.0))
    hi = draw(st.one_of(gen.even(0.05, 0.42), gen.even(0.12, 0.42), st.just(None)))
    lo = draw(st.one_of(st.just(0.0), gen.even(0.0, 0.999), gen.even(0.9, 0.9999)))
    return dict(cell=s["cell"], sg=s["sg"], wavelength=wavelength, hi=hi, lo=lo,
                motion=draw(world.motions(angle=gen.even(0.001, 0.1))))


@component(P, "planes", planes_case(), 4000, 60000,
           "a Bragg window that holds at least one allowed plane; the whole set of planes is compared "
           "with a brute force enumeration and the symmetry derived absences",
           examples=[dict(cell=[3.25, 3.25, 5.2, 90.0, 90.0, 120.0], sg="P63mc", wavelength=0.5, hi=0.3, lo=0.0,
                          motion=dict(axis=[0.0, 0.0, 1.0], angle=0.01, translation=[0.0] * 3, origin=[0.0] * 3)),
                     dict(cell=[5.0, 4.0, 6.0, 90.0, 68.0, 90.0], sg="C2", wavelength=0.5, hi=0.3, lo=0.0,
                          motion=dict(axis=[0.0, 0.0, 1.0], angle=0.01, translation=[0.0] * 3, origin=[0.0] * 3)),
                     dict(cell=[11.46, 11.46, 11.46, 90.0, 90.0, 90.0], sg="Ia-3d", wavelength=0.5, hi=0.3, lo=0.0,
                          motion=dict(axis=[0.0, 0.0, 1.0], angle=0.01, translation=[0.0] * 3, origin=[0.0] * 3))])
def planes(case, ctx):
    s, lam = case, case["wavelength"]
    if not valid_cell(s["cell"]):
        from vf.core import Reject
        raise Reject("degenerate cell")
    if case["hi"] is None and 1 / lam > 0.42:
        hi_angle, default = math.asin(0.3 * lam), False
    elif case["hi"] is None:
        hi_angle, default = math.pi / 2, True
    else:
        hi_angle, default = math.asin(min(1.0, case["hi"] * lam)), False
    lo_angle = case["lo"] * hi_angle
    pc, p = run(s, lam, lo_angle, hi_angle, case["motion"], default_max=default)
    lo, hi = math.sin(lo_angle) / lam, math.sin(hi_angle) / lam
    H, stl, unsure = planes_of(s, lo, hi)
    got = arr(pc.phases[0].miller_indices).reshape(-1, 3)
    check(np.all(got == np.round(got)), "Miller indices are not integers")
    gotset = {tuple(int(x) for x in h) for h in got}
    check(len(gotset) == len(got), "a plane is listed twice")
    must = {tuple(int(x) for x in h) for h in H[~unsure]}
    may = {tuple(int(x) for x in h) for h in H}
    missing, extra = must - gotset, gotset - may
    check(not missing, lambda: "allowed planes are missing: %s" % sorted(missing)[:4])
    check(not extra, lambda: "planes outside of the window or systematically absent: %s" % sorted(extra)[:4])
    for r in p:
        check(tuple(int(round(x)) for x in r[2:5]) in gotset, "a peak of a plane that is not listed")
    ctx.nontrivial(len(must) > 0)
    ctx.event("empty window" if not may else "planes found")
    if lo > 0:
        ctx.event("lower limit")


@st.composite
def filter_case(draw):
    return dict(structure=draw(gen.structure(max_atoms=2)), stl=draw(gen.even(0.15, 0.32)),
                wavelength=draw(gen.even(0.2, 0.9)), motion=draw(world.motions(angle=gen.even(0.3, 3.0))))


@component(P, "vanishing", filter_case(), 800, 12000,
           "the pattern of a crystal with atoms equals the pattern of the empty lattice without the planes "
           "whose reference structure factor vanishes; both hold peaks")
def vanishing(case, ctx):
    s = case["structure"]
    if not valid_cell(s["cell"]):
        from vf.core import Reject
        raise Reject("degenerate cell")
    lam = case["wavelength"]
    hi = math.asin(case["stl"] * lam)
    cif = world.write_cif(ctx.path("s.cif"), s)
    _, bare = run(s, lam, 0.0, hi, case["motion"])
    _, full = run(s, lam, 0.0, hi, case["motion"], cif)
    F2 = np.abs(ref.structure_factor(s, bare[:, 2:5])) ** 2
    sure = F2 > 1.01e-6
    never = F2 < 0.99e-6

    def keys(q):
        return sorted(tuple(int(round(x)) for x in r[2:5]) + (round(float(r[6]), 9),) for r in q)

    k = keys(full)
    missing = set(keys(bare[sure])) - set(k)
    check(not missing, lambda: "a reflection with a structure factor is missing: %s" % sorted(missing)[:3])
    extra = set(k) - set(keys(bare[~never]))
    check(not extra, lambda: "a reflection without structure factor diffracts: %s" % sorted(extra)[:3])
    ctx.nontrivial(len(full) > 0)
    if never.any():
        ctx.event("vanishing structure factors")


@st.composite
def nested_case(draw):
    s = draw(gen.cell(lo=2.5, hi=7.0))
    cut = [draw(st.one_of(st.just(0.0), gen.even(0.0, 0.2)))]
    for _ in range(3):
        cut.append(cut[-1] + draw(gen.even(0.005, 0.06)))
    return dict(cell=s["cell"], sg=s["sg"], cuts=cut, wavelength=draw(gen.even(0.2, 0.9)),
                motion=draw(world.motions(angle=gen.even(0.2, 3.0))))


@component(P, "nested", nested_case(), 800, 12000,
           "nested windows (b, c) inside (a, d): the peaks of the narrow one are among those of the wide one, "
           "and adjacent windows add up; the wide one holds peaks")
def nested(case, ctx):
    s, lam = case, case["wavelength"]
    from vf.core import Reject
    if not valid_cell(s["cell"]):
        raise Reject("degenerate cell")
    a, b, c, d = [math.asin(x * lam) for x in case["cuts"]]
    if min(b - a, c - b, d - c) < 1e-6:
        raise Reject("empty windows")

    def peaks(lo, hi):
        _, p = run(s, lam, lo, hi, case["motion"])
        for r in p:
            th = r[22] / 2
            check(lo * (1 - 1e-7) - 1e-7 <= th <= hi * (1 + 1e-7) + 1e-7,
                  lambda: "Bragg angle %r outside of the window (%r, %r)" % (th, lo, hi))
        k = [tuple(int(round(x)) for x in r[2:5]) + (round(float(r[6]), 9),) for r in p]
        return k

    wide, narrow, left, mid = peaks(a, d), peaks(b, c), peaks(a, b), peaks(c, d)
    check(set(narrow) <= set(wide), "widening the window removed a peak")
    check(sorted(left + narrow + mid) == sorted(wide), "adjacent windows do not add up")
    ctx.nontrivial(len(wide) > 0)
