"""C03: structure factors equal the crystallographic sum over the unit cell."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, world
from vf.core import Reject, arr, check, close, component, priv
from vf.props.c02 import valid_cell

P = "C03"


def scale_of(s):
    """Upper bound of |F|: sum of the contributions."""
    R, t = ref.symops(s["sg"])
    return sum(len(ref.orbit(a["pos"], R, t)[1]) * a["occ"] * 100 for a in s["atoms"])


def tolerance(s, H):
    """Relative to scale_of: xfab tabulates translations with six decimals, which is felt on special positions."""
    R, t = ref.symops(s["sg"])
    exact = np.abs(t * 24 - np.round(t * 24)).max() < 1e-9
    special = any(len(ref.orbit(a["pos"], R, t)[1]) < len(R) for a in s["atoms"])
    return 1e-8 if exact or not special else 5e-6 * max(1, np.abs(H).max(initial=1))


def separated(s):
    """Images of one atom are either identical or clearly apart (otherwise the multiplicity is ambiguous)."""
    R, t = ref.symops(s["sg"])
    return all(ref.orbit(a["pos"], R, t)[2] for a in s["atoms"])


@st.composite
def sum_case(draw):
    return dict(structure=draw(gen.structure(max_atoms=5, lo=2.5, hi=9.0)), seed=draw(gen.seeds), n=draw(st.integers(1, 40)),
                top=draw(st.sampled_from([2, 4, 8])))


@component(P, "sum", sum_case(), 3000, 40000,
           "a structure with well separated atom images; real and imaginary parts for a list of hkls, in any order "
           "and with repeats, are compared with the sum over the unit cell")
def total(case, ctx):
    f = priv("xrd_simulator.structure_factors", "compute_structure_factors_batch")
    if f is None:
        ctx.event("helper not present")
        return
    s = case["structure"]
    if not valid_cell(s["cell"]):
        raise Reject("degenerate cell")
    if not separated(s):
        raise Reject("ambiguous multiplicity")
    rng = np.random.default_rng(case["seed"])
    H = rng.integers(-case["top"], case["top"] + 1, size=(case["n"], 3))
    H[np.all(H == 0, axis=1)] = [1, 0, 0]
    cif = world.write_cif(ctx.path("s.cif"), s)
    got = arr(f(H, list(s["cell"]), s["sg"], cif))
    F = ref.structure_factor(s, H)
    check(got.shape == (len(H), 2), "shape of the structure factors is %s" % (got.shape,))
    tol = tolerance(s, H) * scale_of(s)
    close(got[:, 0], F.real, "real part of the structure factor", rtol=1e-7, atol=tol)
    close(got[:, 1], F.imag, "imaginary part of the structure factor", rtol=1e-7, atol=tol)
    # Friedel mates and symmetry equivalents, from the library values alone
    if not s["dispersion"]:
        mate = arr(f(-H, list(s["cell"]), s["sg"], cif))
        close(mate, got * [1, -1], "Friedel mate", rtol=1e-7, atol=1e-8 * scale_of(s))
        ctx.event("Friedel")
    R, t = ref.symops(s["sg"])
    i = int(rng.integers(len(R)))
    HR = H @ R[i]
    eq = arr(f(HR, list(s["cell"]), s["sg"], cif))
    ph = np.exp(-2j * math.pi * (H @ t[i]))
    z = (got[:, 0] + 1j * got[:, 1]) * ph
    # the tabulated translations of xfab have six decimals
    close(eq, np.stack([z.real, z.imag], 1), "symmetry equivalent", rtol=1e-6, atol=2e-4 * np.abs(HR).max() / 8 * np.abs(got).max() + 2e-5 * scale_of(s))
    for a in s["atoms"]:
        ctx.event(a["adp"])
        if len(ref.orbit(a["pos"], R, t)[1]) < len(R):
            ctx.event("special position")
    ctx.nontrivial(np.abs(F).max() > 1e-3)


@st.composite
def pattern_case(draw):
    n = draw(st.integers(1, 2))
    s = draw(world.samples(max_elements=3, max_phases=1, strain=0.01))
    structures = [draw(gen.structure(max_atoms=3)) for _ in range(n)]
    s["cells"] = [dict(cell=q["cell"], sg=q["sg"]) for q in structures]
    s["map"] = draw(st.lists(st.integers(0, n - 1), min_size=s["n"], max_size=s["n"]))
    return dict(sample=s, structures=structures, beam=draw(world.beams()),
                motion=draw(world.motions(angle=gen.even(0.2, 3.0))), stl=draw(gen.even(0.15, 0.32)))


@component(P, "pattern", pattern_case(), 900, 12000,
           "a diffraction run with peaks; the intensity column of every peak is |F|^2 of its own hkl and phase, "
           "and Phase.structure_factors is aligned with Phase.miller_indices")
def pattern(case, ctx):
    s, b = case["sample"], case["beam"]
    for q in case["structures"]:
        if not valid_cell(q["cell"]):
            raise Reject("degenerate cell")
        if not separated(q):
            raise Reject("ambiguous multiplicity")
    cifs = [world.write_cif(ctx.path("s.cif"), q) for q in case["structures"]]
    pc = world.make_polycrystal(s, cifs)
    hi = math.asin(min(0.98, case["stl"] * b["wavelength"]))
    p = world.peaks_array(pc.diffract(world.make_beam(b), world.make_motion(case["motion"]), max_bragg_angle=hi, verbose=False))
    for i, q in enumerate(case["structures"]):
        H = arr(pc.phases[i].miller_indices).reshape(-1, 3)
        F = ref.structure_factor(q, H)
        got = arr(pc.phases[i].structure_factors)
        tol = tolerance(q, H) * scale_of(q)
        close(got, np.stack([F.real, F.imag], 1), "structure factors of a phase", rtol=1e-7, atol=tol)
        rows = p[p[:, 1] == i]
        close(rows[:, 5], np.abs(ref.structure_factor(q, rows[:, 2:5])) ** 2, "intensity column", rtol=1e-6, atol=tol * scale_of(q) * 4)
    check(np.all(np.isin(p[:, 1], np.arange(len(case["structures"])))), "unknown phase in the pattern")
    close(p[:, 1], np.array(s["map"])[p[:, 0].astype(int)], "phase of a peak", 0, 0)
    ctx.nontrivial(len(p) > 0)
    if len(set(p[:, 1])) > 1:
        ctx.event("two phases diffract")


@component(P, "no_cif", pattern_case(), 200, 2000,
           "a diffraction run without CIF file that holds peaks: the intensity column is one")
def no_cif(case, ctx):
    s, b = case["sample"], case["beam"]
    if not all(valid_cell(q["cell"]) for q in case["structures"]):
        raise Reject("degenerate cell")
    pc = world.make_polycrystal(s)
    hi = math.asin(min(0.98, case["stl"] * b["wavelength"]))
    p = world.peaks_array(pc.diffract(world.make_beam(b), world.make_motion(case["motion"]), max_bragg_angle=hi, verbose=False))
    close(p[:, 5], np.ones(len(p)), "intensity column without structure", 0, 0)
    check(all(ph.structure_factors is None for ph in pc.phases), "structure factors without a structure")
    ctx.nontrivial(len(p) > 0)
