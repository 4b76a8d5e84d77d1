"""C04: strain, orientation and unit cell give the physically strained lattice."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, world
from vf.core import Reject, arr, check, close, component, priv
from vf.props.c02 import valid_cell

P = "C04"


@st.composite
def lattice_case(draw):
    s = draw(world.samples(max_elements=5, max_phases=3, strain=0.01))
    s["strain_scale"] = draw(st.one_of(gen.log(1e-6, 1e-2), gen.log(1e-3, 0.12), gen.log(1e-4, 0.12), gen.log(0.1, 0.3), st.just(0.0)))
    return dict(sample=s, wavelength=draw(gen.even(0.15, 0.6)), stl=draw(gen.even(0.15, 0.3)),
                motion=draw(world.motions(angle=gen.even(0.5, 3.1))))


@component(P, "lattice", lattice_case(), 1500, 25000,
           "a strained polycrystal with peaks; the unrotated G vector of every peak equals U B h of the deformed cell "
           "and its plane spacing changed by the normal strain")
def lattice(case, ctx):
    s = case["sample"]
    if not all(valid_cell(c["cell"]) for c in s["cells"]):
        raise Reject("degenerate cell")
    _, _, U, eps, pm = world.build_sample(s)
    if np.linalg.eigvalsh(eps).min() < -0.45:
        raise Reject("almost inverted")
    pc = world.make_polycrystal(s)
    b = dict(direction=[1.0, 0.0, 0.0], wavelength=case["wavelength"], pol=0.4, half=[1e4] * 3)
    p = world.peaks_array(pc.diffract(world.make_beam(b), world.make_motion(case["motion"]),
                                      max_bragg_angle=math.asin(case["stl"] * case["wavelength"]), verbose=False))
    B = np.array([ref.strained_b(s["cells"][pm[e]]["cell"], eps[e], U[e]) for e in range(s["n"])])
    eB = getattr(pc, "_eB", None)
    if eB is not None:
        close(eB, B, "reciprocal basis of the elements", rtol=1e-9, atol=1e-9)
    for r in p:
        e = int(r[0])
        h = r[2:5]
        close(r[7:10], U[e] @ B[e] @ h, "G vector of a peak", rtol=1e-9, atol=1e-9)
        # the plane spacing follows the strain along the plane normal (first order)
        g0 = U[e] @ ref.b_matrix(s["cells"][pm[e]]["cell"]) @ h
        n = g0 / np.linalg.norm(g0)
        change = np.linalg.norm(g0) / np.linalg.norm(r[7:10]) - 1
        size = np.abs(eps[e]).max()
        check(abs(change - n @ eps[e] @ n) <= 40 * size**2 + 1e-9,
              lambda: "plane spacing changed by %r, normal strain is %r" % (change, n @ eps[e] @ n))
    ctx.nontrivial(len(p) > 0 and np.abs(eps).max() > 0)
    if np.abs(eps).max() > 0.02:
        ctx.event("large strain")
    if np.abs(eps).max() == 0:
        ctx.event("no strain")


@st.composite
def convert_case(draw):
    return dict(cell=draw(gen.cell()), n=draw(gen.rarely(25, st.sampled_from([40, 400]), st.integers(1, 5))), seed=draw(gen.seeds),
                scale=draw(st.one_of(st.just(0.0), gen.log(1e-8, 1e-2), gen.log(1e-2, 0.16))),
                large=draw(gen.rarely(4, st.just(True), st.just(False))), single=draw(st.booleans()))


@component(P, "convert", convert_case(), 2500, 40000,
           "a batch of non-zero strains converted to lattices and back")
def convert(case, ctx):
    to_b, back, lab = (priv("xrd_simulator.utils", n) for n in ("_epsilon_to_b", "_b_to_epsilon", "_lab_strain_to_B_matrix"))
    s = case["cell"]
    if not valid_cell(s["cell"]):
        raise Reject("degenerate cell")
    rng = np.random.default_rng(case["seed"])
    eps = rng.uniform(-1, 1, size=(case["n"], 3, 3)) * case["scale"]
    eps = (eps + eps.transpose(0, 2, 1)) / 2
    if case["large"]:  # any deformation that leaves the lattice right handed
        for i in range(len(eps)):
            q = ref.rotvec_matrix(rng.normal(size=3) * 2)
            eps[i] = q @ np.diag(rng.uniform(-0.42, [0.0, 0.3, 1.0])) @ q.T
            eps[i] = (eps[i] + eps[i].T) / 2
        ctx.event("large strain")
    U = np.array([ref.rotvec_matrix(v) for v in rng.normal(size=(case["n"], 3))])
    B0 = ref.b_matrix(s["cell"])
    flat = [[0, 0], [0, 1], [0, 2], [1, 1], [1, 2], [2, 2]]
    if to_b is not None and back is not None:
        B = arr(to_b(eps[0] if case["single"] else eps, B0)).reshape(-1, 3, 3)
        for e, b in zip(eps, B):
            check(np.allclose(np.tril(b, -1), 0, atol=1e-12) and np.all(np.diag(b) > 0), "B is not upper triangular with a positive diagonal")
            F = B0 @ np.linalg.inv(b)
            close(0.5 * (F.T @ F - np.eye(3)), e, "strain of the deformation gradient", rtol=1e-8, atol=1e-10)
            v = np.array([float(x) for x in back(b, B0)])
            close(v, [e[i, j] for i, j in flat], "strain converted back", rtol=1e-8, atol=1e-10)
    if lab is not None:
        if case["single"]:
            got = arr(lab(eps[0], U[0], B0)).reshape(-1, 3, 3)
        else:
            got = arr(lab(eps, U, B0)).reshape(-1, 3, 3)
        close(got, np.array([ref.strained_b(s["cell"], e, u) for e, u in zip(eps, U)])[:len(got)], "B of a lab strain", rtol=1e-9, atol=1e-9)
        check(len(got) == (1 if case["single"] else case["n"]), "number of lattices")
    as_t, as_v = priv("xrd_simulator.utils", "_strain_as_tensor"), priv("xrd_simulator.utils", "_strain_as_vector")
    if as_t is not None and as_v is not None:
        v = [float(eps[0][i, j]) for i, j in flat]
        close(as_t(v), eps[0], "strain vector to tensor", 0, 0)
        close(np.array(as_v(eps[0]), float), v, "strain tensor to vector", 0, 0)
    ctx.nontrivial(case["scale"] > 0 or case["large"])


@st.composite
def invert_case(draw):
    s = draw(world.samples(max_elements=4, max_phases=2, strain=0.01))
    return dict(sample=s, bad=draw(st.integers(0, 3)), axis=draw(gen.unit), by=draw(gen.log(1e-6, 3.0)), sign=draw(st.booleans()))


@component(P, "inverted", invert_case(), 800, 8000,
           "one element with a strain of slightly more or less than -1/2 along an axis: the lattice is inverted "
           "(rejected with ValueError) or barely not (accepted)")
def inverted(case, ctx):
    s = case["sample"]
    if not all(valid_cell(c["cell"]) for c in s["cells"]):
        raise Reject("degenerate cell")
    from xrd_simulator.mesh import TetraMesh
    from xrd_simulator.polycrystal import Polycrystal
    coord, enod, U, eps, pm = world.build_sample(s)
    a = np.array(case["axis"])
    e = case["bad"] % s["n"]
    size = -0.5 - case["by"] if case["sign"] else -0.5 + min(0.4, case["by"])
    eps[e] = size * np.outer(a, a)
    mesh = TetraMesh.generate_mesh_from_vertices(coord, enod)
    try:
        pc = Polycrystal(mesh, U, eps, world.make_phases(s), pm)
    except ValueError:
        check(case["sign"], "a strain that does not invert the lattice is rejected")
        ctx.event("rejected")
    else:
        check(not case["sign"], "a strain that inverts the lattice is accepted")
        close(pc.strain_lab, eps, "strain of an accepted polycrystal", 0, 0)
    ctx.nontrivial()
