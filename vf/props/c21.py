"""C21: templates build the experiment and the samples that their parameters describe."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy.integrate import quad

from vf import gen, ref, snap, world
from vf.core import Reject, arr, check, close, component, priv
from xrd_simulator import templates

P = "C21"


@st.composite
def s3dxrd_case(draw):
    num = lambda lo, hi: draw(st.one_of(gen.log(lo, hi), st.integers(int(lo) + 1, int(lo) + 9)))
    nz, ny = draw(st.integers(2, 120)), draw(st.integers(2, 120))
    axis = draw(gen.unit)
    return dict(detector_distance=num(1e2, 1e6), number_of_detector_pixels_z=nz, number_of_detector_pixels_y=ny,
                detector_center_pixel_z=draw(st.one_of(st.integers(0, nz - 1), gen.even(-0.5, 1.5).map(lambda f: f * nz))),
                detector_center_pixel_y=draw(st.one_of(st.integers(0, ny - 1), gen.even(-0.5, 1.5).map(lambda f: f * ny))),
                pixel_side_length_z=num(0.5, 200.0), pixel_side_length_y=num(0.5, 200.0), wavelength=draw(gen.even(0.1, 1.5)),
                beam_side_length_z=num(0.5, 500.0), beam_side_length_y=num(0.5, 500.0), rotation_step=draw(gen.angle), rotation_axis=axis,
                drop=draw(st.integers(0, 11)), extra=draw(st.booleans()), form=draw(st.sampled_from(["array", "list", "tuple"])), seed=draw(gen.seeds))


@component(P, "s3dxrd", s3dxrd_case(), 2500, 30000,
           "parameters with unequal values along y and z; geometry of the three objects and the pixel that the direct beam hits")
def s3dxrd(case, ctx):
    p = {k: case[k] for k in templates.PARAMETER_KEYS} if hasattr(templates, "PARAMETER_KEYS") else {k: v for k, v in case.items() if k not in ("drop", "extra", "form", "seed")}
    axis = np.array(p["rotation_axis"], float)
    p["rotation_axis"] = axis if case["form"] == "array" else axis.tolist() if case["form"] == "list" else tuple(axis.tolist())
    if case["extra"]:
        p["comment"] = "unused"
    before = snap.take(p)
    beam, det, motion = templates.s3dxrd(p)
    m = snap.diff(before, snap.take(p))
    check(m is None, "the parameters were changed: %s" % m, "parameters")
    D, nz, ny, pz, py = (p[k] for k in ("detector_distance", "number_of_detector_pixels_z", "number_of_detector_pixels_y", "pixel_side_length_z", "pixel_side_length_y"))
    cz, cy = p["detector_center_pixel_z"], p["detector_center_pixel_y"]
    # beam
    k = arr(beam.wave_vector)
    close(k, [2 * math.pi / p["wavelength"], 0, 0], "wave vector", 1e-12, 1e-12, sig="wave vector")
    close(beam.wavelength, p["wavelength"], "wavelength", 1e-14, sig="wavelength")
    V = arr(beam.vertices)
    close(np.ptp(V[:, 1]), p["beam_side_length_y"], "beam side along y", 1e-12, sig="beam side y")
    close(np.ptp(V[:, 2]), p["beam_side_length_z"], "beam side along z", 1e-12, sig="beam side z")
    close(V[:, 1:].mean(axis=0), [0, 0], "beam centre", 0, 1e-9 * np.abs(V).max(), sig="beam centre")
    check(V[:, 0].min() <= -D * (1 - 1e-12) and V[:, 0].max() >= D * (1 - 1e-12), "the beam does not reach from the source side to the detector", "beam length")
    check(len(V) == 8, "the beam is not a box", "beam box")
    inside = priv(beam, "_contains")
    if inside is not None:
        rng = np.random.default_rng(case["seed"])
        x = rng.uniform(-1.5, 1.5, (40, 3)) * [D / 2, p["beam_side_length_y"] / 2, p["beam_side_length_z"] / 2]
        depth = np.min([p["beam_side_length_y"] / 2 - np.abs(x[:, 1]), p["beam_side_length_z"] / 2 - np.abs(x[:, 2])], axis=0)
        sure = np.abs(depth) > 1e-5 * (1 + D)
        check(np.array_equal(arr(inside(torch.tensor(x.T)))[sure] > 0, (depth > 0)[sure]), "illuminated points", "illuminated")
    # detector
    c0, c1, c2 = (arr(getattr(det, "det_corner_%d" % i)) for i in range(3))
    close([c[0] for c in (c0, c1, c2)], [D] * 3, "detector distance", 1e-12, sig="distance")
    close(c1 - c0, [0, ny * py, 0], "detector y edge", 1e-9, 1e-9 * D * 1e-3, sig="y edge")
    close(c2 - c0, [0, 0, nz * pz], "detector z edge", 1e-9, 1e-9 * D * 1e-3, sig="z edge")
    check(tuple(arr(det.pixel_coordinates).shape) == (nz, ny, 3), "pixel grid of shape %s for %d x %d pixels" % (arr(det.pixel_coordinates).shape, nz, ny), "grid")
    close([float(det.pixel_size_z), float(det.pixel_size_y)], [pz, py], "pixel sizes", 1e-9, sig="pixel sizes")
    _, z, y = ref.ray_hit((c0, c1, c2), np.zeros(3), k)
    close([z / pz, y / py], [cz, cy], "pixel coordinates of the direct beam", 1e-9, 1e-9 * max(nz, ny), sig="centre pixel")
    if 0.5 < cz < nz - 0.5 and 0.5 < cy < ny - 0.5:
        # as the detector itself sees it: a peak along the beam lands on the centre pixel
        from vf import rend
        peaks = np.zeros((1, 25))
        peaks[0, [5, 19, 20, 21]] = 1.0
        peaks[0, 13:16] = k
        pd = dict(peaks=torch.tensor(peaks), columns=list(world.COLUMNS), incident_vector=beam.wave_vector, wavelength=p["wavelength"], rotation_axis=motion.rotation_axis,
                  mesh_lab=None, beam=beam, rigid_body_motion=motion, verbose=False)
        F = arr(det.render(pd, frames_to_render=1, method="micro", verbose=False)[0])[0]
        check(F.sum() > 0, "the direct beam is not on the detector", "direct beam")
        if 6 < cz < nz - 7 and 6 < cy < ny - 7:
            close(rend.centroid(F), [cz, cy], "spot of the direct beam", 0, 0.05, sig="direct beam spot")
            ctx.event("direct beam rendered")
    n = arr(det.normal)
    close(n, [-1, 0, 0], "normal of the detector", 0, 1e-12, sig="normal")
    # motion
    close(float(motion.rotation_angle), p["rotation_step"], "rotation step", 1e-14, sig="rotation step")
    x = np.random.default_rng(case["seed"]).normal(size=(5, 3)) * 10
    for t in (0.0, 0.3, 1.0):
        close(motion(torch.tensor(x), t), x @ ref.rot(axis, p["rotation_step"] * t).T, "moved sample", 0, 1e-12 * 100, sig="motion")
    # incomplete parameters
    key = list(before)[case["drop"]]
    q = {a: b for a, b in p.items() if a != key}
    try:
        templates.s3dxrd(q)
    except (ValueError, KeyError):
        pass
    else:
        check(False, "parameters without %s were accepted" % key, "missing key")
    ctx.nontrivial(pz != py and nz != ny)


def bingham(q0, kappa):
    """Normalised density exp(kappa (q q0)^2) on the half sphere of the unit quaternions."""
    norm = 2 * math.pi * quad(lambda t: math.exp(kappa * t * t) * math.sqrt(1 - t * t), -1, 1)[0]
    second = 2 * math.pi * quad(lambda t: t * t * math.exp(kappa * t * t) * math.sqrt(1 - t * t), -1, 1)[0] / norm
    fourth = 2 * math.pi * quad(lambda t: t**4 * math.exp(kappa * t * t) * math.sqrt(1 - t * t), -1, 1)[0] / norm
    return (lambda q: np.exp(kappa * (q @ q0) ** 2) / norm), second, max(fourth - second**2, 0.0)


def quaternion(v):
    q = np.asarray(v, float)
    return q / np.linalg.norm(q)


def to_quaternions(U):
    """Scalar last quaternions of rotation matrices, both signs alike."""
    from scipy.spatial.transform import Rotation
    return Rotation.from_matrix(U).as_quat()


def proper(U):
    close(U @ U.transpose(0, 2, 1), np.repeat(np.eye(3)[None], len(U), axis=0), "orthogonality", 0, 1e-9, sig="rotations")
    close(np.linalg.det(U), np.ones(len(U)), "handedness", 0, 1e-9, sig="rotations")


def uniform_matrices(U, what):
    """Moments of uniform rotations: entries have mean 0 and mean square 1/3 (5.5 standard errors)."""
    n = len(U)
    worst = np.abs(U.mean(axis=0)).max() * math.sqrt(3 * n)
    check(worst <= 5.5, "%s: mean orientation off by %.2f standard errors" % (what, worst), "uniform")
    # the variance of the square of an entry is 4/45
    worst = np.abs((U**2).mean(axis=0) - 1 / 3.0).max() / math.sqrt(4 / 45.0 / n)
    check(worst <= 5.5, "%s: mean squares off by %.2f standard errors" % (what, worst), "uniform")


@st.composite
def odf_case(draw):
    q = st.lists(gen.even(-1, 1), min_size=4, max_size=4).filter(lambda v: np.linalg.norm(v) > 0.2)
    return dict(kind=draw(st.sampled_from(["uniform", "texture", "texture", "gradient"])), q=[draw(q), draw(q)], kappa=draw(gen.even(0.5, 9.0)),
                n=draw(st.integers(150, 420)), height=draw(gen.log(0.3, 3.0)), radius=draw(gen.log(0.01, 1e3)), bins=draw(st.sampled_from([10.0, 12.0, 15.0])),
                strain=[draw(gen.strain6), draw(gen.strain6)], cell=draw(gen.cell()), seed=draw(gen.seeds), default=draw(st.booleans()))


@component(P, "odf", odf_case(), 120, 2400,
           "a cylinder with a uniform, textured or position dependent density and a strain field; shape, strains of the elements and "
           "moments of the orientations (5.5 standard errors)")
def odf(case, ctx):
    R, h = case["radius"], case["radius"] * case["height"]
    dens = [bingham(quaternion(q), case["kappa"]) for q in case["q"]]
    seen = []

    def density(x, q):
        seen.append(np.array(x, float))
        close(np.linalg.norm(q, axis=-1), np.ones(q.shape[:-1]), "length of the quaternions", 0, 1e-9, sig="quaternions")
        if case["kind"] == "uniform":
            return np.ones(q.shape[:-1]) / math.pi**2
        return dens[int(case["kind"] == "gradient" and x[2] > 0)][0](q)

    E = [gen.tensor(e, 1e-3) for e in case["strain"]]

    def field(x):
        return E[0] + E[1] * (x[0] - 2 * x[2]) / R

    np.random.seed(case["seed"] % 2**32)
    kw = {} if case["default"] else dict(strain_tensor=field, path_to_cif_file="material.cif")
    pc = templates.polycrystal_from_odf(density, case["n"], h, R, case["cell"]["cell"], case["cell"]["sg"], maximum_sampling_bin_seperation=np.radians(case["bins"]), **kw)
    X, enod, vol = arr(pc.mesh_lab.coord), arr(pc.mesh_lab.enod).astype(int), arr(pc.mesh_volumes)
    n = len(enod)
    tol = 1e-9 * max(R, h)
    rho = np.hypot(X[:, 0], X[:, 1])
    check(rho.max() <= R + tol and np.abs(X[:, 2]).max() <= h / 2 + tol, "elements outside of the cylinder", "bounds")
    close([rho.max(), X[:, 2].max(), X[:, 2].min()], [R, h / 2, -h / 2], "extent of the sample", 1e-9, tol, sig="extent")
    check(0.9 * math.pi * R * R * h * (1 - 1e-3) <= vol.sum() <= math.pi * R * R * h * (1 + 1e-9), "the elements fill %.4f of the cylinder" % (vol.sum() / (math.pi * R * R * h)), "filled")
    check(n / 3.5 <= case["n"] <= 3.5 * n, "%d elements, %d were asked for" % (n, case["n"]), "number")
    c = X[enod].mean(axis=1)
    close(pc.strain_lab, np.zeros((n, 3, 3)) if case["default"] else np.array([field(x) for x in c]), "strain field", 1e-9, 1e-12, sig="strain field")
    close(np.array(seen), c, "positions at which the density is evaluated", 1e-9, tol, sig="positions")
    check(not arr(pc.element_phase_map).any() and len(pc.phases) == 1, "phases", "phases")
    check(list(pc.phases[0].unit_cell) == list(case["cell"]["cell"]) and pc.phases[0].sgname == case["cell"]["sg"], "material", "material")
    check(pc.phases[0].path_to_cif_file == kw.get("path_to_cif_file"), "structure file of the sample", "material")
    U = arr(pc.orientation_lab)
    check(U.shape == (n, 3, 3), "orientations of shape %s" % (U.shape,), "orientations")
    proper(U)
    if case["kind"] == "uniform":
        uniform_matrices(U, "uniform density")
    else:
        Q = to_quaternions(U)
        groups = [(slice(None), 0)] if case["kind"] == "texture" else [(c[:, 2] <= 0, 0), (c[:, 2] > 0, 1)]
        for g, i in groups:
            t2 = (Q[g] @ quaternion(case["q"][i])) ** 2
            _, mean, var = dens[i]
            # uniform drawing within bins of this width
            bias = 0.5 * case["kappa"] * np.radians(case["bins"]) ** 2 * 0.5
            if len(t2) > 20:
                check(abs(t2.mean() - mean) <= 5.5 * math.sqrt(var / len(t2)) + bias, "%d orientations have a mean squared cosine to the texture of %.4f, expected %.4f (standard error %.4f)"
                      % (len(t2), t2.mean(), mean, math.sqrt(var / len(t2))), "texture")
    # not normalised
    if case["seed"] % 4 == 0:
        try:
            templates.polycrystal_from_odf(lambda x, q: density(x, q) * 1.3, 5, h, R, case["cell"]["cell"], case["cell"]["sg"], maximum_sampling_bin_seperation=np.radians(case["bins"]))
        except (AssertionError, ValueError):
            ctx.event("not normalised")
        else:
            check(False, "a density with a total of 1.3 was accepted", "normalised")
    ctx.nontrivial(case["kind"] != "uniform" and not case["default"])
    ctx.event(case["kind"])


@st.composite
def bins_case(draw):
    q = st.lists(gen.even(-1, 1), min_size=4, max_size=4).filter(lambda v: np.linalg.norm(v) > 0.2)
    return dict(q=draw(q), kappa=draw(gen.even(1.0, 12.0)), bins=draw(gen.even(5.0, 40.0)), n=draw(st.integers(300, 1200)), seed=draw(gen.seeds), uniform=draw(st.booleans()))


@component(P, "sampling", bins_case(), 80, 2000,
           "orientations drawn from a density by the sampler alone: first and second moments of a uniform density and concentration "
           "of a peaked one, for any bin size")
def sampling(case, ctx):
    f = priv("xrd_simulator.templates", "_sample_ODF")
    if f is None:
        return ctx.event("no such helper")
    np.random.seed(case["seed"] % 2**32)
    n = case["n"]
    sep = np.radians(case["bins"])
    if case["uniform"]:
        U = np.asarray(f(lambda x, q: 1 / np.pi**2, sep, np.zeros((n, 3))))
        proper(U)
        uniform_matrices(U, "uniform density")
        # angle of uniform rotations: mean cosine of the angle is -1/2
        t = (np.trace(U, axis1=1, axis2=2) - 1) / 2
        check(abs(t.mean() + 0.5) <= 5.5 * math.sqrt(0.25 / n) + 0.02, "mean cosine of the angle %.4f" % t.mean(), "angles")
    else:
        kappa = min(case["kappa"], 0.12 / (sep / 2) ** 2)  # constant over a bin, as documented
        d, mean, var = bingham(quaternion(case["q"]), kappa)
        U = np.asarray(f(lambda x, q: d(q), sep, np.zeros((n, 3))))
        proper(U)
        t2 = (to_quaternions(U) @ quaternion(case["q"])) ** 2
        bias = 0.5 * kappa * (sep / 2) ** 2
        check(abs(t2.mean() - mean) <= 5.5 * math.sqrt(var / n) + bias, "mean squared cosine to the texture %.4f, expected %.4f (standard error %.4f)"
              % (t2.mean(), mean, math.sqrt(var / n)), "texture")
    ctx.nontrivial()
    ctx.event("uniform" if case["uniform"] else "texture")


@st.composite
def powder_case(draw):
    return dict(radius=draw(gen.log(1e-3, 1e4)), n=draw(st.one_of(st.integers(1, 5), st.integers(200, 900))), cell=draw(gen.cell()), strain=draw(st.one_of(st.none(), gen.strain6)),
                seed=draw(gen.seeds), form=draw(st.sampled_from(["array", "list"])))


@component(P, "powder", powder_case(), 240, 4000,
           "overlayed grains of random orientation: number, bounds, material, strain and, for many grains, moments of the orientations; "
           "two samples have different orientations")
def powder(case, ctx):
    r, n = case["radius"], case["n"]
    kw = {} if case["strain"] is None else dict(strain_tensor=gen.tensor(case["strain"], 1e-3))
    if case["n"] % 2:
        kw["path_to_cif_file"] = "material.cif"
    np.random.seed(case["seed"] % 2**32)
    pc = templates.get_uniform_powder_sample(r, n, case["cell"]["cell"], case["cell"]["sg"], **kw)
    check(pc.mesh_lab.number_of_elements == n and len(arr(pc.mesh_lab.enod)) == n, "%s grains, %d were asked for" % (pc.mesh_lab.number_of_elements, n), "number")
    X, enod = arr(pc.mesh_lab.coord), arr(pc.mesh_lab.enod).astype(int)
    used = X[np.unique(enod)]
    check(np.linalg.norm(X, axis=1).max() <= r * (1 + 1e-9), "grains outside of the bounding radius", "bounds")
    close(np.linalg.norm(used, axis=1).max(), r, "radius of the sample", 1e-9, sig="radius")
    vol = arr(pc.mesh_volumes)
    close(vol, [ref.tet_volume(X[e]) for e in enod], "volumes", 1e-9, sig="volumes")
    check(vol.min() > 0.1 * r**3, "flat grains", "flat")
    centre = X[enod].mean(axis=1)
    check(np.linalg.norm(centre, axis=1).max() < 0.5 * r, "grains are not at the origin", "overlayed")
    E = gen.tensor(case["strain"], 1e-3) if case["strain"] is not None else np.zeros((3, 3))
    close(pc.strain_lab, np.repeat(E[None], n, axis=0), "strains", 0, 1e-15, sig="strains")
    check(not arr(pc.element_phase_map).any() and list(pc.phases[0].unit_cell) == list(case["cell"]["cell"]) and pc.phases[0].sgname == case["cell"]["sg"], "material", "material")
    check(pc.phases[0].path_to_cif_file == kw.get("path_to_cif_file"), "structure file of the sample", "material")
    U = arr(pc.orientation_lab)
    proper(U)
    if n > 100:
        uniform_matrices(U, "powder")
        other = arr(templates.get_uniform_powder_sample(r, n, case["cell"]["cell"], case["cell"]["sg"], **kw).orientation_lab)
        d = np.abs(U[:, None] - other[None]).max(axis=(2, 3)).min() if n < 300 else np.abs(U - other).max(axis=(1, 2)).min()
        check(d > 0, "two samples have the same grain", "random")
        ctx.event("many grains")
    ctx.nontrivial(case["strain"] is not None)
