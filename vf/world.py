"""Library objects built from JSON descriptions, and the strategies of these descriptions."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy.spatial.transform import Rotation

from vf import gen, ref
from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.motion import RigidBodyMotion
from xrd_simulator.phase import Phase
from xrd_simulator.polycrystal import Polycrystal

COLUMNS = ["grain_index", "phase_number", "h", "k", "l", "structure_factors", "diffraction_times",
           "G0_x", "G0_y", "G0_z", "Gx", "Gy", "Gz", "K_out_x", "K_out_y", "K_out_z",
           "Source_x", "Source_y", "Source_z", "lorentz_factors", "polarization_factors", "volumes",
           "2theta", "scherrer_fwhm", "peak_index"]


# ---------------------------------------------------------------- builders
def frame_of(direction):
    """Right handed orthonormal frame (rows) with the given first row."""
    d = np.asarray(direction, float)
    d = d / np.linalg.norm(d)
    a = np.eye(3)[np.argmin(np.abs(d))]
    e1 = np.cross(d, a)
    e1 /= np.linalg.norm(e1)
    return np.array([d, e1, np.cross(d, e1)])


def box(half, rows, centre=(0.0, 0.0, 0.0)):
    """Corners of a box with half lengths along the rows of a frame."""
    s = np.array([[x, y, z] for x in (-1.0, 1.0) for y in (-1.0, 1.0) for z in (-1.0, 1.0)])
    return (s * np.asarray(half, float)) @ np.asarray(rows, float) + np.asarray(centre, float)


def make_motion(m):
    if not np.any(m["origin"]):  # the origin of the laboratory is the default
        return RigidBodyMotion(np.array(m["axis"], float), float(m["angle"]), np.array(m["translation"], float))
    return RigidBodyMotion(np.array(m["axis"], float), float(m["angle"]),
                           np.array(m["translation"], float), np.array(m["origin"], float))


def make_beam(b):
    """b: direction, wavelength, pol (angle of the polarization), half (3 half lengths), centre."""
    rows = frame_of(b["direction"])
    p = math.cos(b["pol"]) * rows[1] + math.sin(b["pol"]) * rows[2]
    return Beam(box(b["half"], rows, b.get("centre", (0, 0, 0))), rows[0], float(b["wavelength"]), p)


def pol_of(b):
    rows = frame_of(b["direction"])
    return math.cos(b["pol"]) * rows[1] + math.sin(b["pol"]) * rows[2]


def k_of(b):
    d = np.asarray(b["direction"], float)
    return 2 * math.pi / b["wavelength"] * d / np.linalg.norm(d)


DEFAULTS = dict(gaussian_sigma=1.0, kernel_threshold=0.02, max_gaussian_kernel_radius=2, use_lorentz=True, use_polarization=True, use_structure_factor=True)


def make_detector(d, **kw):
    """d: distance, direction, rotvec (tilt), size (y, z), shift, pixels (nz, ny) or pixel."""
    c0, c1, c2 = detector_corners(d)
    if "pixels" in d:
        kw.setdefault("n_pixels", tuple(int(x) for x in d["pixels"]))
    else:
        p = d["pixel"]
        kw.setdefault("pixel_size", tuple(p) if isinstance(p, (list, tuple)) else p)
    for name in ("gaussian_sigma", "kernel_threshold", "max_gaussian_kernel_radius", "use_lorentz",
                 "use_polarization", "use_structure_factor"):
        if name in d:
            kw.setdefault(name, d[name])
        if name in kw and kw[name] == DEFAULTS[name]:
            del kw[name]
    return Detector(c0, c1, c2, **kw)


def detector_corners(d):
    """Corners such that zhat x yhat points back towards the source (the handedness of the library)."""
    rows = frame_of(d["direction"])
    R = ref.rotvec_matrix(d.get("tilt", [0, 0, 0]))
    rows = rows @ R.T
    n, y, z = rows  # n = y x z is the outward direction, so z x y points back
    centre = np.asarray(d["direction"], float) / np.linalg.norm(d["direction"]) * d["distance"]
    centre = centre + d.get("shift", [0, 0])[0] * y + d.get("shift", [0, 0])[1] * z
    sy, sz = d["size"]
    c0 = centre - y * sy / 2 - z * sz / 2
    return c0, c0 + y * sy, c0 + z * sz


# ---------------------------------------------------------------- descriptions
def motions(angle=gen.angle, shift=0.0, origin=0.0):
    return st.fixed_dictionaries(dict(
        axis=gen.unit, angle=angle,
        translation=gen.vec(-shift, shift) if shift else st.just([0.0, 0.0, 0.0]),
        origin=gen.vec(-origin, origin) if origin else st.just([0.0, 0.0, 0.0])))


def beams(half=(1e4, 1e4, 1e4), wavelength=gen.num(0.12, 0.9), direction=gen.unit):
    return st.fixed_dictionaries(dict(
        direction=direction, wavelength=wavelength, pol=gen.num(0, math.pi),
        half=st.just(list(half)), centre=st.just([0.0, 0.0, 0.0])))


@st.composite
def samples(draw, max_elements=4, max_phases=2, strain=0.02, scale=gen.num(0.5, 20.0), spread=2.0, systems=None,
            same_cell=False):
    n = draw(st.integers(1, max_elements))
    m = draw(st.integers(1, max_phases))
    return dict(
        seed=draw(gen.seeds), n=n, scale=draw(scale), spread=spread, shared=draw(st.booleans()),
        cells=[draw(gen.cell(systems=systems)) for _ in range(m)],
        U=draw(st.one_of(st.lists(gen.rotvec, min_size=n, max_size=n), gen.rotvec.map(lambda r: [r]))),
        strain=draw(st.lists(gen.strain6, min_size=1, max_size=n)), strain_scale=draw(st.sampled_from([0.0, strain, strain / 20])),
        map=draw(st.lists(st.integers(0, m - 1), min_size=n, max_size=n)))


def build_sample(s):
    """coord, enod, U (n, 3, 3), eps (n, 3, 3), phase map (n,)"""
    coord, enod = gen.tets(s["seed"], s["n"], s["scale"], s["scale"] * s["spread"], s["shared"])
    n = s["n"]
    U = np.array([ref.rotvec_matrix(s["U"][i % len(s["U"])]) for i in range(n)])
    eps = np.array([gen.tensor(s["strain"][i % len(s["strain"])], s["strain_scale"]) for i in range(n)])
    return coord, enod, U, eps, np.array(s["map"], int)


def make_phases(s, cifs=None):
    return [Phase(list(c["cell"]), c["sg"], None if cifs is None else cifs[i]) for i, c in enumerate(s["cells"])]


def make_polycrystal(s, cifs=None):
    coord, enod, U, eps, pm = build_sample(s)
    mesh = TetraMesh.generate_mesh_from_vertices(coord, enod)
    return Polycrystal(mesh, U, eps, make_phases(s, cifs), pm)


def peaks_array(result):
    """(n, 25) float array of the peaks in the documented column order."""
    p = result["peaks"]
    p = p.detach().cpu().numpy() if hasattr(p, "detach") else np.asarray(p)
    order = [list(result["columns"]).index(c) for c in COLUMNS]
    return np.asarray(p, float)[:, order]


# ---------------------------------------------------------------- cif files
def write_cif(path, s):
    """Write a structure drawn by gen.structure as a CIF file that xfab reads."""
    R, t = ref.symops(s["sg"])
    explicit = s["multi"]
    rows, aniso = [], []
    simple = np.allclose(R, R.transpose(0, 2, 1))
    orbits = [ref.orbit(a["pos"], R, t) for a in s["atoms"]]
    # xfab derives multiplicities only for symmetric rotation matrices and exact fractions
    if not simple or any(a["kind"] in ("grid", "mixed") or not o[2] for a, o in zip(s["atoms"], orbits)):
        explicit = True
    for i, a in enumerate(s["atoms"]):
        m = len(orbits[i][1])
        kind, _ = ref.adp_of(a, m == len(R))
        name = {"none": "Uiso", "iso": a["adp"][0] + "iso", "ani": a["adp"]}[kind]
        f = 0.0 if kind == "none" else 100.0 if a["adp"][0] == "B" else 1.0
        rows.append([a["el"] + str(i + 1), a["el"]] + ["%.17g" % x for x in a["pos"]] + [name, "%.17g" % (a["u"][0] * f), "%.17g" % a["occ"]]
                    + ([str(m)] if explicit else []))
        if kind == "ani":
            aniso.append([a["el"] + str(i + 1)] + ["%.17g" % (x * f) for x in a["u"]])
    out = ["data_generated"]
    for n, v in zip(("length_a", "length_b", "length_c", "angle_alpha", "angle_beta", "angle_gamma"), s["cell"]):
        out.append("_cell_%s %.12g" % (n, v))
    out.append("_symmetry_space_group_name_H-M '%s'" % s["sg"])
    if s["dispersion"] is not None:
        out += ["loop_", "_atom_type_symbol", "_atom_type_scat_dispersion_real", "_atom_type_scat_dispersion_imag"]
        for e in sorted({a["el"] for a in s["atoms"]}):
            d = s["dispersion"].get(e)
            out.append("%s %s %s" % ((e, ".", ".") if d is None else (e, "%.12g" % d[0], "%.12g" % d[1])))
    out += ["loop_", "_atom_site_label", "_atom_site_type_symbol", "_atom_site_fract_x", "_atom_site_fract_y", "_atom_site_fract_z"]
    bare = all(a["adp"] == "none" for a in s["atoms"])
    if not bare:
        # one iso column per kind: both are written, xfab reads the one of the type
        out += ["_atom_site_adp_type", "_atom_site_U_iso_or_equiv", "_atom_site_B_iso_or_equiv"]
    full = any(a["occ"] != 1.0 for a in s["atoms"]) or not bare
    if full:
        out.append("_atom_site_occupancy")
    if explicit:
        out.append("_atom_site_symmetry_multiplicity")
    for r in rows:
        out.append(" ".join(r[:5] + ([] if bare else [r[5], r[6], r[6]]) + ([r[7]] if full else []) + r[8:]))
    if aniso:
        out += ["loop_", "_atom_site_aniso_label"]
        out += ["_atom_site_aniso_%s_%s" % (L, ij) for L in ("U", "B") for ij in ("11", "22", "33", "23", "13", "12")]
        for r in aniso:
            out.append(" ".join([r[0]] + r[1:] + r[1:]))
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
    return path


# ---------------------------------------------------------------- comparison of patterns
def stable(p, k, axis, dw, edges=(0.0, 1.0), slope_min=1e-3):
    """Rows of a pattern whose event is well conditioned: not tangent, not at an end of the interval."""
    G = p[:, 10:13]
    s = np.abs(np.cross(axis, G) @ k) / (np.linalg.norm(k) * np.linalg.norm(G, axis=1) + 1e-300)
    ok = s > slope_min
    for e in edges:
        ok &= np.abs(p[:, 6] - e) > 1e-6 / min(1.0, dw)
    return ok


def event_keys(p):
    return [tuple(int(round(v)) for v in r[:5]) for r in p]


def match_patterns(a, b, a_ok, b_ok, tol_t):
    """Pairs of row indices of events with equal keys and times; and a message when they do not correspond."""
    left = {}
    for j, q in enumerate(event_keys(b)):
        left.setdefault(q, []).append(j)
    pairs, lonely = [], []
    used = set()
    for i, q in enumerate(event_keys(a)):
        c = [j for j in left.get(q, []) if j not in used and abs(b[j, 6] - a[i, 6]) <= tol_t]
        if c:
            j = min(c, key=lambda j: abs(b[j, 6] - a[i, 6]))
            used.add(j)
            pairs.append((i, j))
        elif a_ok[i]:
            lonely.append((q, float(a[i, 6])))
    extra = [(event_keys(b[j:j + 1])[0], float(b[j, 6])) for j in range(len(b)) if j not in used and b_ok[j]]
    msg = None
    if lonely:
        msg = "peak %s at t=%.9g is missing" % lonely[0]
    elif extra:
        msg = "peak %s at t=%.9g was added" % extra[0]
    return pairs, msg
