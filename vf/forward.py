"""Reference forward model: from the description of an experiment to the spots on the detector."""
import math
from dataclasses import dataclass

import numpy as np

from vf import ref, world


@dataclass
class Spot:
    key: tuple  # element, phase, h, k, l
    t: float
    sure: bool  # False: may or may not be reported, within the numerical resolution
    row: float  # pixels
    col: float
    frames: tuple  # the frames in which it may be
    factor: float
    volume: float
    width: float  # full width of the crystallite broadening, radians
    K: np.ndarray
    X: np.ndarray  # corners of the element at that time
    cos: float


def window(b, d, coord, user_max, detector_bounds):
    """Largest Bragg angle, or None when it is ambiguous."""
    hi = math.pi / 2 if user_max is None else user_max
    if detector_bounds:
        c0, c1, c2 = world.detector_corners(d)
        V = world.box(b["half"], world.frame_of(b["direction"]), b["centre"])
        m = ref.inside_margin(V, coord)
        if np.any(np.abs(m) <= 1e-5 * (1 + np.abs(V).max())) or not np.any(m > 0):
            return None
        C = np.array([c0, c1, c2, c1 + c2 - c0]) - coord[m > 0].mean(axis=0)
        k = np.asarray(b["direction"], float)
        hi = min(hi, np.arctan2(np.linalg.norm(np.cross(C, k), axis=1), C @ k).max() / 2)
    return hi


def spots(sample, structures, b, motion, d, frames, R, coord, hi):
    """sample: as of world.samples; structures: one per phase or None; R, coord: orientation and nodes of the moved sample."""
    _, enod, U, eps, pm = world.build_sample(sample)
    k, axis, pol = world.k_of(b), np.asarray(motion["axis"], float), world.pol_of(b)
    V = world.box(b["half"], world.frame_of(b["direction"]), b["centre"])
    corners = world.detector_corners(d)
    c0, c1, c2 = corners
    size = np.linalg.norm(c2 - c0), np.linalg.norm(c1 - c0)
    pix = size[0] / d["pixels"][0], size[1] / d["pixels"][1]
    normal = np.cross(c2 - c0, c1 - c0)
    normal /= np.linalg.norm(normal)
    out = []
    for e in range(len(enod)):
        s = sample["cells"][pm[e]] if structures is None else structures[pm[e]]
        stl_max = math.sin(hi) / b["wavelength"]
        H, stl = ref.hkl_box(s["cell"], stl_max * (1 + 1e-9))
        ops = ref.symops(s["sg"])
        ok = ~ref.absent(H, *ops)
        H, stl = H[ok], stl[ok]
        sure_h = np.abs(stl - stl_max) > 1e-9 * stl_max
        if structures is None:
            F2 = np.ones(len(H))
        else:
            F2 = np.abs(ref.structure_factor(s, H)) ** 2
            sure_h &= (F2 < 1e-9) | (F2 > 1e-3)
            keep = F2 > 1e-9
            H, F2, sure_h = H[keep], F2[keep], sure_h[keep]
        if not len(H):
            continue
        G0 = H @ (R @ U[e] @ ref.strained_b(s["cell"], eps[e], U[e])).T
        idx, ts, sure, skip = ref.crossings(k, axis, motion["angle"], G0)
        # reflections that do not move never diffract, unless they always do
        still = G0[skip]
        C = (still @ axis) * (axis @ k) + 0.5 * np.sum(still * still, axis=1)
        if np.any(np.abs(C) <= 1e-6 * np.linalg.norm(k) * np.linalg.norm(still, axis=1)):
            return None
        centre = ref.min_sphere(coord[enod[e]])[0]
        if ref.sphere_spread(coord[enod[e]]) > 1e-6 * np.abs(coord[enod[e]] - centre).max():
            return None
        vol = ref.tet_volume(coord[enod[e]])
        src = np.array([ref.move(motion, centre, t) for t in ts]).reshape(-1, 3)
        inside = ref.inside_margin(V, src) if len(ts) else np.zeros(0)
        for i, t, ok, x, m in zip(idx, ts, sure, src, inside):
            tol = 1e-5 * (1 + np.abs(V).max() + np.abs(x).max()) if np.abs(V).max() < 1e6 else 1e-5
            if m < -tol:
                continue
            G = ref.rot(axis, motion["angle"] * t) @ G0[i]
            K = k + G
            ok = bool(ok and m > tol and sure_h[i])
            slope = abs(np.cross(axis, G) @ k) / (np.linalg.norm(k) * np.linalg.norm(G))
            ok &= slope > 1e-3
            den = K @ normal
            if abs(den) < 1e-6 * np.linalg.norm(K):
                continue
            far, u, v = ref.ray_hit(corners, x, K)
            edge = min(u, v, size[0] - u, size[1] - v)
            if far < 0 or edge < -1e-3 * min(pix):
                continue
            ok &= edge > 1e-3 * min(pix)
            L, margin = ref.lorentz(k, K, axis)
            factor = 1.0
            if d.get("use_lorentz", True):
                ok &= margin > 1e-3
                if math.isinf(L):
                    if ok:
                        continue
                    L = 1.0
                factor *= L
            if d.get("use_polarization", True):
                p = ref.polarization(K, pol)
                ok &= p > 1e-6
                factor *= p
            if d.get("use_structure_factor", True):
                factor *= F2[i]
            w = 1e-7 / max(slope, 1e-3)
            f = tuple(sorted({min(frames - 1, max(0, int(math.floor((t + q) * frames)))) for q in (-w, w)}))
            tt = math.atan2(np.linalg.norm(np.cross(k, K)), k @ K)
            out.append(Spot((e, int(pm[e])) + tuple(int(q) for q in H[i]), float(t), bool(ok), u / pix[0], v / pix[1], f, float(factor), vol,
                            ref.scherrer(vol, tt, b["wavelength"]), K, ref.move(motion, coord[enod[e]], t), abs(den) / np.linalg.norm(K)))
    return out


def illuminated(spot, b):
    """Corners of the illuminated part of the element of a spot, or None."""
    V = world.box(b["half"], world.frame_of(b["direction"]), b["centre"])
    A1, b1 = ref.halfspaces(spot.X)
    A2, b2 = ref.halfspaces(V)
    size = np.ptp(spot.X, axis=0).max()
    if np.all(A2 @ spot.X.T <= b2[:, None]):
        return spot.X
    return ref.polytope(np.vstack([A1, A2]), np.r_[b1, b2], spot.X.mean(axis=0), size, tol=1e-6)
