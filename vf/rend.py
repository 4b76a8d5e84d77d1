"""Scenes for the renderers: a detector, and peaks whose rays are aimed at given pixel positions.

A scene is a JSON value. Every peak has an element of its own (a tetrahedron) in a mesh, so that all
three rendering methods can draw it; its size, factors and crystallite broadening are free.
"""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from vf import gen, ref, world
from vf.core import arr
from xrd_simulator.mesh import TetraMesh

MICRO_SIGMA = 0.7  # width of the interpolation spot of the micro renderer (documented default)


def pixel_sizes(d):
    return d["size"][1] / d["pixels"][0], d["size"][0] / d["pixels"][1]


@st.composite
def detectors(draw, lo=34, hi=60, sigma=None, tilt=0.4, aspect=True, flags=False):
    nz, ny = draw(st.integers(lo, hi)), draw(st.integers(lo, hi))
    pz = draw(gen.log(0.5, 100.0))
    py = pz * (draw(st.sampled_from([1.0, 1.0, 0.5, 1.7])) if aspect else 1.0)
    d = dict(distance=draw(gen.log(3.0, 300.0)) * max(nz * pz, ny * py), direction=draw(gen.unit), pixels=[nz, ny], size=[ny * py, nz * pz],
             shift=[draw(gen.even(-0.6, 0.6)) * ny * py, draw(gen.even(-0.6, 0.6)) * nz * pz],
             tilt=[x * draw(st.one_of(st.just(0.0), gen.even(0, tilt))) for x in draw(gen.random_unit)],
             gaussian_sigma=draw(sigma if sigma is not None else st.sampled_from([1.0, 1.0, 0.3, 0.6, 2.0, 3.0])),
             kernel_threshold=draw(st.sampled_from([0.02, 0.02, 0.1, 0.001])))
    if flags:
        for f in ("use_lorentz", "use_polarization", "use_structure_factor"):
            d[f] = draw(st.booleans())
    return d


def plane(d):
    c0, c1, c2 = world.detector_corners(d)
    y, z = (c1 - c0) / np.linalg.norm(c1 - c0), (c2 - c0) / np.linalg.norm(c2 - c0)
    return c0, z, y


def target(d, pos):
    """Point of the detector plane at pixel coordinates (row, column)."""
    c0, z, y = plane(d)
    pz, py = pixel_sizes(d)
    return c0 + pos[0] * pz * z + pos[1] * py * y


def peak(draw_pos, time=gen.even(0, 1), grain=(1e-3, 1e3)):
    """Strategy of one peak. draw_pos: strategy of (u, v), fractions or classes; see positions."""
    return st.fixed_dictionaries(dict(
        pos=draw_pos, time=time, volume=gen.log(*grain), sf=gen.log(1e-2, 1e5), lorentz=gen.log(0.5, 50.0), pol=gen.even(0.01, 1.0),
        fwhm=gen.log(0.02, 3.0), shape=st.integers(0, 2**16), source=gen.vec(-0.02, 0.02)))


def positions(d, p, margin=0.0):
    """Pixel coordinates of a peak: fractions of the area inside of the margin."""
    n = d["pixels"]
    lo = min(margin, (n[0] - 1) / 2.0), min(margin, (n[1] - 1) / 2.0)
    return tuple(l + f * (m - 1 - 2 * l) for l, f, m in zip(lo, p["pos"], n))


class Scene:
    def __init__(self, d, peaks, pos, motion=None, beam_half=None):
        """pos: pixel coordinates per peak; fwhm of the peaks is in pixels along z."""
        self.d, self.n = d, len(peaks)
        self.pos = np.array(pos, float).reshape(-1, 2)
        self.detector = world.make_detector(d)
        pz, py = pixel_sizes(d)
        self.pix = (pz, py)
        unit = np.asarray(d["direction"], float)
        unit = unit / np.linalg.norm(unit)
        self.unit = unit
        width = max(d["size"])
        self.X = np.array([np.asarray(p["source"]) * width for p in peaks]).reshape(-1, 3)
        T = np.array([target(d, q) for q in self.pos]).reshape(-1, 3)
        self.K = T - self.X
        self.path = np.linalg.norm(self.K, axis=1)
        self.K = self.K / self.path[:, None] * 20.0
        self.motion = motion or dict(axis=[0.0, 0.0, 1.0], angle=0.5, translation=[0.0, 0.0, 0.0], origin=[0.0, 0.0, 0.0])
        self.times = np.array([p["time"] for p in peaks])
        # one element per peak, centred on the source at the time of the peak
        V = []
        for i, p in enumerate(peaks):
            rng = np.random.default_rng(p["shape"])
            for _ in range(50):
                x = rng.normal(size=(4, 3))
                v = ref.tet_volume(x)
                if v > 0.15:
                    break
            x = (x - x.mean(axis=0)) * (p["volume"] / v) ** (1 / 3.0)
            x = x + self.X[i]
            # back to time zero
            o = np.asarray(self.motion["origin"], float)
            R = ref.rot(self.motion["axis"], self.motion["angle"] * self.times[i])
            V.append((x - np.asarray(self.motion["translation"]) * self.times[i] - o) @ R + o)
        self.volumes = np.array([p["volume"] for p in peaks])
        c0 = plane(d)[0]
        normal = self.detector_normal()
        self.cos = np.abs(self.K @ normal) / np.linalg.norm(self.K, axis=1)
        # the width that the library documents: on the detector plane, at the distance of its corner
        self.fwhm_pix = np.array([p["fwhm"] for p in peaks])
        self.fwhm = self.fwhm_pix * pz / (np.linalg.norm(c0) / self.cos)
        self.factors = np.array([[p["sf"], p["pol"], p["lorentz"]] for p in peaks]).reshape(-1, 3)
        self.expected_factor = np.ones(self.n)
        for f, c in (("use_structure_factor", 0), ("use_polarization", 1), ("use_lorentz", 2)):
            if d.get(f, True):
                self.expected_factor = self.expected_factor * self.factors[:, c]
        half = beam_half or [1e3 * width] * 3
        self.beam_spec = dict(direction=list(unit), wavelength=0.3, pol=0.0, half=half, centre=[0, 0, 0])
        self.beam = world.make_beam(self.beam_spec)
        self.V = np.array(V).reshape(-1, 4, 3)
        self.mesh = TetraMesh.generate_mesh_from_vertices(self.V.reshape(-1, 3), np.arange(4 * max(1, self.n)).reshape(-1, 4)) if self.n else None

    def detector_normal(self):
        c0, z, y = plane(self.d)
        return np.cross(z, y)

    def peaks(self, which=None):
        n = self.n
        p = np.zeros((n, 25))
        p[:, 0] = np.arange(n)
        p[:, 2:5] = 1.0
        p[:, 5], p[:, 20], p[:, 19] = self.factors.T
        p[:, 6] = self.times
        p[:, 13:16], p[:, 16:19] = self.K, self.X
        p[:, 21] = self.volumes
        p[:, 22], p[:, 23] = 0.1, self.fwhm
        p[:, 24] = np.arange(n)
        if which is not None:
            p = p[np.asarray(which)]
        return dict(peaks=torch.tensor(p), columns=list(world.COLUMNS), incident_vector=self.beam.wave_vector, wavelength=0.3,
                    rotation_axis=torch.tensor(np.array(self.motion["axis"], float)), mesh_lab=self.mesh, beam=self.beam,
                    rigid_body_motion=world.make_motion(self.motion), verbose=False)

    def render(self, method, frames=1, which=None, **kw):
        f, res = self.detector.render(self.peaks(which), frames_to_render=frames, method=method, verbose=False, **kw)
        return f


def centroid(img):
    """Row and column of the centre of mass of an image (pixel i at coordinate i)."""
    img = np.asarray(arr(img), float)
    t = img.sum()
    return np.array([img.sum(axis=1) @ np.arange(img.shape[0]), img.sum(axis=0) @ np.arange(img.shape[1])]) / t


def spread_of(img):
    """Variances of an image along rows and columns."""
    img = np.asarray(arr(img), float)
    c, t = centroid(img), img.sum()
    return np.array([img.sum(axis=1) @ (np.arange(img.shape[0]) - c[0]) ** 2, img.sum(axis=0) @ (np.arange(img.shape[1]) - c[1]) ** 2]) / t


def shadow(S, i=0):
    """Pixel coordinates of the projected corners of an element at the time of its peak."""
    X = ref.move(S.motion, S.V[i], S.times[i])
    return np.array([ref.ray_hit(world.detector_corners(S.d), v, S.K[i])[1:] for v in X]) / list(S.pix)


def fitted(d, p, pos, motion, limit=5.5):
    """Scene of one element, made smaller if its shadow reaches further than the limit (pixels)."""
    S = Scene(d, [p], [pos], motion=motion)
    reach = np.abs(shadow(S) - S.pos[0]).max()
    if reach > limit:
        p["volume"] *= (limit / reach) ** 3
        S = Scene(d, [p], [pos], motion=motion)
    return S
