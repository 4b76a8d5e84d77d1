"""Samples of many elements, and crystals of many planes: drawn from a seed, compared as arrays."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.spatial.transform import Rotation

from vf import gen, ref, world
from xrd_simulator.beam import Beam
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.phase import Phase
from xrd_simulator.polycrystal import Polycrystal


@st.composite
def cases(draw, top=1500):
    wide = draw(st.sampled_from([False, False, True]))
    n = draw(st.integers(1, 3)) if wide else int(draw(gen.log(40, top)))
    return dict(n=n, seed=draw(gen.seeds), m=draw(st.integers(1, 3)), edge=draw(gen.even(9.0, 11.0) if wide else gen.even(3.0, 5.0)),
                sg=draw(st.sampled_from(["P1", "Pm-3m", "Fm-3m", "P213"])), stl=0.5 if wide else draw(gen.even(0.2, 0.32)), part=draw(gen.even(0.0, 0.8)),
                scale=draw(gen.log(0.1, 10.0)), beam=draw(world.beams(wavelength=gen.even(0.2, 0.8))), strain=draw(st.sampled_from([0.0, 0.01, 1e-4])),
                motion=draw(world.motions(angle=gen.even(0.1, 3.1), shift=1.0, origin=1.0)), cut=draw(gen.even(0.5, 3.0)), aim=draw(gen.vec(-1, 1)))


class Crowd:
    def __init__(self, case):
        n, m = case["n"], case["m"]
        rng = np.random.default_rng(case["seed"])
        self.case, self.n, self.scale = case, n, case["scale"]
        base = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0]])
        Q = Rotation.random(n, random_state=np.random.RandomState(case["seed"])).as_matrix()
        T = (base @ Q.transpose(0, 2, 1)) * (rng.uniform(0.3, 1.0, (n, 1, 1))) + rng.uniform(-0.1, 0.1, (n, 4, 3))
        self.T = (T + rng.uniform(-4, 4, (n, 1, 3))) * self.scale
        perm = rng.permutation(4 * n)
        self.coord = np.empty((4 * n, 3))
        self.coord[perm] = self.T.reshape(-1, 3)
        self.enod = perm.reshape(n, 4)
        self.U = Rotation.random(n, random_state=np.random.RandomState(case["seed"] // 2 + 1)).as_matrix()
        E = rng.uniform(-1, 1, (n, 3, 3))
        self.eps = (E + E.transpose(0, 2, 1)) / 2 * case["strain"]
        self.pm = rng.integers(0, m, n)
        self.cells = [[case["edge"] * (1 + 0.1 * i)] * 3 + [90.0] * 3 for i in range(m)]
        self.b = dict(case["beam"], half=[1e4 * self.scale] * 3)
        q = case["motion"]
        self.m = dict(q, translation=[x * self.scale for x in q["translation"]], origin=[x * self.scale for x in q["origin"]])
        self.hi = math.asin(min(0.98, case["stl"] * self.b["wavelength"]))
        self.lo = self.hi * case["part"]
        self.k, self.axis = world.k_of(self.b), np.asarray(q["axis"], float)

    def polycrystal(self, which=None):
        which = np.arange(self.n) if which is None else which
        mesh = TetraMesh.generate_mesh_from_vertices(self.coord, self.enod) if len(which) == self.n and np.array_equal(which, np.arange(self.n)) else \
            TetraMesh.generate_mesh_from_vertices(self.T[which].reshape(-1, 3), np.arange(4 * len(which)).reshape(-1, 4))
        return Polycrystal(mesh, self.U[which], self.eps[which], [Phase(list(c), self.case["sg"]) for c in self.cells], self.pm[which])

    def diffract(self, pc, beam=None):
        return pc.diffract(beam or world.make_beam(self.b), world.make_motion(self.m), min_bragg_angle=self.lo, max_bragg_angle=self.hi, verbose=False)

    def narrow(self):
        V = world.box(np.array([20.0, 1.0, 1.0]) * self.case["cut"] * self.scale, world.frame_of(self.b["direction"]), np.array(self.case["aim"]) * self.scale)
        return V, Beam(V, np.array(self.b["direction"]), self.b["wavelength"], world.pol_of(self.b))

    def lattice(self):
        """U B of every element."""
        F = np.linalg.cholesky(np.eye(3) + 2 * self.U.transpose(0, 2, 1) @ self.eps @ self.U).transpose(0, 2, 1)
        B0 = np.array([ref.b_matrix(c) for c in self.cells])[self.pm]
        return self.U @ np.linalg.solve(F, B0)

    def planes(self, i):
        """Certain planes of a phase and those at the limits."""
        lo, hi = math.sin(self.lo) / self.b["wavelength"], math.sin(self.hi) / self.b["wavelength"]
        H, stl = ref.hkl_box(self.cells[i], hi * (1 + 1e-9))
        keep = stl > lo * (1 - 1e-9)
        H, stl = H[keep], stl[keep]
        if self.case["sg"] == "Fm-3m":
            ok = np.all(H % 2 == H[:, :1] % 2, axis=1)
        elif self.case["sg"] == "P213":
            ok = ~((H == 0).sum(axis=1) == 2) | (H.sum(axis=1) % 2 == 0)
        else:
            ok = np.ones(len(H), bool)
        return H[ok], (np.abs(stl - lo) > 1e-9 * lo)[ok] & (np.abs(stl - hi) > 1e-9 * hi)[ok]

    def centres(self, which):
        """Centres of the bounding spheres and how far they may lie off, as two supports may nearly tie."""
        T = self.T[which]
        return np.array([ref.min_sphere(t)[0] for t in T]), np.array([ref.sphere_spread(t) for t in T])


def rotate(axis, phi, v):
    """Rotation of v (n, 3) about an axis by phi (n,)."""
    axis = axis / np.linalg.norm(axis)
    return Rotation.from_rotvec(np.asarray(phi)[:, None] * axis).apply(v)
