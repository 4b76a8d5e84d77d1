"""Strategies for JSON cases. Every value is drawn from Hypothesis, so cases shrink and replay."""
import math

import numpy as np
from hypothesis import strategies as st

LERP = 1 << 20


# Hypothesis prefers small integers: multiply by an odd constant, so that [0, 1) is evenly covered
# whatever the size of the drawn integer (0 stays 0, which is what cases shrink to).
fraction = st.integers(0, LERP - 1).map(lambda k: ((k * 0x9E3779B1) % LERP) / LERP)


def num(lo, hi, special=()):
    """Floats of [lo, hi], evenly spread, with some boundary and simple values."""
    even = fraction.map(lambda u: float(lo + (hi - lo) * u))
    options = [even, even, even, st.floats(lo, hi, allow_nan=False, allow_subnormal=False)]
    if special:
        options.append(st.sampled_from(list(special)))
    return st.one_of(*options)


def even(lo, hi):
    return fraction.map(lambda u: float(lo + (hi - lo) * u))


def log(lo, hi):
    """Floats of [lo, hi], evenly spread on a logarithmic scale."""
    a, b = math.log(lo), math.log(hi)
    return fraction.map(lambda u: float(math.exp(a + (b - a) * u)))


seeds = st.integers(0, 2**32 - 1)


def rarely(one_in, odd, usual):
    """Draw from odd once in so many cases (one_of() drops repeated options)."""
    return st.integers(0, LERP - 1).flatmap(lambda k: odd if 0.5 <= ((k * 0x9E3779B1) % LERP) / LERP < 0.5 + 1 / one_in else usual)


def vec(lo, hi):
    return st.lists(num(lo, hi), min_size=3, max_size=3)


def _unit(uv):
    z = 2 * uv[0] - 1
    r = math.sqrt(max(0.0, 1 - z * z))
    v = np.array([r * math.cos(2 * math.pi * uv[1]), r * math.sin(2 * math.pi * uv[1]), z])
    return [float(x) for x in v / np.linalg.norm(v)]


_AXES = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]]
_DIAG = [[float(x) for x in np.array(v) / np.linalg.norm(v)] for v in
         ([1, 1, 0], [0, 1, 1], [1, 0, 1], [1, -1, 0], [1, 1, 1], [-1, 1, 1])]

random_unit = st.tuples(even(0, 1), even(0, 1)).map(_unit)
unit = st.one_of(random_unit, random_unit, st.sampled_from(_AXES), st.sampled_from(_DIAG))

# rotation vectors: orientation of crystals, frames and detectors
rotvec = st.one_of(
    st.tuples(random_unit, even(0, math.pi)).map(lambda p: [x * p[1] for x in p[0]]),
    st.tuples(random_unit, even(0, math.pi)).map(lambda p: [x * p[1] for x in p[0]]),
    st.tuples(st.sampled_from(_AXES), st.sampled_from([0.0, math.pi / 2, math.pi, math.pi / 4, math.pi / 3])).map(
        lambda p: [x * p[1] for x in p[0]]),
    st.just([0.0, 0.0, 0.0]),
)

angle = st.one_of(even(1e-4, 0.2), even(0.01, 3.1415), even(0.01, 3.1415),
                  st.sampled_from([math.pi / 2, math.pi / 4, 1.0, 0.1, 3.0, math.radians(1.0)]))

strain6 = st.one_of(
    st.lists(even(-1, 1), min_size=6, max_size=6),
    st.lists(even(-1, 1), min_size=6, max_size=6),
    st.sampled_from([[0.0] * 6, [1.0, 0, 0, 0, 0, 0], [1.0, 0, 0, 1.0, 0, 1.0], [0, 1.0, 0, 0, 0, 0], [0, 0, 0, 0, 0.5, 0]]),
)


def tensor(v, scale=1.0):
    v = np.asarray(v, dtype=float) * scale
    return np.array([[v[0], v[1], v[2]], [v[1], v[3], v[4]], [v[2], v[4], v[5]]])


# ---------------------------------------------------------------- crystals
SPACE_GROUPS = {
    "triclinic": (
        "P1 P-1 "
    ).split(),
    "monoclinic": (
        "P2 P21 C2 Pm Pc Cm Cc P2/m P21/m C2/m P2/c P21/c C2/c "
    ).split(),
    "orthorhombic": (
        "P222 P2221 P21212 P212121 C2221 C222 F222 I222 I212121 Pmm2 Pmc21 Pcc2 Pma2 Pca21 Pnc2 Pmn21 Pba2 "
        "Pna21 Pnn2 Cmm2 Cmc21 Ccc2 Amm2 Abm2 Ama2 Aba2 Fmm2 Fdd2 Imm2 Iba2 Ima2 Pmmm Pnnn Pccm Pban Pmma "
        "Pnna Pmna Pcca Pbam Pccn Pbcm Pnnm Pmmn Pbcn Pbca Pnma Cmcm Cmca Cmmm Cccm Cmma Ccca Fmmm Fddd Immm "
        "Ibam Ibca Imma "
    ).split(),
    "tetragonal": (
        "P4 P41 P42 P43 I4 I41 P-4 I-4 P4/m P42/m P4/n P42/n I4/m I41/a P422 P4212 P4122 P41212 P4222 P42212 "
        "P4322 P43212 I422 I4122 P4mm P4bm P42cm P42nm P4cc P4nc P42mc P42bc I4mm I4cm I41md I41cd P-42m "
        "P-42c P-421m P-421c P-4m2 P-4c2 P-4b2 P-4n2 I-4m2 I-4c2 I-42m I-42d P4/mmm P4/mcc P4/nbm P4/nnc "
        "P4/mbm P4/mnc P4/nmm P4/ncc P42/mmc P42/mcm P42/nbc P42/nnm P42/mbc P42/mnm P42/nmc P42/ncm I4/mmm "
        "I4/mcm I41/amd I41/acd "
    ).split(),
    "trigonal": (
        "P3 P31 P32 R3 P-3 R-3 P312 P321 P3112 P3121 P3212 P3221 R32 P3m1 P31m P3c1 P31c R3m R3c P-31m P-31c "
        "P-3m1 P-3c1 R-3m R-3c "
    ).split(),
    "hexagonal": (
        "P6 P61 P65 P62 P64 P63 P-6 P6/m P63/m P622 P6122 P6522 P6222 P6422 P6322 P6mm P6cc P63cm P63mc P-6m2 "
        "P-6c2 P-62m P-62c P6/mmm P6/mcc P63/mcm P63/mmc "
    ).split(),
    "cubic": (
        "P23 F23 I23 P213 I213 Pm-3 Pn-3 Fm-3 Fd-3 Im-3 Pa-3 Ia-3 P432 P4232 F432 F4132 I432 P4332 P4132 "
        "I4132 P-43m F-43m I-43m P-43n F-43c I-43d Pm-3m Pn-3n Pm-3n Pn-3m Fm-3m Fm-3c Fd-3m Fd-3c Im-3m "
        "Ia-3d "
    ).split(),
}


@st.composite
def cell(draw, lo=2.5, hi=8.0, systems=None):
    """[a, b, c, alpha, beta, gamma], space group name"""
    system = draw(st.sampled_from(systems or sorted(SPACE_GROUPS)))
    group = draw(st.sampled_from(SPACE_GROUPS[system]))
    L = num(lo, hi, special=(4.0, 5.0, 3.5))
    a, b, c = draw(L), draw(L), draw(L)
    if system == "triclinic":
        al, be = draw(even(65, 115)), draw(even(65, 115))
        ga = draw(even(65, 115))
        u = [a, b, c, al, be, ga]
    elif system == "monoclinic":
        u = [a, b, c, 90.0, draw(even(70, 120)), 90.0]
    elif system == "orthorhombic":
        u = [a, b, c, 90.0, 90.0, 90.0]
    elif system == "tetragonal":
        u = [a, a, c, 90.0, 90.0, 90.0]
    elif system in ("trigonal", "hexagonal"):
        u = [a, a, c, 90.0, 90.0, 120.0]
    else:
        u = [a, a, a, 90.0, 90.0, 90.0]
    return {"cell": [float(x) for x in u], "sg": group}


# ---------------------------------------------------------------- meshes
def tets(seed, n, scale=1.0, spread=0.0, shared=False, min_quality=0.05):
    """n random tetrahedra of about the given size, centres spread over a box; coord, enod."""
    rng = np.random.default_rng(seed)
    coord = []
    for _ in range(n):
        c = rng.uniform(-1, 1, 3) * spread
        for _try in range(100):
            p = rng.normal(size=(4, 3)) * scale * 0.5
            vol = abs(np.linalg.det(p[1:] - p[0])) / 6
            if vol > min_quality * (scale * 0.5) ** 3:
                break
        coord.append(p + c)
    coord = np.concatenate(coord)
    enod = np.arange(4 * n).reshape(n, 4)
    if shared and n > 1:
        # glue element i to a face of element i - 1
        pts = [p for p in coord[:4]]
        en = [[0, 1, 2, 3]]
        for i in range(1, n):
            a, b, c_, d = en[-1]
            keep = [b, c_, d]
            P = [pts[k] for k in keep]
            nrm = np.cross(P[1] - P[0], P[2] - P[0])
            nrm /= np.linalg.norm(nrm)
            mid = sum(P) / 3
            if np.dot(pts[a] - mid, nrm) > 0:
                nrm = -nrm
            pts.append(mid + nrm * scale * rng.uniform(0.4, 1.2))
            en.append(keep + [len(pts) - 1])
        coord, enod = np.array(pts), np.array(en)
    perm = rng.permutation(4)
    return coord, enod[:, perm]


# ---------------------------------------------------------------- crystal structures
ELEMENTS = ["H", "C", "O", "Na", "Mg", "Al", "Si", "Cl", "Ti", "Fe", "Ni", "Cu", "Zn", "Mo", "Ag", "Au", "Pb"]


@st.composite
def structure(draw, max_atoms=4, systems=None, lo=2.5, hi=7.0):
    """A cell with atoms: el, pos, occ, adp (kind and values); dispersion per element, or None."""
    c = draw(cell(lo=lo, hi=hi, systems=systems))
    n = draw(st.integers(1, max_atoms))
    grid = st.integers(0, 23).map(lambda k: k / 24.0)
    eighth = st.integers(0, 7).map(lambda k: k / 8.0)
    free = st.integers(1, 999999).map(lambda k: ((k * k * k * 613651 + 7 * k) % 1000003) / 1000003.0)
    free = free.map(lambda x: round(x, 6))
    atoms = []
    for _ in range(n):
        kind = draw(st.sampled_from(["free", "free", "grid", "eighth", "mixed"]))
        u = dict(free=free, grid=grid, eighth=eighth, mixed=st.one_of(free, eighth))[kind]
        adp = draw(st.sampled_from(["none", "Uiso", "Uiso", "Biso", "Uani", "Bani"]))
        atoms.append(dict(
            el=draw(st.sampled_from(ELEMENTS)), pos=[draw(u) for _ in range(3)], kind=kind,
            occ=draw(st.one_of(st.just(1.0), even(0.05, 1.0).map(lambda x: round(x, 4)))), adp=adp,
            u=[round(draw(even(0.001, 0.05)), 5) for _ in range(3)] + [round(draw(even(-0.0005, 0.0005)), 6) for _ in range(3)]))
    disp = {}
    mode = draw(st.sampled_from(["none", "some", "all"]))
    for e in sorted({a["el"] for a in atoms}):
        if mode == "all" or (mode == "some" and draw(st.booleans())):
            disp[e] = [round(draw(even(-3, 1)), 4), round(draw(even(0, 5)), 4)]
    return dict(c, atoms=atoms, dispersion=disp if mode != "none" else None, multi=draw(st.booleans()))
