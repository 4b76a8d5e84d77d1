"""C05: rigid body motions rotate and translate points exactly as defined."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from vf import gen, ref, world
from vf.core import arr, check, close, component, priv

P = "C05"


@st.composite
def call_case(draw):
    scale = draw(st.sampled_from([1.0, 1e-3, 1e4]))
    m = draw(world.motions(shift=scale, origin=scale))
    m["translation"] = draw(st.sampled_from([m["translation"], [0.0, 0.0, 0.0]]))
    m["origin"] = draw(st.sampled_from([m["origin"], [0.0, 0.0, 0.0]]))
    return dict(motion=m, scale=scale, seed=draw(gen.seeds), shape=draw(st.sampled_from(["v", "n", "n", "nm"])),
                n=draw(gen.rarely(25, st.sampled_from([300, 2500]), st.sampled_from([1, 2, 3, 3, 4, 7]))), m=draw(st.sampled_from([1, 3, 4])), form=draw(st.sampled_from(["scalar", "torch0", "one", "many"])),
                time=draw(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), gen.even(0, 1))), as_torch=draw(st.booleans()))


def times_of(case, n, rng):
    f = case["form"]
    if case["shape"] == "nm":
        f = "many"
    if case["shape"] == "v" and f == "many":
        f = "torch0"
    if f == "scalar":
        return case["time"], np.full(n, case["time"])
    if f == "torch0":
        return torch.tensor(case["time"]), np.full(n, case["time"])
    if f == "one":
        if case["shape"] == "v" or n != 1:
            return case["time"], np.full(n, case["time"])
        return np.array([case["time"]]), np.full(n, case["time"])
    t = rng.uniform(0, 1, n)
    t[0] = case["time"]
    return (torch.tensor(t) if case["as_torch"] else t), t


def points(case, rng):
    shape = {"v": (3,), "n": (case["n"], 3), "nm": (case["n"], case["m"], 3)}[case["shape"]]
    x = rng.normal(size=shape) * case["scale"]
    return x, (torch.tensor(x) if case["as_torch"] else x.copy())


@component(P, "call", call_case(), 5000, 80000,
           "a motion by a time in (0, 1] applied to points in one of the supported shapes; compared with a quaternion "
           "reference point by point, and distances and handedness are preserved")
def call(case, ctx):
    rng = np.random.default_rng(case["seed"])
    m, tol = case["motion"], 1e-9 * case["scale"] * 10
    x, given = points(case, rng)
    n = 1 if case["shape"] == "v" else case["n"]
    t, tt = times_of(case, n, rng)
    M = world.make_motion(m)
    flat = x.reshape(n, -1, 3)
    expected = np.array([ref.move(m, flat[i], tt[i]) for i in range(n)]).reshape(x.shape)
    turned = np.array([ref.move(dict(m, origin=[0, 0, 0], translation=[0, 0, 0]), flat[i], tt[i]) for i in range(n)]).reshape(x.shape)
    got = arr(M(given, t))
    close(got, expected, "moved points", 1e-9, tol)
    close(arr(given), x, "points after the call", 0, 0)
    if case["shape"] != "nm":
        close(M.rotate(given, t), turned, "rotated points", 1e-9, tol)
    # handedness and distances, without the reference
    if case["shape"] == "nm" and case["m"] == 4:
        a, b = np.linalg.det(x[:, 1:] - x[:, :1]), np.linalg.det(got[:, 1:] - got[:, :1])
        close(b, a, "signed volume", 1e-7, 1e-9 * case["scale"] ** 3)
    # one call equals point by point calls
    if case["shape"] == "n":
        for i in range(n) if n < 20 else (0, n // 3, n - 1):
            close(M(x[i], float(tt[i])), got[i], "point by point", 1e-9, tol)
    # repeated calls
    close(M(given, t), got, "second call", 1e-13, 1e-14 * case["scale"])
    # time zero
    zero = 0.0 if case["shape"] != "nm" else np.zeros(n)
    close(M(given, zero), x, "time zero", 1e-12, 1e-12 * case["scale"] * 10)
    ctx.nontrivial(np.any(tt > 0))
    ctx.event("shape %s" % case["shape"])
    if n > 20:
        ctx.event("many points")
    ctx.event("time %s" % ("array" if np.ndim(arr(t)) else "scalar"))


@component(P, "translate", call_case(), 2500, 30000,
           "a non-zero translation by a time in (0, 1]; every row is shifted by its fraction, without any rotation")
def translate(case, ctx):
    rng = np.random.default_rng(case["seed"])
    m = case["motion"]
    M = world.make_motion(m)
    t = case["time"]
    shift = np.array(m["translation"]) * t
    if case["shape"] == "v":
        x = rng.normal(size=3) * case["scale"]
        close(M.translate(x, t), x + shift, "translated vector", 1e-9, 1e-10 * case["scale"])
    elif case["shape"] == "n" and case["n"] != 3:
        x = rng.normal(size=(case["n"], 3)) * case["scale"]
        close(M.translate(x, t), x + shift, "translated rows", 1e-9, 1e-10 * case["scale"])
    else:
        x = rng.normal(size=(3, case["n"])) * case["scale"]
        close(M.translate(x, t), x + shift[:, None], "translated columns", 1e-9, 1e-10 * case["scale"])
    ctx.nontrivial(np.abs(shift).max() > 0)


@st.composite
def inverse_case(draw):
    c = draw(call_case())
    c["kind"] = draw(st.sampled_from(["rotation", "along axis"]))
    return c


@component(P, "inverse", inverse_case(), 2500, 30000,
           "a rotation about a shifted origin, or a screw along its axis, followed by its inverse")
def inverse(case, ctx):
    rng = np.random.default_rng(case["seed"])
    m = dict(case["motion"])
    m["translation"] = [0.0] * 3 if case["kind"] == "rotation" else [x * case["scale"] for x in m["axis"]]
    M = world.make_motion(m)
    I = M.inverse()
    x = rng.normal(size=(case["n"], 3)) * case["scale"]
    t = case["time"]
    close(I(M(x, t), t), x, "motion and inverse", 1e-8, 1e-9 * case["scale"] * 10)
    close(M(I(x, t), t), x, "inverse and motion", 1e-8, 1e-9 * case["scale"] * 10)
    II = I.inverse()
    close(II(x, t), M(x, t), "inverse of the inverse", 1e-9, 1e-9 * case["scale"])
    close(M.rotation_axis, m["axis"], "axis after inverse()", 0, 1e-15)
    close(M.translation, m["translation"], "translation after inverse()", 0, 1e-15)
    # the inverse of the parts of a general motion
    g = world.make_motion(case["motion"])
    gi = g.inverse()
    close(gi.rotate(g.rotate(x, t), t), x, "rotation part and inverse", 1e-8, 1e-9 * case["scale"] * 10)
    if case["n"] != 3:
        close(gi.translate(g.translate(x, t), t), x, "translation part and inverse", 1e-8, 1e-9 * case["scale"] * 10)
    ctx.nontrivial(t > 0)


@st.composite
def sequence_case(draw):
    return dict(motion=draw(world.motions(shift=1.0, origin=1.0)), seed=draw(gen.seeds), a=draw(gen.even(0, 1)), b=draw(gen.even(0, 1)))


@component(P, "additive", sequence_case(), 1500, 20000,
           "two different times; rotations by t1 and t2 compose, get_rotation_matrix is orthogonal with determinant one")
def additive(case, ctx):
    m = case["motion"]
    M = world.make_motion(m)
    x = np.random.default_rng(case["seed"]).normal(size=(5, 3))
    a, b = case["a"] / 2, case["b"] / 2
    close(M.rotate(M.rotate(x, a), b), M.rotate(x, a + b), "composition of rotations", 1e-9, 1e-10)
    axis = np.array(m["axis"])
    close(M.rotate(axis, a), axis, "rotation axis is fixed", 1e-9, 1e-10)
    y = arr(M.rotate(x, a))
    close(y @ axis, x @ axis, "component along the axis", 1e-9, 1e-10)
    close(np.linalg.norm(y, axis=1), np.linalg.norm(x, axis=1), "length", 1e-10, 1e-12)
    rotator = getattr(M, "rotator", None)
    if rotator is not None and hasattr(rotator, "get_rotation_matrix"):
        ang = torch.tensor([case["a"], case["b"], 0.0]) * m["angle"]
        R = arr(rotator.get_rotation_matrix(ang))
        for i in range(3):
            close(R[i], ref.rot(m["axis"], float(ang[i])), "rotation matrix", 1e-9, 1e-10)
        close(rotator.get_rotation_matrix(ang[0]), R[0], "rotation matrix of a scalar", 0, 1e-14)
    ctx.nontrivial(abs(a - b) > 1e-3 and a > 0 and b > 0)
