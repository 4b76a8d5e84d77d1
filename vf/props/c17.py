"""C17: rendered peaks are centred where their ray meets the detector, symmetric, and cut off at the edges."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy.special import j1

from vf import gen, ref, rend, world
from vf.core import Reject, arr, check, close, component
from vf.props.c16 import margin_of, UV

P = "C17"


@st.composite
def position_case(draw):
    method = draw(st.sampled_from(["micro", "nano", "macro"]))
    size = dict(micro=(26, 40), nano=(50, 72), macro=(34, 50))[method]
    sigma = st.sampled_from([1.0, 1.0, 0.3, 0.6, 2.0, 2.5]) if method != "nano" else st.sampled_from([1.0, 0.3, 0.6, 1.5])
    d = draw(rend.detectors(lo=size[0], hi=size[1], sigma=sigma))
    p = draw(rend.peak(UV))
    if method == "nano":
        p["fwhm"] = draw(st.one_of(gen.log(0.02, 2.5), gen.log(0.3, 0.6)))
    return dict(method=method, detector=d, peak=p, grain=draw(st.one_of(gen.log(0.02, 6.0), gen.log(4, 16))), snap=draw(st.sampled_from([True, False, False])),
                motion=draw(world.motions(shift=0.01, origin=0.01)))


@component(P, "centroid", position_case(), 2400, 30000,
           "an isolated peak at a sub-pixel position; centroid of the frame against the point where the ray (or the shadow of the "
           "element) meets the detector; on whole pixels also the symmetry and the width")
def centroid(case, ctx):
    method, d = case["method"], case["detector"]
    p = dict(case["peak"])
    pz, py = rend.pixel_sizes(d)
    if method == "macro":
        p["volume"] = (case["grain"] * max(pz, py)) ** 3 * 0.12
    pos = np.array(rend.positions(d, p, 13 if method == "macro" else margin_of(method, d, p["fwhm"])))
    if case["snap"]:
        pos = np.round(pos)
    motion = dict(case["motion"])
    motion["translation"] = [x * max(d["size"]) for x in motion["translation"]]
    motion["origin"] = [x * max(d["size"]) for x in motion["origin"]]
    S = rend.fitted(d, p, pos, motion, 9.5) if method == "macro" else rend.Scene(d, [p], [pos], motion=motion)
    F = arr(S.render(method))[0]
    check(F.sum() > 0, "an isolated peak is not rendered", "rendered")
    got = rend.centroid(F)
    s = d["gaussian_sigma"]
    if method == "micro":
        close(got, pos, "centroid of a micro peak", 0, 0.03, sig="centroid micro")
    elif method == "nano":
        close(got, pos, "centroid of a nano peak", 0, 1e-5, sig="centroid nano")
    else:
        # mass centre of the element at the time of the peak, along the scattered ray
        x = ref.move(S.motion, S.V[0], p["time"]).mean(axis=0)
        _, a, b = ref.ray_hit(world.detector_corners(d), x, S.K[0])
        c = np.array([a / pz, b / py])
        corners = np.array([ref.ray_hit(world.detector_corners(d), v, S.K[0])[1:] for v in ref.move(S.motion, S.V[0], p["time"])]) / [pz, py]
        width = np.ptp(corners, axis=0)
        off = got - c
        # (one ray per pixel: a narrow shadow is hit by few of them)
        slack = 0.0 if width.min() > 6 else 0.3 * width
        check(np.all(np.abs(off) <= 1.0 + slack), "centroid of a macro peak is off by %s pixels (shadow of %s pixels)" % (off.tolist(), width.tolist()), "centroid macro")
        if width.min() > 6:
            check(np.all(np.abs(off) <= 0.8), "centroid of a large macro peak is off by %s pixels (shadow of %s pixels)" % (off.tolist(), width.tolist()), "centroid large macro")
            ctx.event("macro, large shadow")
        # all of it inside of the shadow, widened by a pixel and the point spread
        r = np.nonzero(F)
        for axis in (0, 1):
            check(r[axis].min() >= math.floor(corners[:, axis].min()) - 3 and r[axis].max() <= math.floor(corners[:, axis].max()) + 3,
                  "intensity beside the shadow of the element", "inside the shadow")
    if case["snap"] and method != "macro":
        i, j = int(pos[0]), int(pos[1])
        w = int(margin_of(method, d, p["fwhm"])) - 2
        W = F[max(0, i - w):i + w + 1, max(0, j - w):j + w + 1]
        if W.shape == (2 * w + 1, 2 * w + 1):
            tol = 1e-6 * W.max()
            close(W, W[::-1], "mirror image of a peak on a whole pixel", 1e-4, tol, sig="symmetry " + method)
            close(W, W[:, ::-1], "mirror image of a peak on a whole pixel", 1e-4, tol, sig="symmetry " + method)
            close(W, W.T, "transposed peak on a whole pixel", 1e-4, tol, sig="symmetry " + method)
            check(W.argmax() == W.size // 2, "the maximum is not at the position of the peak", "maximum")
            ctx.event("symmetry of %s" % method)
    if method == "micro":
        var = 0.7**2 + s**2
        close(rend.spread_of(F), [var, var], "variance of a micro peak", 0.08, 0.01, sig="width micro")
    ctx.nontrivial(np.any(np.abs(pos - np.round(pos)) > 0.01))
    ctx.event("method %s" % method)


@st.composite
def width_case(draw):
    d = draw(rend.detectors(lo=65, hi=65, sigma=st.sampled_from([0.05, 0.05, 0.7, 1.2]), aspect=False))
    d["kernel_threshold"] = draw(st.sampled_from([0.02, 1e-3]))
    p = draw(rend.peak(st.just([0.5, 0.5])))
    p["fwhm"] = draw(gen.log(0.5, 3.0))
    return dict(detector=d, peak=p)


@component(P, "width", width_case(), 500, 8000,
           "a small crystal with a broadening above the pixel size: the profile around the peak is the Airy function with the "
           "Scherrer width on the detector plane, smeared by the point spread function")
def width(case, ctx):
    d, p = case["detector"], case["peak"]
    s, thr = d["gaussian_sigma"], d["kernel_threshold"]
    S = rend.Scene(d, [p], [[32.0, 32.0]])
    F = arr(S.render("nano"))[0]
    W = F / F.sum()
    # the library takes the distance of the detector corner for the path of the ray: between the two
    c0 = np.linalg.norm(rend.plane(d)[0])
    actual = S.path[0] / c0
    first_zero = p["fwhm"] * 1.1861
    n = np.arange(-32, 33)
    r = np.hypot(*np.meshgrid(n, n, indexing="ij"))
    lo, hi = sorted((min(1.0, actual) * 0.97, max(1.0, actual) * 1.03))
    # spread function of the detector, at most 5 x 5 pixels
    g = np.exp(-np.hypot(*np.meshgrid(n[30:35], n[30:35], indexing="ij")) ** 2 / (2 * s * s))
    if math.exp(-1 / (2 * s * s)) < thr / 2:
        g[[0, 4]] = 0
        g[:, [0, 4]] = 0
    # half width along the axes: a smooth measure of the broadening
    def half(img):
        c = img[32, 32:] / img[32, 32]
        k = int(np.argmax(c < 0.5))
        return k - 1 + (c[k - 1] - 0.5) / (c[k - 1] - c[k])

    def model(fz):
        x = np.where(r == 0, 1e-10, 3.8317 * r / fz)
        A = (2 * j1(x) / x) ** 2
        if fz < s:
            A = A * np.exp(-r * r / (2 * s * s))
        from scipy.signal import convolve2d
        return convolve2d(A, g / g.sum(), mode="same")

    h = half(W)
    a, b = half(model(first_zero * lo)), half(model(first_zero * hi))
    check(min(a, b) * 0.95 - 0.03 <= h <= max(a, b) * 1.05 + 0.03, "half width of the peak %.4g pixels, expected %.4g to %.4g" % (h, a, b), "airy width")
    close(half(W.T), h, "half widths along rows and columns", 1e-3, 1e-3, sig="isotropic")
    ctx.nontrivial(p["fwhm"] > 0.7)
    ctx.event("broadening %s" % ("> spread" if first_zero > s else "< spread"))


@st.composite
def edge_case(draw):
    method = draw(st.sampled_from(["micro", "nano", "macro"]))
    d = draw(rend.detectors(lo=14, hi=30, sigma=st.sampled_from([1.0, 0.3, 0.6, 2.0])))
    n = draw(st.integers(1, 3))
    spot = st.sampled_from([0.0, 1.0, 0.02, 0.98, 0.5])
    at = st.one_of(st.lists(gen.even(0, 1), min_size=2, max_size=2), st.tuples(spot, spot).map(list), st.tuples(spot, gen.even(0, 1)).map(list))
    peaks = [draw(rend.peak(at)) for _ in range(n)]
    fine = draw(gen.log(0.05, 1.5))
    for p in peaks:
        p["fwhm"] = fine
    return dict(method=method, detector=d, peaks=peaks, extend=[draw(st.integers(0, 14)), draw(st.integers(0, 14))], low=draw(st.booleans()), grain=draw(gen.log(0.3, 8.0)))


@component(P, "edges", edge_case(), 2000, 20000,
           "peaks close to the edges: the frame is the one of a larger detector with the same pixels, cut to the smaller one "
           "(intensity beside the detector is lost and appears nowhere else)")
def edges(case, ctx):
    method, d = case["method"], case["detector"]
    pz, py = rend.pixel_sizes(d)
    nz, ny = d["pixels"]
    peaks = [dict(p) for p in case["peaks"]]
    if method == "macro":
        for p in peaks:
            p["volume"] = (case["grain"] * max(pz, py)) ** 3 * 0.12
    ez, ey = max(1, case["extend"][0]), max(1, case["extend"][1])
    c0, c1, c2 = world.detector_corners(d)
    z, y = (c2 - c0) / np.linalg.norm(c2 - c0), (c1 - c0) / np.linalg.norm(c1 - c0)
    # the corner at the origin sets the width of the kernels of small crystals: keep it, or use narrow ones
    low = case["low"] and (method != "nano" or peaks[0]["fwhm"] * 1.1861 < 0.45)
    lz, ly = (ez, ey) if low else (0, 0)
    pos = [[p["pos"][0] * nz, p["pos"][1] * ny] for p in peaks]
    pos = [[min(max(a, 1e-6), nz - 1e-6), min(max(b, 1e-6), ny - 1e-6)] for a, b in pos]
    S = rend.Scene(d, peaks, pos)
    small = arr(S.render(method))[0]
    from xrd_simulator.detector import Detector
    o = c0 - lz * pz * z - ly * py * y
    big = Detector(o, o + (ny + ly + ey) * py * y, o + (nz + lz + ez) * pz * z, n_pixels=(nz + lz + ez, ny + ly + ey),
                   gaussian_sigma=d["gaussian_sigma"], kernel_threshold=d["kernel_threshold"])
    full = arr(big.render(S.peaks(), method=method, verbose=False)[0])[0]
    cut = full[lz:lz + nz, ly:ly + ny]
    top = full.max() + 1e-300
    check(np.isfinite(small).all() and small.min() >= 0, "negative or non finite pixels", "finite")
    # (the shadow of a small element is sampled at random)
    # (the window around a micro peak half way between two pixels may be that of either)
    check(small.sum() <= (full.sum() if method != "macro" else pz * py * (S.volumes * S.expected_factor).sum()) * (1 + (4e-3 if method == "micro" else 1e-4)), "the smaller detector records more intensity", "not more")
    if method == "micro":
        # (the window around a peak may move by a pixel when the corner moves: the tails differ)
        close(small, cut, "frame and cut from a larger detector", 1e-5, 3e-3 * top, sig="cut micro")
    elif method == "nano":
        # the spread function carries no intensity over the edges
        check(np.all(small <= cut * (1 + 1e-7) + 1e-9 * top), "a pixel at the edge gained intensity", "gain nano")
        w = 2
        close(small[w:-w, w:-w], cut[w:-w, w:-w], "frame and cut from a larger detector", 1e-7, 1e-9 * top, sig="cut nano")
    else:
        # only shadows that are traced, not sampled
        box = []
        for i, p in enumerate(peaks):
            c = np.array([ref.ray_hit((c0, c1, c2), v, S.K[i])[1:] for v in ref.move(S.motion, S.V[i], p["time"])]) / [pz, py]
            inside = np.clip(np.stack([c.min(axis=0), c.max(axis=0)]), 0, [nz, ny])
            span = np.floor(inside[1]) - np.floor(inside[0]) + 1
            box.append((np.prod(span), (c.max(axis=0) - c.min(axis=0)).min(), np.all(c >= 0) and np.all(c <= [nz, ny])))
        if all(b[0] > 12 and b[1] > 4.5 for b in box):
            k = 0.35 if not all(b[2] for b in box) else 1e-6
            w = 2
            diff = np.abs(small - cut)[w:-w, w:-w].max()
            check(diff <= k * top, "a pixel differs by %.3g of the maximum from that of a larger detector" % (diff / top), "cut macro")
            if k > 1e-3 and cut.sum() > 0.02 * full.sum():
                # the share on the detector, to the accuracy of the ray tracing of a shadow of a few pixels
                total = pz * py * (S.volumes * S.expected_factor).sum()
                check(small.sum() <= cut.sum() * 1.25 + 0.08 * total and small.sum() >= 0.75 * cut.sum() - 0.12 * total,
                      "%.3g of the intensity is on the smaller detector, expected %.3g" % (small.sum() / total, cut.sum() / total), "share macro")
            ctx.event("macro shadow %s" % ("over the edge" if k > 1e-3 else "inside"))
        else:
            ctx.event("macro shadow small")
    lost = full.sum() - cut.sum() > 1e-3 * full.sum()
    ctx.nontrivial(lost)
    ctx.event("method %s, %s" % (method, "cut off" if lost else "inside"))


@st.composite
def large_case(draw):
    method = draw(st.sampled_from(["micro", "nano", "macro"]))
    d = draw(rend.detectors(lo=60, hi=90, sigma=st.sampled_from([1.0, 0.3, 0.6, 2.0])))
    old = list(d["pixels"])
    d["pixels"] = [draw(st.one_of(st.integers(60, 400), st.integers(900, 2200))), draw(st.integers(60, 400))]
    if draw(st.booleans()):
        d["pixels"].reverse()
    # as many pixels of the same size, at a distance in proportion
    grow = max(d["pixels"]) / max(old)
    d["size"] = [d["size"][0] * d["pixels"][1] / old[1], d["size"][1] * d["pixels"][0] / old[0]]
    d["shift"] = [d["shift"][0] * d["pixels"][1] / old[1], d["shift"][1] * d["pixels"][0] / old[0]]
    d["distance"] *= grow
    peaks = [draw(rend.peak(UV)) for _ in range(draw(st.integers(1, 3)))]
    for p in peaks:
        p["fwhm"] = peaks[0]["fwhm"] if method != "nano" else min(2.0, peaks[0]["fwhm"])
    return dict(method=method, detector=d, peaks=peaks, grain=draw(gen.log(6, 14)))


@component(P, "large", large_case(), 400, 6000,
           "peaks on a detector with many pixels (up to 2200 along an axis): every one at its own position, far from the corner at the "
           "origin, and nothing elsewhere")
def large(case, ctx):
    method, d = case["method"], case["detector"]
    pz, py = rend.pixel_sizes(d)
    peaks, pos = [], []
    for q in case["peaks"]:
        p = dict(q)
        if method == "macro":
            p["volume"] = (case["grain"] * max(pz, py)) ** 3 * 0.12
        margin = 14 if method == "macro" else margin_of(method, d, p["fwhm"])
        x = np.array(rend.positions(d, p, margin))
        if method == "macro":
            S = rend.fitted(d, p, x, None, 9.5)
        if all(np.abs(x - y).max() > 2 * margin + 4 for y in pos):
            peaks.append(p)
            pos.append(x)
    S = rend.Scene(d, peaks, pos)
    F = arr(S.render(method))[0]
    check(F.shape == tuple(d["pixels"]), "shape of the frame")
    rest = F.copy()
    for i, x in enumerate(pos):
        m = int(margin_of(method, d, peaks[i]["fwhm"])) if method != "macro" else 14
        c = np.round(x).astype(int)
        lo = np.maximum(c - m - 1, 0)
        part = tuple(slice(a, b + m + 2) for a, b in zip(lo, c))
        W = F[part]
        check(W.sum() > 0, "peak %d at pixel %s is not rendered" % (i, x.tolist()), "rendered")
        off = rend.centroid(W) + lo - x
        if method == "macro":
            v = ref.move(S.motion, S.V[i], peaks[i]["time"])
            _, a, b = ref.ray_hit(world.detector_corners(d), v.mean(axis=0), S.K[i])
            off = rend.centroid(W) + lo - [a / pz, b / py]
            width = np.ptp(rend.shadow(S, i), axis=0)
            ok = np.all(np.abs(off) <= 1.0 + (0.0 if width.min() > 6 else 0.3 * width))
        else:
            ok = np.abs(off).max() <= (0.03 if method == "micro" else 2e-4)
        check(ok, lambda: "peak at pixel %s is off by %s pixels" % (x.tolist(), off.tolist()), "position " + method)
        rest[part] = 0
    check(rest.max() <= 1e-7 * F.max(), lambda: "intensity %.3g of the maximum far from any peak" % (rest.max() / F.max()), "nothing elsewhere")
    ctx.nontrivial(max(np.max(x) for x in pos) > 150)
    ctx.event("method %s" % method)
