"""C16: the intensity of a peak is the product of the enabled factors, and is conserved by every renderer."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from vf import gen, ref, rend, world
from vf.core import Reject, arr, check, close, component

P = "C16"

UV = st.lists(gen.even(0.0, 1.0), min_size=2, max_size=2)


def margin_of(method, d, fwhm=0.0):
    """Pixels between a peak and the edge such that nothing of it is lost there."""
    s = d["gaussian_sigma"]
    if method == "micro":
        return max(3, int(3 * math.hypot(0.7, s)) + 1) + 1
    if method == "macro":
        return 9
    # the kernel covers four first zeros of the Airy function, at least eight pixels, or more when the spread is wide
    r = max(8.0, 4 * 1.19 * fwhm)
    for _ in range(8):
        if r > 3.5 * s * math.sqrt(2 * math.log(2 / d["kernel_threshold"])) / 3 + 1:
            break
        r *= 2
    return min(r, 128) + 5


@st.composite
def total_case(draw):
    method = draw(st.sampled_from(["micro", "nano", "macro"]))
    size = dict(micro=(26, 40), nano=(50, 72), macro=(34, 50))[method]
    sigma = st.sampled_from([1.0, 1.0, 0.3, 0.6, 2.0, 2.5]) if method != "nano" else st.sampled_from([1.0, 0.3, 0.6, 1.5])
    d = draw(rend.detectors(lo=size[0], hi=size[1], sigma=sigma, flags=True))
    p = draw(rend.peak(UV))
    if method == "nano":
        p["fwhm"] = draw(st.one_of(gen.log(0.02, 2.5), gen.log(0.3, 0.6)))
    p["pos"] = draw(st.sampled_from([p["pos"], [0.5, 0.5], [0.0, 1.0]]))
    return dict(method=method, detector=d, peak=p, grain=draw(gen.log(0.02, 5.0)), snap=draw(st.booleans()),
                dtype=draw(st.sampled_from([None, None, "float32", "float64"])), motion=draw(world.motions(shift=0.01, origin=0.01)))


def limits(method, d):
    """Bounds of the rendered share of the intensity."""
    if method == "nano":
        return 1 - d["kernel_threshold"] - 1e-9, 1 + 1e-9
    if method == "micro":
        return 1 - 2e-3, 1 + 1e-6
    return 1 - 2e-4, 1 + 2e-4


@component(P, "total", total_case(), 1600, 24000,
           "an isolated peak away from the edges, with factors and volume different from one; the sum of the frame is the volume "
           "times exactly the enabled factors, within the stated kernel cut off")
def total(case, ctx):
    method, d = case["method"], case["detector"]
    p = dict(case["peak"])
    pz, py = rend.pixel_sizes(d)
    if method == "macro":
        p["volume"] = (case["grain"] * max(pz, py)) ** 3 * 0.12
    fw = p["fwhm"]
    pos = rend.positions(d, p, margin_of(method, d, fw))
    if case["snap"]:
        pos = [round(x) for x in pos]
    motion = dict(case["motion"])
    motion["translation"] = [x * max(d["size"]) for x in motion["translation"]]
    motion["origin"] = [x * max(d["size"]) for x in motion["origin"]]
    S = rend.fitted(d, p, pos, motion) if method == "macro" else rend.Scene(d, [p], [pos], motion=motion)
    kw = {} if case["dtype"] is None else dict(render_dtype=getattr(torch, case["dtype"]))
    F = S.render(method, **kw)
    check(str(F.dtype) == "torch." + (case["dtype"] or "float64"), "frames have dtype %s" % F.dtype, "dtype")
    F = arr(F).astype(float)
    check(F.shape == (1,) + tuple(d["pixels"]), "frames of shape %s" % (F.shape,), "shape")
    check(np.isfinite(F).all() and F.min() >= 0, "negative or non finite pixels", "finite")
    expected = S.expected_factor[0] * S.volumes[0]
    if method == "macro":
        expected *= pz * py
    lo, hi = limits(method, d)
    eps = 1e-4 if case["dtype"] == "float32" else 0
    # the lost part of a nano kernel that is limited to 128 pixels is normalised, not lost
    share = F.sum() / expected
    check(lo - eps <= share <= hi + eps, "%s: the frame holds %.9g of the intensity of the peak, not %.9g..%.9g" % (method, share, lo, hi), "total of " + method)
    ctx.nontrivial(np.any(S.factors[0] != 1))
    ctx.event("%s, flags %s" % (method, "".join("ny"[int(d.get(f, True))] for f in ("use_structure_factor", "use_polarization", "use_lorentz"))))
    ctx.event("%s grain %s" % (method, "< pixel" if case["grain"] < 1 else "> pixel") if method == "macro" else
              "%s first zero %s" % (method, "< 0.5 pixel" if fw * 1.1861 < 0.5 else ">= 0.5 pixel") if method == "nano" else "micro")


@st.composite
def many_case(draw):
    method = draw(st.sampled_from(["micro", "nano", "macro"]))
    d = draw(rend.detectors(lo=16, hi=34, flags=True))
    n = draw(st.integers(2, 7))
    peaks = [draw(rend.peak(UV)) for _ in range(n)]
    one = draw(gen.log(0.05, 2.0))
    for p in peaks:
        p["fwhm"] = one
    if draw(st.booleans()):
        # peaks that overlap
        for p in peaks[1:]:
            p["pos"] = [min(1.0, max(0.0, x + (y - 0.5) * 0.06)) for x, y in zip(peaks[0]["pos"], p["pos"])]
    return dict(method=method, detector=d, peaks=peaks, grain=draw(gen.log(4.5, 8.0)), factor=draw(gen.log(1e-6, 1e6)), which=draw(st.sampled_from(["sf", "pol", "lorentz", "volume"])))


@component(P, "additive", many_case(), 900, 14000,
           "several peaks, also overlapping and at the edges: the frame is the sum of the frames of each peak and scales with its "
           "factors; permuting the peaks changes nothing")
def additive(case, ctx):
    method, d = case["method"], case["detector"]
    peaks = [dict(p) for p in case["peaks"]]
    pz, py = rend.pixel_sizes(d)
    if method == "macro":
        for p in peaks:
            p["volume"] = (case["grain"] * max(pz, py)) ** 3 * 0.12
    m = 8.0 if method == "macro" else 0.0
    pos = [rend.positions(d, p, m) for p in peaks]
    S = rend.Scene(d, peaks, pos)
    F = arr(S.render(method))[0]
    if method == "macro" and np.any((S.pos < 7) | (S.pos > np.array(d["pixels"]) - 8)):
        raise Reject("the detector is too small for this grain")
    tol = 1e-9 * F.max()
    parts = np.array([arr(S.render(method, which=torch.tensor([i])))[0] for i in range(S.n)])
    close(F, parts.sum(axis=0), method + ": frame and sum over the peaks", 1e-7, tol, sig="additive " + method)
    perm = np.random.default_rng(len(peaks) + int(d["distance"])).permutation(S.n)
    close(arr(S.render(method, which=torch.tensor(perm)))[0], F, method + ": permuted peaks", 1e-7, tol, sig="permutation " + method)
    # one factor of one peak scales its own part only
    column = dict(sf=5, pol=20, lorentz=19, volume=21)[case["which"]]
    flag = dict(sf="use_structure_factor", pol="use_polarization", lorentz="use_lorentz", volume="")[case["which"]]
    pd = S.peaks()
    pd["peaks"][0, column] *= case["factor"]
    G = arr(S.detector.render(pd, method=method, verbose=False)[0])[0]
    if method == "macro" and case["which"] == "volume":
        f = 1.0  # the projected volume is that of the illuminated part of the element
    else:
        f = case["factor"] if d.get(flag, True) else 1.0
    close(G, F + (f - 1) * parts[0], method + ": frame with the %s of a peak scaled" % case["which"], 1e-6, 1e-9 * max(F.max(), G.max()), sig="proportional " + method)
    ctx.nontrivial(np.count_nonzero(F) and S.n > 1)
    ctx.event("method %s" % method)
    ctx.event("overlap" if np.count_nonzero((parts > 0).sum(axis=0) > 1) else "separate")
    ctx.event("scaled %s %s" % (case["which"], "on" if f != 1 else "off"))


@st.composite
def auto_case(draw):
    d = draw(rend.detectors(lo=20, hi=36))
    n = draw(st.integers(1, 6))
    one = draw(gen.log(0.05, 2.0))
    peaks = [dict(draw(rend.peak(UV)), fwhm=one, level=draw(st.sampled_from(["macro", "micro", "nano", "macro edge", "nano edge"]))) for _ in range(n)]
    return dict(detector=d, peaks=peaks, macro=draw(st.sampled_from([None, None, 0.5, 30.0])), micro=draw(st.sampled_from([None, None, 1e-5, 0.3])), frames=draw(st.sampled_from([1, 1, 3])))


@component(P, "auto", auto_case(), 800, 12000,
           "peaks of at least two volume classes, also exactly at the limits: the automatic frame is the sum of the three methods, "
           "each applied to the peaks of its class")
def auto(case, ctx):
    d = case["detector"]
    pz, py = rend.pixel_sizes(d)
    hi = min(pz, py) ** 3 if case["macro"] is None else case["macro"] * min(pz, py) ** 3
    lo = 0.1**3 if case["micro"] is None else case["micro"] * hi
    if lo >= hi:
        raise Reject("limits overlap")
    peaks, cls = [], []
    for p in case["peaks"]:
        v = {"macro": hi * 2000.0, "micro": math.sqrt(lo * hi), "nano": lo / 3, "macro edge": hi, "nano edge": lo}[p["level"]]
        peaks.append(dict(p, volume=v))
        cls.append({"macro": "macro", "macro edge": "macro", "micro": "micro", "nano edge": "micro", "nano": "nano"}[p["level"]])
    S = rend.Scene(d, peaks, [rend.positions(d, p, 9.0) for p in peaks])
    kw = {}
    if case["macro"] is not None:
        kw["macro_grain_limit"] = hi
    if case["micro"] is not None:
        kw["micro_grain_limit"] = lo
    pd = S.peaks()
    for i, p in enumerate(peaks):
        if p["level"] == "macro edge" and case["macro"] is None:
            pd["peaks"][i, 21] *= 1 + 1e-9  # the default limit is a product that may be rounded differently
    F = arr(S.detector.render(pd, frames_to_render=case["frames"], method="auto", verbose=False, **kw)[0])
    parts, small = np.zeros_like(F), False
    total = np.zeros(3)
    for k, m in enumerate(("macro", "micro", "nano")):
        which = torch.tensor([i for i in range(S.n) if cls[i] == m], dtype=torch.int64)
        if len(which):
            q = dict(pd, peaks=pd["peaks"][which])
            f = arr(S.detector.render(q, frames_to_render=case["frames"], method=m, verbose=False)[0])
            parts += f
            total[k] = f.sum()
            if m == "macro":
                # the shadow of a small element is sampled at random
                small = any(peaks[i]["volume"] < 30 * max(pz, py) ** 3 for i in which.tolist())
    top = parts.max() + 1e-300
    if small:
        close(F.sum(), parts.sum(), "total of the automatic method and of its parts", 1e-6, 1e-9 * top, sig="auto total")
    else:
        close(F, parts, "automatic method and sum of its parts", 1e-7, 1e-9 * top, sig="auto image")
    ctx.nontrivial(len(set(cls)) > 1)
    ctx.event("classes %s" % "+".join(sorted(set(cls))))
    ctx.event("random shadow" if small else "image compared")
    if any("edge" in p["level"] for p in peaks):
        ctx.event("volume at a limit")


@st.composite
def batch_case(draw):
    method = draw(st.sampled_from(["micro", "nano"]))
    return dict(method=method, detector=draw(rend.detectors(lo=40, hi=60, sigma=st.sampled_from([0.3, 0.6, 1.0]))), seed=draw(gen.seeds),
                n=draw(st.integers(50001, 105000)) if method == "micro" else draw(st.integers(2, 400)), fwhm=draw(gen.log(0.05, 2.0)),
                free=draw(gen.log(1e-6, 1e-3)), frames=draw(st.sampled_from([1, 2, 3])))


@component(P, "batches", batch_case(), 32, 480,
           "more peaks than fit into one batch of the renderer (more than 50000, or little free memory): "
           "the total is still that of all the peaks, frame by frame")
def batches(case, ctx):
    d, n = case["detector"], case["n"]
    rng = np.random.default_rng(case["seed"])
    one = dict(pos=[0.5, 0.5], time=0.5, volume=1.0, sf=1.0, lorentz=1.0, pol=1.0, fwhm=case["fwhm"], shape=1, source=[0.0, 0.0, 0.0])
    S = rend.Scene(d, [one], [[d["pixels"][0] / 2.0, d["pixels"][1] / 2.0]])
    m = margin_of(case["method"], d, case["fwhm"])
    lo = np.minimum(m, (np.array(d["pixels"]) - 1) / 2.0)
    inside = np.all(lo == m)
    pos = lo + rng.uniform(size=(n, 2)) * (np.array(d["pixels"]) - 1 - 2 * lo)
    c0, z, y = rend.plane(d)
    pz, py = rend.pixel_sizes(d)
    K = c0 + np.outer(pos[:, 0] * pz, z) + np.outer(pos[:, 1] * py, y)
    K = K / np.linalg.norm(K, axis=1)[:, None]
    pd = S.peaks()
    p = np.repeat(arr(pd["peaks"]), n, axis=0)
    p[:, 13:16], p[:, 16:19] = K, 0.0
    p[:, 6], p[:, 5], p[:, 24] = rng.uniform(size=n), rng.uniform(0.1, 10, n), np.arange(n)
    pd["peaks"] = torch.tensor(p)
    # the batches of the nano renderer depend on the free memory
    import xrd_simulator.detector as module
    real = getattr(module, "return_device_memory", None)
    try:
        if case["method"] == "nano" and real is not None:
            module.return_device_memory = lambda *a, **k: dict(real(*a, **k), free_gb=case["free"])
        F = arr(S.detector.render(pd, frames_to_render=case["frames"], method=case["method"], verbose=False)[0])
    finally:
        if real is not None:
            module.return_device_memory = real
    check(np.isfinite(F).all() and F.min() >= 0, "negative or non finite pixels", "finite")
    f = np.minimum((p[:, 6] * case["frames"]).astype(int), case["frames"] - 1)
    expected = np.bincount(f, weights=p[:, 5], minlength=case["frames"])
    lo, hi = limits(case["method"], d)
    share = F.sum(axis=(1, 2)) / expected
    check(share.max() <= hi, "%d peaks: %.6g of the intensity is in the frame" % (n, share.max()), "too much")
    if inside:
        check(share.min() >= lo, "%d peaks: %.6g of the intensity is in the frame" % (n, share.min()), "too little")
    ctx.nontrivial(n > 50000 or case["method"] == "nano")
    ctx.event("%s, %s" % (case["method"], "inside" if inside else "at the edges"))
