"""C15: every detected peak is in the one frame of its time."""
import math
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from vf import gen, ref, rend, world
from vf.core import Reject, arr, check, close, component
from vf.props import c16
from vf.props.c13 import split

P = "C15"

TIMES = st.one_of(
    gen.even(0, 1), gen.even(0, 1),
    st.tuples(st.just("edge"), st.integers(0, 400), st.sampled_from([0.0, 1e-12, -1e-12, 1e-7, -1e-7])).map(list),
    st.sampled_from([0.0, 1.0, 0.5, 1 - 1e-12]))


def when(t, frames):
    """Time of a peak; ['edge', k, delta] is next to a boundary between frames."""
    if isinstance(t, list):
        n = max(1, frames)
        return min(1.0, max(0.0, (t[1] % (n + 1)) / n + t[2]))
    return t


def allowed(t, frames):
    """Frames that hold this time (two on a boundary)."""
    n = max(1, int(frames))
    out = {min(n - 1, max(0, int(math.floor(t * n + s)))) for s in (1e-9, -1e-9)}
    return out


def frames_of(draw):
    return draw(st.one_of(st.sampled_from([1, 2, 3, 5, 8, 10, 7, 0, -3]), st.integers(1, 50), st.sampled_from([180, 360, 1000, 3600])))


@st.composite
def bin_case(draw):
    frames = frames_of(draw)
    bad = st.sampled_from([None] * 8 + ["lorentz inf", "lorentz nan", "sf 0", "sf nan", "pol 0", "pol -1", "sf -5"])
    n = draw(st.integers(1, 25))
    return dict(detector=draw(rend.detectors(lo=2, hi=30, flags=True)), frames=frames, peaks=[dict(draw(rend.peak(st.lists(gen.even(-0.4, 1.4), min_size=2, max_size=2), TIMES)), bad=draw(bad)) for _ in range(n)], verbose=draw(st.booleans()))


@component(P, "bins", bin_case(), 1300, 20000,
           "more than one frame and at least two peaks on the detector; each peak is in the one frame of its time, "
           "peaks beside the detector or without a valid intensity are left out, and no other is")
def bins(case, ctx):
    d, frames = case["detector"], case["frames"]
    peaks = [dict(p, time=when(p["time"], frames)) for p in case["peaks"]]
    pos = [[p["pos"][0] * d["pixels"][0], p["pos"][1] * d["pixels"][1]] for p in peaks]
    S = rend.Scene(d, peaks, pos)
    pd = S.peaks()
    X = pd["peaks"]
    on = dict(sf=d.get("use_structure_factor", True), lorentz=d.get("use_lorentz", True), pol=d.get("use_polarization", True))
    column = dict(sf=5, lorentz=19, pol=20)
    valid = np.ones(len(peaks), bool)
    for i, p in enumerate(peaks):
        if p["bad"]:
            name, value = p["bad"].split()
            X[i, column[name]] = float(value)
            valid[i] = not on[name]
    keep = X.clone()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        res = S.detector.peaks_detector_intersection(pd, frames, verbose=case["verbose"])
    check(torch.equal(torch.nan_to_num(pd["peaks"]), torch.nan_to_num(keep)), "the input peaks were changed")
    p, c = split(res)
    size = np.array(d["pixels"], float)
    edge = np.minimum(S.pos, size - S.pos).min(axis=1)
    index = [int(round(i)) for i in c["peak_index"]]
    check(len(set(index)) == len(index), "a peak is listed in more than one frame", "duplicate")
    row = {i: j for j, i in enumerate(index)}
    skipped = 0
    for i in range(len(peaks)):
        if abs(edge[i]) < 1e-6 * size.max():
            continue
        if edge[i] < 0:
            check(i not in row, "a peak beside the detector is in a frame", "beside the detector")
            continue
        if not valid[i]:
            skipped += 1
            check(i not in row, "a peak with invalid intensity (%s) is in a frame" % peaks[i]["bad"], "invalid intensity")
            continue
        check(i in row, "a peak on the detector was dropped (time %r, %d frames)" % (peaks[i]["time"], frames), "dropped")
        j = row[i]
        close(np.nan_to_num(p[j, :25]), np.nan_to_num(arr(keep[i])), "columns of the peak", 0, 0)
        f = c["frame"][j]
        check(float(f).is_integer() and int(f) in allowed(peaks[i]["time"], frames),
              "a peak at time %r is in frame %r of %d" % (peaks[i]["time"], float(f), frames), "frame of the time")
        x = 1.0
        for name in on:
            if on[name]:
                x *= float(keep[i, column[name]])
        close(c["intensity_factors"][j], x, "intensity factor", 1e-12, 0)
    if len(row) > 1:
        o = np.argsort(c["diffraction_times"], kind="stable")
        check(np.all(np.diff(c["frame"][o]) >= 0), "frames are not ordered in time", "order")
    if case["verbose"] and skipped:
        ctx.event("skipped peaks are reported: %s" % any(issubclass(x.category, UserWarning) for x in w))
    ctx.nontrivial(frames > 1 and len(row) > 1)
    ctx.event("frames %s" % ("<1" if frames < 1 else "1" if frames == 1 else "2-10" if frames <= 10 else ">10"))
    ctx.event("invalid peaks" if skipped else "all peaks valid")
    if any(isinstance(q["time"], list) for q in case["peaks"]):
        ctx.event("time next to a boundary")


@st.composite
def frame_case(draw):
    frames = draw(st.one_of(st.integers(1, 6), st.sampled_from([12, 25, 0])))
    method = draw(st.sampled_from(["micro", "nano", "macro", "auto"]))
    n = draw(st.integers(1, 8 if method in ("micro", "nano") else 5))
    d = draw(rend.detectors(lo=20, hi=40))
    one = draw(gen.log(0.1, 2.0))
    bad = st.sampled_from([None] * 10 + ["lorentz", "sf"])
    peaks = [dict(draw(rend.peak(st.lists(gen.even(0.0, 1.0), min_size=2, max_size=2), TIMES)), bad=draw(bad)) for _ in range(n)]
    for p in peaks:
        p["fwhm"] = one
    return dict(detector=d, peaks=peaks, frames=frames, method=method, grain=draw(gen.log(5.0, 7.0)), margin=draw(st.sampled_from([0.0, 9.0, 9.0])),
                dtype=draw(st.sampled_from([None, None, "float32"])))


@component(P, "frames", frame_case(), 1200, 16000,
           "peaks in at least two different frames of the render; every frame equals the render of the peaks of its time, and the "
           "frames sum to the render in one frame")
def frames(case, ctx):
    d, N, method = case["detector"], case["frames"], case["method"]
    peaks = [dict(p, time=when(p["time"], N)) for p in case["peaks"]]
    pz, py = rend.pixel_sizes(d)
    for i, p in enumerate(peaks):
        # elements of several pixels, so that the projection is not sampled at random
        big = (case["grain"] * max(pz, py)) ** 3 * 0.12
        kind = "macro" if method == "macro" else ["macro", "micro", "nano"][i % 3]
        if method in ("macro", "auto"):
            p["volume"] = {"macro": big, "micro": min(0.5, 0.5 * min(pz, py) ** 3), "nano": 1e-4}[kind]
    pos = [rend.positions(d, p, case["margin"]) for p in peaks]
    S = rend.Scene(d, peaks, pos)
    pd = S.peaks()
    for i, p in enumerate(peaks):
        if p["bad"] == "lorentz":
            pd["peaks"][i, 19] = math.inf
        elif p["bad"] == "sf":
            pd["peaks"][i, 5] = 0.0
    kw = {} if case["dtype"] is None else dict(render_dtype=getattr(torch, case["dtype"]))

    def go(frames, which=None):
        q = dict(pd)
        if which is not None:
            q["peaks"] = pd["peaks"][which]
        f, r = S.detector.render(q, frames_to_render=frames, method=method, verbose=False, **kw)
        return arr(f).astype(float), r

    F, res = go(N)
    n = max(1, N)
    nz, ny = d["pixels"]
    check(F.shape == (n, nz, ny), "frames of shape %s, expected %s" % (F.shape, (n, nz, ny)), "shape")
    check(np.isfinite(F).all() and F.min() >= 0, "a frame is corrupted by a peak without valid intensity" if any(p["bad"] for p in peaks) else "invalid pixel values", "finite")
    r, c = split(res)
    tol = 1e-9 if case["dtype"] is None else 2e-5
    if method in ("macro", "auto"):
        # a shadow of no more than four pixels is sampled at random: there, only the totals agree
        tot, _ = go(1)
        exact = all(p["volume"] >= 0.9 * (case["grain"] * max(pz, py)) ** 3 * 0.12 or method == "auto" for p in peaks)
        inside = np.all((S.pos > 7) & (S.pos < np.array(d["pixels"]) - 8))
        exact = exact and inside
    else:
        tot, exact = go(1)[0], True
    top = tot.max() + 1e-300
    if exact:
        close(F.sum(axis=0), tot[0], "sum of the frames and the render in one frame", 10 * tol, tol * top, sig="sum of frames")
    total = 0
    for k in range(n):
        which = np.nonzero(c["frame"] == k)[0]
        ids = [int(round(i)) for i in c["peak_index"][which]]
        for i in ids:
            check(k in allowed(peaks[i]["time"], N), "peak at time %r in frame %d of %d" % (peaks[i]["time"], k, N), "frame of the time")
        total += len(ids)
        if not ids:
            check(np.all(F[k] == 0), "a frame without peaks is not empty", "empty frame")
            continue
        if n > 6 and k % 5:
            continue
        own, _ = go(1, torch.tensor(ids))
        if exact:
            close(F[k], own[0], "frame and the render of its peaks", 10 * tol, tol * top, sig="frame of its peaks")
        else:
            check((F[k].sum() > 0) == (own.sum() > 0), "frame %d is %sempty" % (k, "" if own.sum() > 0 else "not "), "frame of its peaks")
    check(total == len(r), "a peak is in no frame", "in a frame")
    ctx.nontrivial(len(set(c["frame"])) > 1)
    ctx.event("method %s%s" % (method, "" if exact else ", at the edge"))
    ctx.event("frames %s" % ("1" if n == 1 else "2-6" if n <= 6 else ">6"))
    if any(p["bad"] for p in peaks):
        ctx.event("invalid peaks")


# more peaks than one batch of a renderer
component(P, "batches", c16.batch_case(), 24, 320,
          "more peaks than fit into one batch of the renderer: every frame holds the intensity of the peaks of its time")(c16.batches)
