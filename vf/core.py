"""Components: an executable statement of (part of) a property over generated cases.

A component is a function f(case, ctx); `case` is a JSON value drawn by a Hypothesis strategy, so
that a failing case is shrunk by Hypothesis, stored as a replay file and replayed without it.
"""
import hashlib
import importlib
import inspect
import io
import json
import os
import random
import sys
import time
import traceback
import contextlib

import numpy as np

PROPS = {}


class Violation(AssertionError):
    """The code under test broke the property on this case."""

    def __init__(self, message, sig=None):
        super().__init__(message)
        self.sig = sig or message.split(":")[0][:80]


class Reject(Exception):
    """The case is outside of the domain of the property (counted, must stay rare)."""


class Abort(BaseException):
    """Stop the Hypothesis engine."""


class Component:
    def __init__(self, prop, name, quick, thorough, strategy, func, rule, examples):
        self.prop, self.name, self.quick, self.thorough = prop, name, quick, thorough
        self.strategy, self.func, self.rule, self.examples = strategy, func, rule, examples


def component(prop, name, strategy, quick, thorough, rule, examples=()):
    """Register a component; rule says which of its cases count as non-trivial."""

    def deco(func):
        PROPS.setdefault(prop, {})[name] = Component(
            prop, name, quick, thorough, strategy, func, rule, list(examples)
        )
        return func

    return deco


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.events = {}
        self.case_events = []
        self.is_nontrivial = False
        self.counter = 0

    def begin(self):
        self.case_events, self.is_nontrivial = [], False

    def nontrivial(self, yes=True):
        self.is_nontrivial = self.is_nontrivial or bool(yes)

    def event(self, label):
        self.case_events.append(str(label))

    def path(self, name):
        """A fresh folder below the scratch folder, with this file name."""
        self.counter += 1
        d = os.path.join(self.scratch, "c%d" % self.counter)
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)


def check(cond, message, sig=None):
    if not bool(cond):
        raise Violation(message() if callable(message) else message, sig)


def arr(x):
    """numpy float array of whatever array-like the library returned."""
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


def close(a, b, what, rtol=1e-8, atol=1e-9, sig=None):
    a, b = np.asarray(arr(a), dtype=float), np.asarray(arr(b), dtype=float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape), sig or what)
    if a.size == 0:
        return
    bad = ~(np.abs(a - b) <= atol + rtol * np.abs(b))
    bad &= ~((a == b))
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(np.abs(a - b), nan=np.inf), -1)), a.shape)
        raise Violation(
            "%s: got %r, expected %r at %s (%d of %d differ)"
            % (what, float(a[i]), float(b[i]), i, int(bad.sum()), a.size), sig or what)


# Helpers outside of the documented interface, with the parameters that the checks know. A helper that is gone or
# takes something else was refactored: what it computes is then seen through the documented interface only.
HELPERS = {
    "_alpha_to_quarternion": "alpha_1 alpha_2 alpha_3",
    "_b_to_epsilon": "B_matrix B0",
    "_circumsphere_of_segments": "segments",
    "_circumsphere_of_tetrahedrons": "tetrahedra",
    "_circumsphere_of_triangles": "triangles",
    "_clip_line_with_convex_polyhedron": "line_points line_direction plane_points plane_normals",
    "_compute_pixel_path_length": "self ray_point ray_direction hull",
    "_compute_sides": "points",
    "_compute_tetrahedra_volumes": "vertices",
    "_contained_by_intervals": "value intervals",
    "_contains": "self points",
    "_diffractogram": "diffraction_pattern det_centre_z det_centre_y binsize",
    "_epsilon_to_b": "crystal_strain B0",
    "_find_solutions_to_tangens_half_angle_equation": "G_0 rho_0_factor rho_1_factor rho_2_factor delta_omega",
    "_get_bragg_angle": "G wavelength",
    "_get_circumscribed_sphere_centroid": "subset_of_points",
    "_get_intersection": "self ray_direction source_point",
    "_get_misorientations": "orientations",
    "_get_sin_theta_and_norm_G": "G wavelength",
    "_get_wrapping_cone": "self k source_point",
    "_intersect": "self vertices",
    "_lab_strain_to_B_matrix": "strain_tensor crystal_orientation B0",
    "_lorentz": "k_in k_out rot_axis",
    "_polarization": "k_out pol_vec",
    "_ray_detector_intersection": "self origin direction",
    "_sample_ODF": "ODF maximum_sampling_bin_seperation coordinates",
    "_scherrer": "volumes two_theta wavelength K",
    "_setup_diffracting_planes": "self wavelength min_bragg_angle max_bragg_angle",
    "_strain_as_tensor": "strain_vector",
    "_strain_as_vector": "strain_tensor",
    "_u_to_euler": "U",
    "_world_to_pixel_coords": "self world_point",
    "compute_structure_factors_batch": "miller_indices unit_cell sgname path_to_cif_file device",
}


def priv(module, name):
    """A helper that is not part of the documented interface, or None if it was refactored away."""
    obj = module
    if isinstance(module, str):
        try:
            obj = importlib.import_module(module)
        except ImportError:
            return None
    for part in name.split("."):
        obj = getattr(obj, part, None)
        if obj is None:
            return None
    known = HELPERS[name.split(".")[-1]].split()
    try:
        have = list(inspect.signature(obj).parameters)
    except (TypeError, ValueError):
        return None
    return obj if have in (known, known[1:] if known[0] == "self" else known) else None


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()


def seed_globals(case):
    """The library draws from global generators, pin them per case."""
    n = int(case_hash(case)[:8], 16)
    random.seed(n)
    np.random.seed(n)
    torch = sys.modules.get("torch")
    if torch is not None:
        torch.manual_seed(n)
    utils = sys.modules.get("xrd_simulator.utils")
    if utils is not None and hasattr(utils, "rng"):
        utils.rng = np.random.default_rng(n)


def run_case(comp, case, ctx):
    """None if the property held, 'reject', or a dict that describes the violation."""
    ctx.begin()
    seed_globals(case)
    out = io.StringIO()
    # the parent process finds the case here if it never ends or kills the process
    with open(os.path.join(ctx.scratch, "current.json"), "w") as f:
        json.dump(dict(component=comp.name, case=case), f)
    try:
        with contextlib.redirect_stdout(out):
            comp.func(case, ctx)
        return None
    except Reject as e:
        ctx.event("rejected: %s" % e)
        return "reject"
    except Violation as e:
        return {"message": str(e)[:2000], "sig": e.sig, "kind": "violation"}
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if "xrd_simulator" in f.filename]
        where = inside[-1] if inside else tb[-1]
        return {
            "message": "%s on valid input: %s (%s:%s in %s)" % (
                type(e).__name__, str(e)[:500].replace("\n", " "),
                os.path.basename(where.filename), where.lineno, where.name),
            "sig": "exception %s in %s" % (type(e).__name__, where.name),
            "kind": "exception" if inside else "oracle",
            "traceback": traceback.format_exc()[-3000:],
        }


class Result:
    def __init__(self):
        self.evaluations = 0
        self.rejected = 0
        self.known = {}
        self.nontrivial = set()
        self.events = {}
        self.samples = []
        self.failure = None
        self.complete = True
        self.wall = 0.0

    def as_dict(self):
        return dict(evaluations=self.evaluations, rejected=self.rejected, known=self.known,
                    nontrivial=sorted(self.nontrivial), events=self.events, samples=self.samples,
                    failure=self.failure, complete=self.complete, wall=round(self.wall, 2))


def shorten(v, limit=700):
    s = json.dumps(v)
    return v if len(s) <= limit else s[:limit] + "..."


def explore(comp, n_examples, seed, ctx, known_sigs, t_end, shrink_seconds, with_examples):
    """Run a component on generated cases; shrink the first failure."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = Result()
    t0 = time.monotonic()
    best = {}
    limit = [None]

    def body(case):
        now = time.monotonic()
        if now > (limit[0] if limit[0] is not None else t_end):
            if limit[0] is None:
                res.complete = False
            raise Abort()
        r = run_case(comp, case, ctx)
        if limit[0] is None:
            res.evaluations += 1
            if r == "reject":
                res.rejected += 1
            for e in set(ctx.case_events):
                res.events[e] = res.events.get(e, 0) + 1
            if ctx.is_nontrivial and r is None:
                h = case_hash(case)[:16]
                if h not in res.nontrivial:
                    res.nontrivial.add(h)
                    if len(res.samples) < 2:
                        res.samples.append(shorten(case))
        if isinstance(r, dict):
            if r["sig"] in known_sigs:
                res.known[r["sig"]] = res.known.get(r["sig"], 0) + 1
                return
            size = len(json.dumps(case))
            if limit[0] is None:
                limit[0] = time.monotonic() + shrink_seconds
                best.update(size=size, case=case, result=r, first=case)
            elif size <= best["size"] and r["sig"] == best["result"]["sig"]:
                best.update(size=size, case=case, result=r)
            raise Violation(r["message"], r["sig"])

    try:
        if with_examples:
            for case in comp.examples:
                body(case)
        test = settings(
            max_examples=max(1, n_examples), database=None, deadline=None, derandomize=False,
            suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False,
            phases=[Phase.generate, Phase.shrink],
        )(hypothesis.seed(seed)(given(comp.strategy)(body)))
        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except Abort:
        pass
    except Exception:
        if not best:
            raise
    res.wall = time.monotonic() - t0
    if best:
        confirmed = None
        for case in (best["case"], best["first"]):
            for _ in range(3):
                r = run_case(comp, case, ctx)
                if isinstance(r, dict) and r["sig"] not in known_sigs:
                    confirmed = (case, r)
                    break
            if confirmed:
                break
        if confirmed is None:
            confirmed = (best["case"], dict(best["result"], unstable=True))
        res.failure = {"case": confirmed[0], **confirmed[1]}
    return res


def load_property(prop):
    importlib.import_module("vf.props." + prop.lower())
    return PROPS[prop]
