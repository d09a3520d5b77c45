"""Worlds over the Python interface: stored records (C10), arrays handed out (C14)."""
import copy
import ctypes
import gc
import json
import os
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pycore
import gsplines
import gsplines.serialization as ser
import pygsplines

LIB = ctypes.CDLL(pygsplines.__file__)
LIB.sim_py_released.restype = ctypes.c_ulong


# ------------------------------------------------------------------ material
def make_basis(r, even=False):
    k = r.draw(3)
    if k == 0:
        d = (2, 4, 6)[r.draw(3)] if even else 2 + r.draw(5)
        return gsplines.basis.BasisLegendre(d), "legendre(%d)" % d
    if k == 1:
        d = (2, 4, 6)[r.draw(3)] if even else 2 + r.draw(4)
        pts = np.linspace(-1.0, 1.0, d)
        if d > 2:
            pts[1] += 0.125 * (1 - r.draw(3))
        return gsplines.basis.BasisLagrange(pts), "lagrange(%d)" % d
    a = r.real(0.1, 0.9, 16)
    return gsplines.basis.Basis0101(a), "basis0101(%g)" % a


def numbers(r, n):
    return np.array([r.real(-3, 3, 96) + i / 7.0 for i in range(n)])


def make_spline(r, even=False):
    b, name = make_basis(r, even)
    n, cd = 1 + r.draw(4), 1 + r.draw(3)
    tau = np.array([r.real(0.25, 2, 28) / 3 for _ in range(n)])
    t0 = r.real(-2, 2, 16)
    c = numbers(r, n * cd * b.get_dim())
    s = gsplines.GSpline((t0, t0 + float(np.sum(tau))), cd, n, b, c, tau, "spline")
    return s, "%s, %d intervals, dim %d" % (name, n, cd)


def points(f, k=5):
    a, b = f.get_domain()
    return np.linspace(a, b, k) * 0.9 + 0.05 * (a + b)


# ------------------------------------------------------------------ C10
FIELDS = {"domain_left_boundary": float, "domain_right_boundary": float, "codom_dim": int, "number_of_intervals": int, "basis": dict, "coefficients": list, "interval_lengths": list}
BFIELDS = {"name": str, "dim": int, "parameters": list}


def same(a, b):
    """a: what the object says of itself, b: what the record says"""
    if isinstance(a, (list, tuple)):
        return type(b) is list and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or b is None:
        return False
    if isinstance(a, (int, float, np.floating)):
        return isinstance(b, (int, float)) and (a == b or (a != a and b != b))
    return a == b


def basis_says(b):
    return {"name": b.get_name(), "dim": b.get_dim(), "parameters": [float(x) for x in b.get_parameters()]}


def spline_says(s):
    a, b = s.get_domain()
    return {"domain_left_boundary": a, "domain_right_boundary": b, "codom_dim": s.get_codom_dim(), "number_of_intervals": s.get_number_of_intervals(),
            "coefficients": [float(x) for x in s.get_coefficients()], "interval_lengths": [float(x) for x in s.get_interval_lengths()], "basis": basis_says(s.get_basis())}


def judge_basis(r, b, rec, what):
    says = basis_says(b)
    for k in BFIELDS:
        if k not in rec or not same(says[k], rec[k]):
            r.violation("accepted-damaged", "%s: a record whose %s reads %s was accepted, the basis says %s" % (what, k, show(rec.get(k, "nothing")), show(says[k])))


def judge_spline(r, s, rec, what):
    says = spline_says(s)
    for k in FIELDS:
        if k == "basis":
            if type(rec.get(k)) is not dict:
                r.violation("accepted-damaged", "%s: a record without a basis was accepted" % what)
            judge_basis(r, s.get_basis(), rec[k], what)
        elif k not in rec or not same(says[k], rec[k]):
            r.violation("accepted-damaged", "%s: a record whose %s reads %s was accepted, the spline says %s" % (what, k, show(rec.get(k, "nothing")), show(says[k])))
    n, cd, d = says["number_of_intervals"], says["codom_dim"], says["basis"]["dim"]
    if len(says["interval_lengths"]) != n or len(says["coefficients"]) != n * cd * d:
        r.violation("inconsistent", "%s: the spline has %d coefficients and %d lengths for %d intervals of dimension %d x %d" % (what, len(says["coefficients"]), len(says["interval_lengths"]), n, d, cd))
    total, length = sum(says["interval_lengths"]), says["domain_right_boundary"] - says["domain_left_boundary"]
    if not abs(total - length) <= 0.01 * (abs(total) + abs(length)):
        r.violation("inconsistent", "%s: the intervals of the spline are %g long, its domain %g" % (what, total, length))
    if not min(says["interval_lengths"] or [1]) > 0:
        r.violation("inconsistent", "%s: the spline has an interval of length %g" % (what, min(says["interval_lengths"])))
    if min(says["interval_lengths"] or [1]) > 0:
        v = s(points(s))
        if v.shape != (5, cd):
            r.violation("inconsistent", "%s: values have shape %s" % (what, v.shape))


def show(x):
    t = repr(x)
    return t if len(t) < 60 else t[:57] + "..."


def expect_equal(r, a, b, what):
    sa, sb = (spline_says(a), spline_says(b)) if hasattr(a, "get_coefficients") else (basis_says(a), basis_says(b))
    for k in sa:
        if sa[k] != sb[k]:
            r.violation("not-intact", "%s: %s was %s and reads back as %s" % (what, k, show(sa[k]), show(sb[k])))
    if not a == b:
        r.violation("not-intact", "%s: the object read back does not compare equal" % what)
    if hasattr(a, "get_coefficients"):
        p = points(a)
        if not np.array_equal(a(p), b(p)) or not np.array_equal(a.deriv(1)(p), b.deriv(1)(p)):
            r.violation("not-intact", "%s: values differ" % what)


def places(rec, path=()):
    out = []
    for k in rec:
        out.append(path + (k,))
        if isinstance(rec[k], dict):
            out += places(rec[k], path + (k,))
    return out


def at(rec, path):
    for k in path[:-1]:
        rec = rec[k]
    return rec, path[-1]


WRONG = [None, "", "4", "legendre", 1.5, 0, 1, -1, 2, 5, 6, True, False, [], [1.0], [[1.0]], {}, {"name": "legendre"}, 0.0, "lagrange", "basis0101", "basis", [0.5], [-1.0, 1.0]]
WRONG_ELEMENT = [None, "1.0", "x", [], [1.0], {}, True, False, [None]]


def damage(r, rec):
    """one fault of the medium; returns what it did"""
    ps = [p for p in places(rec)]
    if not ps:
        return None
    p = r.pick(ps)
    d, k = at(rec, p)
    name = "/".join(p)
    kind = r.draw_w([3, 3, 4, 3, 3, 3, 2, 2, 3, 1])
    v = d[k]
    if kind == 9 and "interval_lengths" in rec and isinstance(rec["interval_lengths"], list) and rec["interval_lengths"] and all(isinstance(x, float) for x in rec["interval_lengths"]):
        # several fields at once, agreeing with each other: an interval or the whole domain turned around or emptied
        w = rec["interval_lengths"]
        i = r.draw(len(w))
        if r.draw(2) and len(w) > 1:
            j = (i + 1) % len(w)
            w[i], w[j] = r.pick([0.0, -w[i]]), w[i] + w[j]
            w[j] += 0.0 if w[i] == 0 else -2 * w[i] - (-w[i])
            return "interval-inverted", "interval_lengths[%d] to %s" % (i, show(w[i]))
        if all(isinstance(rec.get(n), float) for n in ("domain_left_boundary", "domain_right_boundary")):
            f = r.pick([-1.0, 0.0])
            rec["interval_lengths"] = [x * f for x in w]
            if f:
                rec["domain_left_boundary"], rec["domain_right_boundary"] = rec["domain_right_boundary"], rec["domain_left_boundary"]
            else:
                rec["domain_right_boundary"] = rec["domain_left_boundary"]
            return "domain-inverted", "and the lengths by %g" % f
    if kind == 1 and isinstance(v, (list, str)) and len(v):
        n = r.draw(len(v))
        d[k] = v[:n]
        return "field-truncated", "%s cut to %d of %d" % (name, n, len(v))
    if kind == 2:
        w = copy.deepcopy(r.pick(WRONG))
        d[k] = w
        return "field-mistyped", "%s replaced by %s" % (name, show(w))
    if kind == 3 and isinstance(v, list) and len(v):
        i = r.draw(len(v))
        w = copy.deepcopy(r.pick(WRONG_ELEMENT))
        v[i] = w
        return "element-mistyped", "%s[%d] replaced by %s" % (name, i, show(w))
    if kind == 4 and isinstance(v, list):
        n = 1 + r.draw(3)
        d[k] = v + [r.real(-1, 1, 8) for _ in range(n)]
        return "field-extended", "%s longer by %d" % (name, n)
    if kind == 5:
        q = r.pick(ps)
        if p[:len(q)] == q or q[:len(p)] == p:                   # never a record inside itself
            return None
        e, j = at(rec, q)
        d[k], e[j] = e[j], d[k]
        return "fields-swapped", "%s and %s" % (name, "/".join(q))
    if kind == 6 and isinstance(v, list) and len(v):
        i = r.draw(len(v))
        if r.draw(2):
            d[k] = v[:i] + v[i + 1:]
            return "element-lost", "%s[%d]" % (name, i)
        d[k] = v[:i] + [v[i]] + v[i:]
        return "element-duplicated", "%s[%d]" % (name, i)
    if kind == 7 and isinstance(v, (int, float)) and not isinstance(v, bool):
        d[k] = v + r.pick([1, -1, 2, -2, 7])
        return "number-changed", "%s from %s to %s" % (name, show(v), show(d[k]))
    if kind == 8 and isinstance(v, list) and len(v) and all(isinstance(x, float) for x in v):
        i = r.draw(len(v))
        v[i] = r.pick([v[i] + 1.0, v[i] - 1.0, v[i] * 1.5, -v[i], float("nan"), float("inf"), 0.0])
        return "element-changed", "%s[%d] to %s" % (name, i, show(v[i]))
    if kind == 8 and isinstance(v, (int, float)) and not isinstance(v, bool):
        d[k] = r.pick([float("nan"), float("inf"), -float("inf"), float(v)])
        return "number-changed", "%s from %s to %s" % (name, show(v), show(d[k]))
    del d[k]
    return "field-lost", name


class Disk:
    """the medium: text; what was written last may be lost or torn"""

    def __init__(self, r):
        self.r, self.old, self.new = r, None, None

    def write(self, text):
        self.old, self.new = self.new, text

    def read(self):
        return self.new


def c10(r):
    LIB.sim_py_release(0xDB, r.draw(2))
    steps = 1 + r.draw(4)
    for _ in range(steps):
        with r.span():
            whole = r.chance(3, 4)
            if whole:
                o, name = make_spline(r)
                if r.chance(1, 8):
                    o = r.pick([gsplines.optimization.broken_lines_path, gsplines.optimization.minimum_jerk_path])(numbers(r, 6).reshape(3, 2))
                    name = "optimal path"
                    if o is None:
                        continue
                elif r.chance(1, 4):
                    o = o.linear_scaling_new_execution_time(r.real(0.5, 5, 9))
                    name += ", rescaled"
                to, back, judge = ser.gspline_to_dict, ser.dict_to_gspline, judge_spline
            else:
                o, name = make_basis(r)
                to, back, judge = ser.basis_to_dict, ser.dict_to_basis, judge_basis
            r.say("%s %s" % ("spline" if whole else "basis", name))
            first = o
            # intact cycles
            disk = Disk(r)
            for c in range(1 + r.draw(3)):
                rec = to(o)
                if r.chance(2, 3):
                    disk.write(json.dumps(rec))
                    rec = json.loads(disk.read())
                    r.probe("through-text")
                else:
                    rec = copy.deepcopy(rec)
                before = json.dumps(rec)
                try:
                    o = back(rec)
                except Exception as e:
                    r.violation("intact-refused", "an intact record of %s is refused: %s" % (name, show(str(e))))
                if json.dumps(rec) != before:
                    r.violation("record-changed", "reading the record of %s changed it" % name)
                expect_equal(r, first, o, "after %d cycles" % (c + 1))
                r.steps(1)
            r.probe("intact-cycle")
            r.nontriv = True
            # damaged records
            for _ in range(1 + r.draw(6)):
                with r.span():
                    rec = json.loads(json.dumps(to(first)))
                    clean = json.dumps(rec)
                    told = []
                    for _ in range(1 + r.draw_w([3, 1])):
                        t = damage(r, rec)
                        if t:
                            told.append(t)
                    if r.chance(1, 12):
                        text = json.dumps(rec)
                        n = r.draw(len(text))
                        try:
                            rec = json.loads(text[:n])
                        except ValueError:
                            r.fault("torn-write")
                            continue
                    if not told or json.dumps(rec) == clean:
                        continue
                    what = "; ".join("%s (%s)" % t for t in told)
                    r.say("damage: " + what)
                    for t in told:
                        r.fault(t[0])
                    r.feature(whole, tuple(sorted((t[0], t[1].split(" ")[0].split("[")[0]) for t in told)), name.split("(")[0])
                    try:
                        x = back(rec)
                    except Exception as e:
                        r.say("refused: " + type(e).__name__)
                        r.probe("damaged-refused")
                        r.steps(1)
                        continue
                    r.say("accepted")
                    r.probe("damaged-accepted")
                    judge(r, x, rec, what)
                    r.steps(1)


# ------------------------------------------------------------------ C14
class User(gsplines.functions.Function):
    def __init__(self, domain):
        gsplines.functions.Function.__init__(self, domain, 1, "user")

    def value_impl(self, t, out):
        out[:, 0] = t * t


def c14(r):
    LIB.sim_py_release(r.pick([0xDB, 0x3F, 0x00, 0xFF]), r.draw(2))
    arrays = []                                  # (array, its bytes when it was returned, where from)
    pool = {"spline": [], "interp": [], "basis": [], "fun": [], "norm": []}

    def keep(a, what):
        if isinstance(a, tuple):
            for x in a:
                keep(x, what)
            return a
        if not isinstance(a, np.ndarray):
            return a
        arrays.append((a, a.tobytes(), a.shape, what))
        r.observe(a.tobytes())
        r.probe("array-" + what.split(" ")[0])
        return a

    def verify(after):
        for a, b, shape, what in arrays:
            if a.shape != shape or a.tobytes() != b:
                old = np.frombuffer(b)
                new = np.frombuffer(a.tobytes())
                i = int(np.argmax(old != new)) if len(old) == len(new) else -1
                r.violation("array-changed", "an array returned by %s held %.6g and %s after %s" % (what, old[i], "no longer does", after))

    def known(n):
        """an array that was handed out earlier, or a new one"""
        c = [a for a, _, shape, _ in arrays if shape == (n,) and np.all(np.isfinite(a))]
        return c[r.draw(len(c))] if c and r.chance(1, 3) else numbers(r, n)

    def lens(n):
        return np.array([r.real(0.25, 2, 14) for _ in range(n)])

    start = [2, 0, 3] if r.chance(2, 3) else []
    for step in range(4 + r.draw(14)):
        with r.span():
            k = start[step] if step < len(start) else r.draw_w([3, 2, 3, 2, 2, 4, 4, 3, 3, 2, 4, 2, 2, 2, 2, 2])
            what = ""
            try:
                if k == 0:
                    s, name = make_spline(r)
                    pool["spline"].append(s)
                    what = "making a spline"
                elif k == 1:
                    b, name = make_basis(r)
                    pool["basis"].append(b)
                    keep(b.get_parameters(), "get_parameters of a basis")
                    what = "making a basis"
                elif k == 2:
                    b, name = make_basis(r, True)
                    n, cd = 1 + r.draw(3), 1 + r.draw(2)
                    pool["interp"].append((gsplines.Interpolator(cd, n, b), n, cd, b.get_dim()))
                    what = "making an interpolator"
                elif k == 3:
                    d = (0.0, 2.0)
                    f = [gsplines.functions.Sin(d), gsplines.functions.Exponential(d), gsplines.functions.CanonicPolynomial(d, numbers(r, 3)), User(d)][r.draw(4)]
                    if r.chance(1, 2) and not isinstance(f, User):
                        f = f * gsplines.functions.Cos(d) + gsplines.functions.Identity(d)
                    pool["fun"].append(f)
                    what = "making a function"
                elif k == 4 and pool["spline"]:
                    s = r.pick(pool["spline"])
                    pool["spline"].append(s.linear_scaling_new_execution_time(r.real(1, 3, 8))) if r.chance(1, 2) else pool["fun"].append(s.deriv(1))
                    what = "deriving from a spline"
                elif k == 5 and pool["spline"]:
                    s = r.pick(pool["spline"])
                    m = r.pick(["get_coefficients", "get_interval_lengths", "get_waypoints", "get_domain_breakpoints"])
                    keep(getattr(s, m)(), m + " of a spline")
                    what = m
                elif k == 6 and pool["spline"]:
                    s = r.pick(pool["spline"])
                    keep(s(points(s, 1 + r.draw(4))), "evaluating a spline")
                    what = "evaluating a spline"
                elif k == 7 and pool["fun"]:
                    f = r.pick(pool["fun"])
                    keep(f(points(f, 1 + r.draw(4))), "evaluating a function")
                    what = "evaluating a function"
                elif k in (8, 9, 10) and pool["interp"]:
                    i, n, cd, d = r.pick(pool["interp"])
                    tau = lens(n)
                    w = numbers(r, (n + 1) * cd).reshape(n + 1, cd)
                    if r.chance(1, 4):
                        w = np.asfortranarray(w)
                    if k == 8:
                        pool["spline"].append(i.interpolate(tau, w))
                        what = "interpolate"
                    elif k == 9:
                        keep(i.get_coeff_derivative_wrt_tau(known(n * cd * d), tau, r.draw(n)), "get_coeff_derivative_wrt_tau of an interpolator")
                        what = "get_coeff_derivative_wrt_tau"
                    else:
                        keep(i.solve_interpolation(tau, w), "solve_interpolation of an interpolator")
                        what = "solve_interpolation"
                elif k == 11:
                    keep(gsplines.collocation.legendre_gauss_lobatto_points_weights(3 + r.draw(6)), "legendre_gauss_lobatto_points_weights")
                    what = "collocation points"
                elif k == 12:
                    b = gsplines.basis.BasisLegendre(4)
                    n = 1 + r.draw(3)
                    N = gsplines.functional_analysis.SobolevNorm(numbers(r, 2 * (n + 1)).reshape(n + 1, 2), b, [(1, 1.0)])
                    pool["norm"].append(N)
                    t = lens(n)
                    N(t)
                    g = np.zeros(n)
                    N.deriv_wrt_interval_len(t, g)
                    what = "a cost"
                elif k == 15:
                    w = numbers(r, 6).reshape(3, 2)
                    m = r.pick(["broken_lines_path", "minimum_jerk_path", "minimum_acceleration_path"])
                    p = getattr(gsplines.optimization, m)(w)
                    if p is not None:
                        pool["spline"].append(p)
                    what = m
                elif k in (13, 14):
                    kind = r.pick(sorted(pool))
                    if pool[kind]:
                        pool[kind].pop(r.draw(len(pool[kind])))
                        what = "releasing a %s" % kind
                        r.fault("object-released")
                    if r.chance(1, 3):
                        gc.collect()
                        r.fault("collection")
                        what += " and collecting"
            except Exception as e:
                what = "%s failing with %s" % (what or "a call", type(e).__name__)
                r.probe("call-failed")
            if not what:
                continue
            r.say(what)
            r.steps(1)
            s = b = f = i = N = p = None
            r.feature(what, tuple(sorted({x[3] for x in arrays})))
            if len(arrays) and "releas" in what:
                r.probe("arrays-outlive-objects")
            verify(what)
            if arrays:
                r.nontriv = True
    with r.span():
        if r.chance(1, 2):
            pool.clear()
            gc.collect()
            r.fault("object-released")
            r.say("everything released")
            # memory is used for something else
            junk = [gsplines.basis.BasisLegendre(5) for _ in range(3)]
            verify("releasing everything")


if __name__ == "__main__":
    pycore.main({"C10": c10, "C14": c14})
