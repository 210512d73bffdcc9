"""Q27 settings in Python and JSON, Q28 B-spline volume."""
import json, os
import pbt
from pbt import sub
import common as co


def Q():
    import QuESoPythonModule
    return QuESoPythonModule


# ----------------------------------------------------------------------------------------------------------------- Q27
@sub("Q27", "roundtrip", "at least five values differ from the defaults", 1200, 40000)
def roundtrip(c):
    from QuESoPythonModule.scripts.json_io import JsonIO
    model = co.random_model(c)
    # "Not Set." is the marker of the format itself.
    holder = co.build(c, Q(), model)
    s = holder.GetObject()
    co.compare(c, Q(), s, model, "settings")
    JsonIO.write_settings(s, "a.json")
    with open("a.json", encoding="utf-8") as f:
        txt = f.read()
    data = json.loads(txt)
    m, conds = model
    # The text itself has the content.
    c.check(set(data) == set(co.SCHEMA) | {co.LIST}, "text", lambda: "sections of the file: %r" % sorted(data))
    def section(d, keys, content, what):
        c.check(set(d) == set(keys), "text", lambda: "%s: keys of the file %r" % (what, sorted(d)))
        for k, (t, _) in keys.items():
            v = d[k]
            if content[k] is None:
                c.check(v == "Not Set.", "text", lambda: "%s/%s printed as %r although it is not set" % (what, k, v))
            else:
                if t == "d" and not isinstance(v, str):
                    v = float(v)
                if t == "v" and isinstance(v, list):
                    v = [float(x) for x in v]
                c.check(co.same(v, content[k], t, 1e-9), "text", lambda: "%s/%s printed as %r instead of %r" % (what, k, v, content[k]))
    for sec, keys in co.SCHEMA.items():
        section(data[sec], keys, m[sec], sec)
    c.check(len(data[co.LIST]) == len(conds), "text", "number of conditions in the file")
    for d, e in zip(data[co.LIST], conds):
        section(d, co.CONDITION, e, "condition")
    # Reading gives the same settings and writing them again the same file.
    holder2 = JsonIO.read_settings("a.json")
    s2 = holder2.GetObject()
    co.compare(c, Q(), s2, model, "read", 1e-9)
    JsonIO.write_settings(s2, "b.json")
    with open("b.json", encoding="utf-8") as f:
        c.check(f.read() == txt, "stable", "writing the settings that were read gives another file")
    c.check(str(s) == txt, "print", "str() of the settings is not the text of the file")
    n = sum(m[sec][k] != d for sec, keys in co.SCHEMA.items() for k, (t, d) in keys.items())
    c.label("conditions:%d" % len(conds))
    c.nontrivial = n >= 5
    c.note("%d values set, %d conditions, %r" % (n, len(conds), m["background_grid_settings"]["lower_bound_xyz"]))


SPACES = ["", " ", "\n", "\t", "  ", " \n\t "]


def emit(c, v):
    """Independent JSON writer with random white space and number formats."""
    sp = lambda: c.pick(SPACES)
    if isinstance(v, dict):
        return "{" + ",".join(sp() + emit(c, k) + sp() + ":" + sp() + emit(c, x) + sp() for k, x in v.items()) + sp() + "}"
    if isinstance(v, list):
        return "[" + ",".join(sp() + emit(c, x) + sp() for x in v) + "]"
    if isinstance(v, float):
        return c.pick([repr(v), "%.17e" % v, "%.17g" % v if "." in "%.17g" % v or "e" in "%.17g" % v else repr(v)])
    if isinstance(v, str):
        return json.dumps(v, ensure_ascii=c.bool(50))
    return json.dumps(v)


WRONG = {  # values of a JSON type that does not fit
    "s": [5, -5, 1.5, True, False, [1, 2, 3], None], "i": ["5", -1, 1.5, True, False, [1, 2, 3], -1.0, None],
    "b": ["true", 0, 1, -1, 2, 1.5, 0.0, None, [1, 2, 3]], "d": ["1.5", True, False, None, [1.0, 2.0, 3.0]],
    "v": [1.5, "1", True, [1.0, 2.0], [1.0, 2.0, 3.0, 4.0], [1.0, "a", 2.0], ["1", "2", "3"], [1.0, None, 2.0]],
    "n": [5, "1", [1, 2], [1, 2, 3, 4], [1, -2, 3], [1.5, 2, 3], [0.0, 1.0, 2.0], [1, "a", 3]],
    "m": ["gauss", "GGQ", "Gauss_Reduced3", "b_spline_grid", ""], "g": ["b_spline", "Gauss", "hexahedral", ""]}


@sub("Q27", "handwritten", "at least three values are given", 2000, 80000)
def handwritten(c):
    """Files written by other programs: order, white space, number formats, partial content; one fault in a third of them."""
    from QuESoPythonModule.scripts.json_io import JsonIO
    model = co.random_model(c, fill=60)
    data = co.as_json(c, model)
    fault = None
    if c.bool(35):
        secs = [k for k in data if k != co.LIST] or ["general_settings"]
        kind = c.draw(6)
        sec = c.pick(sorted(secs))
        data.setdefault(sec, {})
        keys = co.SCHEMA[sec]
        target, name = data[sec], sec
        if data.get(co.LIST) and c.bool(40):
            target, keys, name = c.pick(data[co.LIST]), co.CONDITION, "condition"
        if kind == 0:
            bad = c.pick(["unknown", "Echo_level", "echo_level ", "", "lower_bound", "general_settings", "condition", "penalty_factor_"])
            target[bad] = c.pick([1, 1.5, "x", True, [1, 2, 3]])
            fault = "unknown key %r in %s" % (bad, name)
        elif kind == 1:
            bad = c.pick(["unknown_settings", "General_settings", "general"])
            data[bad] = {"echo_level": 1}
            fault = "unknown section %r" % bad
        elif kind == 2:
            bad = c.pick(["conditions_list", "condition_settings_list", "general_settings"])
            data[bad] = [{"condition_id": 1}]
            fault = "unknown list %r" % bad
        elif kind == 3:
            data[co.LIST] = c.pick([{"condition_id": 1}, 5, "x", [1, 2, 3]])
            fault = "list of conditions is %r" % (data[co.LIST],)
        else:
            k = c.pick(sorted(keys))
            v = c.pick(WRONG[keys[k][0]])
            target[k] = v
            fault = "%s/%s = %r" % (name, k, v)
    txt = emit(c, data)
    with open("h.json", "w", encoding="utf-8") as f:
        f.write(txt)
    c.label("fault" if fault else "intact")
    n = sum(len(v) if isinstance(v, (dict, list)) else 1 for v in data.values())
    c.nontrivial = n >= 3
    c.note((fault or "intact") + " " + txt[:150].replace("\n", " "))
    try:
        holder = JsonIO.read_settings("h.json")
    except Exception as e:
        c.check(fault is not None, "rejected", lambda: "intact file rejected: %s: %s" % (type(e).__name__, str(e)[-400:]))
        return
    c.check(fault is None, "accepted", lambda: "accepted although " + fault)
    co.compare(c, Q(), holder.GetObject(), model, "read")


# ----------------------------------------------------------------------------------------------------------------- Q28
def bspline_value(t, cp, p, u):
    """Value by the recursive definition of the basis functions (right-continuous, last span closed)."""
    n = len(cp)
    k = p
    for i in range(p, n):
        if t[i] <= u and t[i] < t[i + 1]:
            k = i
    d = [cp[j] for j in range(k - p, k + 1)]
    for r in range(1, p + 1):
        for j in range(p, r - 1, -1):
            i = j + k - p
            a = (u - t[i]) / (t[i + p - r + 1] - t[i])
            d[j] = (1.0 - a) * d[j - 1] + a * d[j]
    return d[p]


@sub("Q28", "volume", "at least two elements and order two in one direction", 1000, 30000)
def volume(c):
    from QuESoPythonModule.scripts.b_spline_volume import BSplineVolume
    p = [c.range(1, 5) for _ in range(3)]
    n = [c.pick([1, 2, 3, c.range(1, 12), c.range(1, 12), c.range(1, 40)]) for _ in range(3)]
    if c.bool(25):
        n[c.draw(3)] = c.range(1, 600)
    while (n[0] + p[0]) * (n[1] + p[1]) * (n[2] + p[2]) > 20000:
        n[n.index(max(n))] = max(1, max(n) // 2) if max(n) > 12 else 12
        if max(n) <= 24:
            break
    def box():
        lo, up = [], []
        s = c.pick([1.0, 1.0, 10.0, 1e3, 1e-2, 0.1])
        for _ in range(3):
            a = c.real(-10.0, 10.0) * s
            if c.bool(20):
                a *= 100.0
            lo.append(a)
            up.append(a + (c.range(1, 20) if c.bool(40) else c.real(0.05, 20.0)) * s)
        return lo, up
    (lx, ux), (lu, uu) = box(), box()
    if c.bool(30):
        lu, uu = [0.0] * 3, [1.0] * 3
    if c.bool(20):
        lu, uu = list(lx), list(ux)
    h = Q().Dictionary.Create("Settings")
    g = h.GetObject()["background_grid_settings"]
    for k, v in (("lower_bound_xyz", lx), ("upper_bound_xyz", ux), ("lower_bound_uvw", lu), ("upper_bound_uvw", uu),
                 ("polynomial_order", p), ("number_of_elements", n)):
        g.SetValue(k, v)
    open_ = bool(c.draw(2))
    c.label("open" if open_ else "non-open")
    c.note("p %s n %s xyz %s %s uvw %s %s %s" % (p, n, lx, ux, lu, uu, "open" if open_ else "non-open"))
    c.nontrivial = max(n) >= 2 and max(p) >= 2
    vol = BSplineVolume(h.GetObject(), "open_knot_vector" if open_ else "non_open_knot_vector")
    c.check(list(vol.PolynomialOrder()) == p, "order", "PolynomialOrder differs from the settings")
    counts = [vol.NumberControlPointsInU(), vol.NumberControlPointsInV(), vol.NumberControlPointsInW()]
    c.check(counts == [n[i] + p[i] for i in range(3)], "count", lambda: "number of control points %r" % counts)
    knots = [vol.KnotsU(), vol.KnotsV(), vol.KnotsW()]
    coords = []
    for d in range(3):
        s = vol.GetSpline(d)
        t, cp = [float(x) for x in s.t], [float(x) for x in s.c]
        coords.append(cp)
        c.check(knots[d] == t and s.k == p[d], "spline", "knots or order of GetSpline differ")
        du = (uu[d] - lu[d]) / n[d]
        su, sx = max(abs(lu[d]), abs(uu[d])), max(abs(lx[d]), abs(ux[d]))
        tolu = 1e-11 * max(su, uu[d] - lu[d])
        ref = [lu[d]] * p[d] if open_ else [lu[d] - (p[d] - i) * du for i in range(p[d])]
        ref += [lu[d] + i * du for i in range(n[d] + 1)]
        ref += [uu[d]] * p[d] if open_ else [uu[d] + (i + 1) * du for i in range(p[d])]
        c.check(len(t) == len(ref), "knots", lambda: "%d knots instead of %d in direction %d" % (len(t), len(ref), d))
        err = max(abs(a - b) for a, b in zip(t, ref))
        c.check(err <= tolu, "knots", lambda: "knot vector off by %g in direction %d" % (err, d))
        # The control points of the identity are the means of p consecutive knots.
        scale = (ux[d] - lx[d]) / (uu[d] - lu[d])
        tolx = 1e-9 * max(sx, ux[d] - lx[d]) + 1e-9 * su * scale
        for i in range(n[d] + p[d]):
            m = sum(ref[i + 1:i + p[d] + 1]) / p[d]
            x = lx[d] + (m - lu[d]) * scale
            c.check(abs(cp[i] - x) <= tolx, "points", lambda: "control point %d of direction %d is %r instead of %r" % (i, d, cp[i], x))
        for _ in range(4):
            u = lu[d] + (uu[d] - lu[d]) * c.real(0.0, 1.0)
            x = lx[d] + (u - lu[d]) * scale
            v = bspline_value(t, cp, p[d], u)
            c.check(abs(v - x) <= tolx, "mapping", lambda: "u=%r of direction %d is mapped to %r instead of %r" % (u, d, v, x))
    pts = vol.ControlPoints()
    N = counts
    c.check(len(pts) == N[0] * N[1] * N[2], "list", "number of points in the list")
    mat = vol.ControlPointsMatrix()
    c.check(tuple(mat.shape) == (N[0], N[1], N[2], 3), "matrix", lambda: "shape %r" % (mat.shape,))
    k = 0
    for w in range(N[2]):
        for v in range(N[1]):
            for u in range(N[0]):
                e = (coords[0][u], coords[1][v], coords[2][w])
                c.check(tuple(pts[k]) == e, "list", lambda: "point %d of the list" % k)
                k += 1
    for _ in range(20):
        u, v, w = c.draw(N[0]), c.draw(N[1]), c.draw(N[2])
        c.check(tuple(mat[u, v, w]) == (coords[0][u], coords[1][v], coords[2][w]), "matrix", lambda: "entry %d %d %d" % (u, v, w))
    for bad in (3, -1, 7):
        try:
            vol.GetSpline(bad)
            ok = False
        except Exception:
            ok = True
        c.check(ok, "errors", "GetSpline accepts an invalid direction")
    try:
        BSplineVolume(h.GetObject(), c.pick(["open", "", "closed_knot_vector", "Open_knot_vector"]))
        ok = False
    except Exception:
        ok = True
    c.check(ok, "errors", "invalid type of knot vector accepted")


if __name__ == "__main__":
    pbt.main()
