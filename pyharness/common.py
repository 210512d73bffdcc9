"""Independent description of the settings and random settings."""
import math

# name -> (type, default); kinds: s string, i index, b bool, d number, v three numbers, n three indices, m rule, g grid type
SCHEMA = {
    "general_settings": {"input_filename": ("s", None), "output_directory_name": ("s", "queso_output"), "echo_level": ("i", 1),
                         "write_output_to_file": ("b", True)},
    "background_grid_settings": {"grid_type": ("g", None), "lower_bound_xyz": ("v", None), "upper_bound_xyz": ("v", None),
                                 "lower_bound_uvw": ("v", None), "upper_bound_uvw": ("v", None),
                                 "polynomial_order": ("n", None), "number_of_elements": ("n", None)},
    "trimmed_quadrature_rule_settings": {"moment_fitting_residual": ("d", 1e-10), "min_element_volume_ratio": ("d", 1e-3),
                                         "min_num_boundary_triangles": ("i", 100),
                                         "neglect_elements_if_stl_is_flawed": ("b", True),
                                         "activate_fictitious_domain_with_alpha": ("d", None)},
    "non_trimmed_quadrature_rule_settings": {"integration_method": ("m", "Gauss")},
}
CONDITION = {"condition_id": ("i", None), "condition_type": ("s", None), "input_filename": ("s", None), "modulus": ("d", None),
             "direction": ("v", None), "value": ("v", None), "penalty_factor": ("d", None)}
METHODS = ["Gauss", "Gauss_Reduced1", "Gauss_Reduced2", "GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2"]
GRIDS = ["b_spline_grid", "hexahedral_fe_grid"]
LIST = "conditions_settings_list"


def number(c):
    """A finite number, often an integer, negative or extreme."""
    k = c.draw(8)
    if k == 0:
        return float(c.range(-20, 20))
    if k == 1:
        return -float(c.range(0, 10 ** 9))
    if k == 2:
        return c.pick([0.0, 1e-300, -1e300, 1e16, 1e10, 1e22, 0.1, -0.1, 1 / 3.0, 123456789.123456789, 2.0 ** 63, 2.0 ** 64, 5e-324])
    if k == 3:
        return (1 if c.bool() else -1) * c.log(1e-12, 1e12)
    return c.real(-100.0, 100.0)


TEXTS = ["dummy.stl", "a b/c.stl", "queso/tests/x.stl", "", "quote\".stl", "back\\slash.stl", "C:\\dir\\x.stl", "tab\t.stl", "Größe.stl",
         "line\nbreak", "{brace}", "[1, 2, 3]", "true", "5", "name,with: sep", "/slash/", "\u2028sep", "PenaltySupportCondition", "null"]


def text(c):
    if c.bool(60):
        return c.pick(TEXTS)
    return "".join(chr(c.pick([32, 33, 34, 39, 44, 47, 58, 91, 92, 93, 97, 98, 123, 125, 9, 10, 13, 0xe4, 0x20ac, 0x1f600, 1, 127]))
                   for _ in range(c.range(0, 8)))


def value(c, kind):
    if kind == "s":
        return text(c)
    if kind == "i":
        return c.pick([0, 1, 2, 3, 7, 100, 2 ** 31, 2 ** 40, c.range(0, 10 ** 6)])
    if kind == "b":
        return bool(c.draw(2))
    if kind == "d":
        return number(c)
    if kind == "v":
        return [number(c) for _ in range(3)]
    if kind == "n":
        return [c.range(0, 9) if c.bool(70) else c.range(0, 2 ** 33) for _ in range(3)]
    if kind == "m":
        return c.pick(METHODS)
    return c.pick(GRIDS)


def random_model(c, fill=70):
    """Random content: (dictionary of the values, list of conditions); None = not set."""
    m = {}
    for sec, keys in SCHEMA.items():
        m[sec] = {k: (value(c, t) if c.bool(fill) else d) for k, (t, d) in keys.items()}
    conds = [{k: (value(c, t) if c.bool(fill) else d) for k, (t, d) in CONDITION.items()} for _ in range(c.pick([0, 1, 2, 0, 3]))]
    return m, conds


def get(Q, d, key, kind):
    if not d.IsSet(key):
        return None
    return {"s": d.GetString, "i": d.GetInt, "b": d.GetBool, "d": d.GetDouble, "v": d.GetDoubleVector, "n": d.GetIntVector,
            "m": lambda k: d.GetIntegrationMethod(k).name, "g": lambda k: d.GetGridType(k).name}[kind](key)


def same(a, b, kind, tol):
    if a is None or b is None:
        return a is None and b is None
    if kind in "dv":
        a, b = (a, b) if kind == "v" else ([a], [b])
        return len(a) == len(b) and all(abs(x - y) <= tol * max(abs(x), abs(y)) for x, y in zip(a, b))
    if kind == "n":
        return list(a) == list(b) and all(type(x) is int for x in a)
    return type(a) is type(b) and a == b


def compare(c, Q, settings, model, what, tol=0.0):
    """Compares a settings object with the expected content."""
    m, conds = model
    for sec, keys in SCHEMA.items():
        for k, (t, _) in keys.items():
            v = get(Q, settings[sec], k, t)
            c.check(same(v, m[sec][k], t, tol), "content", lambda: "%s: %s/%s is %r instead of %r" % (what, sec, k, v, m[sec][k]))
    lst = settings.GetList(LIST)
    c.check(len(lst) == len(conds), "content", lambda: "%s: %d conditions instead of %d" % (what, len(lst), len(conds)))
    for d, e in zip(lst, conds):
        for k, (t, _) in CONDITION.items():
            v = get(Q, d, k, t)
            c.check(same(v, e[k], t, tol), "content", lambda: "%s: condition %s is %r instead of %r" % (what, k, v, e[k]))


def enum(Q, kind, v):
    return getattr(Q.IntegrationMethod if kind == "m" else Q.GridType, v)


def fill_dict(c, Q, d, keys, content, vary=True):
    for k, (t, _) in keys.items():
        v = content[k]
        if v is None:
            continue
        if t in "mg":
            v = enum(Q, t, v)
        elif vary and t in "vn":
            v = c.pick([list, tuple])(v)
            if t == "v" and c.bool(30) and all(x == int(x) and abs(x) < 2 ** 53 for x in v):
                v = [int(x) for x in v]
        elif vary and t == "d" and v == int(v) and abs(v) < 2 ** 53 and c.bool(50):
            v = int(v)
        d.SetValue(k, v)


def build(c, Q, model):
    """Settings object set value by value through the bindings."""
    m, conds = model
    holder = Q.Dictionary.Create("Settings")
    s = holder.GetObject()
    for sec, keys in SCHEMA.items():
        fill_dict(c, Q, s[sec], keys, m[sec])
    lst = s.GetList(LIST)
    for e in conds:
        h = Q.Dictionary.Create("ConditionSettings")
        fill_dict(c, Q, h.GetObject(), CONDITION, e)
        lst.append(h)
    return holder


def as_json(c, model, vary=True):
    """The content as a plain dictionary in random order; values that equal the default are sometimes left out."""
    m, conds = model

    def num(x):
        return int(x) if vary and x == int(x) and abs(x) < 2 ** 53 and c.bool(60) else x

    def sect(keys, content):
        out = {}
        for k in (c.shuffle(keys) if vary else list(keys)):
            t, d = keys[k]
            v = content[k]
            if v is None or (v == d and c.bool(50)):
                if v is None and c.bool(20):
                    out[k] = "Not Set."
                continue
            out[k] = num(v) if t == "d" else [num(x) for x in v] if t == "v" else v
        return out
    res = {}
    for sec in (c.shuffle(list(SCHEMA) + [LIST]) if vary else list(SCHEMA) + [LIST]):
        if sec == LIST:
            if conds or c.bool(50):
                res[LIST] = [sect(CONDITION, e) for e in conds]
        else:
            d = sect(SCHEMA[sec], m[sec])
            if d or c.bool(50):
                res[sec] = d
    return res


def finite(x):
    return isinstance(x, float) and math.isfinite(x)
