"""Q34 the Python interface gives the C++ model, Q39 lifetimes and indices, Q40 the output directory."""
import gc, json, math, os
import pbt
from pbt import sub
import common as co
import solids as so


def Q():
    import QuESoPythonModule
    return QuESoPythonModule


def close(a, b, tol=1e-12, scale=0.0):
    return abs(a - b) <= tol * max(abs(a), abs(b), scale)


def near(a, b, tol, scale):
    return len(a) == len(b) and all(abs(x - y) <= tol * scale for x, y in zip(a, b))


CONDITIONS = ["PenaltySupportCondition", "LagrangeSupportCondition", "SurfaceLoadCondition", "PressureLoadCondition"]


def random_case(c, small=False):
    """Random solid, grid and conditions written to files of the current directory: (solid, content of the settings)."""
    v, t = so.random_solid(c)
    so.write_stl("solid.stl", v, t, c.bool(70))
    lo = [min(p[i] for p in v) for i in range(3)]
    hi = [max(p[i] for p in v) for i in range(3)]
    n = [c.range(1, 2 if small else 4) for _ in range(3)]
    if c.bool(15):
        n[c.draw(3)] = c.range(1, 10)
    p = [c.range(1, 2) for _ in range(3)]
    m = {sec: {k: d for k, (_, d) in keys.items()} for sec, keys in co.SCHEMA.items()}
    method = c.pick(co.METHODS[:3]) if c.bool(70) else c.pick(co.METHODS)
    if method == "Gauss_Reduced2":
        p = [max(2, x) for x in p]
    if method.startswith("GGQ"):
        p = [c.pick([2, 2, 3]) if small is False and c.bool(20) else 2] * 3
    g = m["background_grid_settings"]
    ext = [hi[i] - lo[i] for i in range(3)]
    g["lower_bound_xyz"] = [lo[i] - ext[i] * c.pick([0.1, 0.02, 0.37, c.real(0.01, 0.5)]) for i in range(3)]
    g["upper_bound_xyz"] = [hi[i] + ext[i] * c.pick([0.1, 0.02, 0.37, c.real(0.01, 0.5)]) for i in range(3)]
    g["lower_bound_uvw"] = [float(c.range(-3, 3)) for _ in range(3)]
    g["upper_bound_uvw"] = [g["lower_bound_uvw"][i] + c.pick([1.0, 2.0, 0.5, c.real(0.1, 5.0)]) for i in range(3)]
    if c.bool(30):
        g["lower_bound_uvw"], g["upper_bound_uvw"] = list(g["lower_bound_xyz"]), list(g["upper_bound_xyz"])
    g["grid_type"] = "b_spline_grid" if method.startswith("GGQ") else c.pick(co.GRIDS)
    g["polynomial_order"], g["number_of_elements"] = p, n
    s = m["general_settings"]
    s["input_filename"], s["echo_level"] = "solid.stl", c.pick([0, 0, 1, 2])
    s["output_directory_name"] = c.pick(["out", "queso_output", "res.v1", "a b"])
    s["write_output_to_file"] = c.bool(70)
    m["non_trimmed_quadrature_rule_settings"]["integration_method"] = method
    r = m["trimmed_quadrature_rule_settings"]
    r["min_num_boundary_triangles"] = c.pick([20, 50, 100])
    r["moment_fitting_residual"] = c.pick([1e-10, 1e-8, 1e-6])
    if c.bool(15):
        r["activate_fictitious_domain_with_alpha"] = 1e-5
    conds = []
    for i in range(c.pick([0, 1, 2])):
        part = [x for x in t if c.bool(60)] or [t[0]]
        name = "cond%d.stl" % i
        so.write_stl(name, v, part, c.bool(70))
        e = {k: None for k in co.CONDITION}
        e["condition_id"], e["condition_type"], e["input_filename"] = i + 1 + c.draw(3), c.pick(CONDITIONS), name
        for k, (ty, _) in co.CONDITION.items():
            if e[k] is None and c.bool(70):
                e[k] = co.value(c, ty)
        e["part"] = part
        conds.append(e)
    if len(conds) == 2 and conds[0]["condition_id"] >= conds[1]["condition_id"]:
        conds[1]["condition_id"] = conds[0]["condition_id"] + 1
    return (v, t), (m, conds)


def write_settings(c, model):
    m, conds = model
    data = co.as_json(c, (m, [{k: e[k] for k in co.CONDITION} for e in conds]))
    with open("s.json", "w", encoding="utf-8") as f:
        json.dump(data, f)


def cell_bounds(g, ident, space):
    n = g["number_of_elements"]
    lo, up = g["lower_bound_" + space], g["upper_bound_" + space]
    if space == "uvw" and g["grid_type"] == "hexahedral_fe_grid":
        return lo, up
    k = ident - 1
    ijk = (k % n[0], (k // n[0]) % n[1], k // (n[0] * n[1]))
    h = [(up[i] - lo[i]) / n[i] for i in range(3)]
    return [lo[i] + ijk[i] * h[i] for i in range(3)], [lo[i] + (ijk[i] + 1) * h[i] for i in range(3)]


def info_dict(d):
    return json.loads(str(d))


@sub("Q34", "model", "a model with cut cells and at least eight points", 320, 12000, timeout=120)
def model(c):
    from QuESoPythonModule.PyQuESo import PyQuESo
    from QuESoPythonModule.scripts import helper
    (v, t), (m, conds) = random_case(c)
    write_settings(c, (m, conds))
    g, gen = m["background_grid_settings"], m["general_settings"]
    outdir, write = gen["output_directory_name"], gen["write_output_to_file"]
    plain = (m, [{k: e[k] for k in co.CONDITION} for e in conds])
    c.note("%d triangles, n %s p %s %s %s, %d conditions" % (len(t), g["number_of_elements"], g["polynomial_order"],
           m["non_trimmed_quadrature_rule_settings"]["integration_method"], g["grid_type"], len(conds)))
    pq = PyQuESo("s.json")
    c.check(os.path.isdir(outdir) == write, "directory", "output directory exists / does not exist")
    co.compare(c, Q(), pq.GetSettings(), plain, "settings before Run", 1e-15)
    pq.Run()
    co.compare(c, Q(), pq.GetSettings(), plain, "settings after Run", 1e-15)
    elements = pq.GetElements()
    info = info_dict(pq.GetModelInfo())
    gi, qi = info["background_grid_info"], info["quadrature_info"]
    ids = [e.ID() for e in elements]
    N = g["number_of_elements"][0] * g["number_of_elements"][1] * g["number_of_elements"][2]
    c.check(len(set(ids)) == len(ids) and all(1 <= i <= N for i in ids), "ids", lambda: "ids %r of %d cells" % (ids, N))
    c.check(len(ids) == gi["num_active_elements"] and sum(e.IsTrimmed() for e in elements) == gi["num_trimmed_elements"],
            "count", lambda: "%d elements, info %r" % (len(ids), gi))
    scale = max(max(abs(x) for x in g[k]) for k in ("lower_bound_xyz", "upper_bound_xyz"))
    uscale = max(max(abs(x) for x in g[k]) for k in ("lower_bound_uvw", "upper_bound_uvw"))
    total, volume, globs, flat, weights = 0, 0.0, [], [], []
    bx = (g["lower_bound_xyz"], g["upper_bound_xyz"])
    for e in elements:
        (lx, ux), (lu, uu) = cell_bounds(g, e.ID(), "xyz"), cell_bounds(g, e.ID(), "uvw")
        c.check(near(e.LowerBoundXYZ(), lx, 1e-12, scale) and near(e.UpperBoundXYZ(), ux, 1e-12, scale), "bounds",
                lambda: "element %d spans %r %r instead of %r %r" % (e.ID(), e.LowerBoundXYZ(), e.UpperBoundXYZ(), lx, ux))
        c.check(near(e.LowerBoundUVW(), lu, 1e-12, uscale) and near(e.UpperBoundUVW(), uu, 1e-12, uscale), "bounds",
                lambda: "element %d spans %r %r in parameters instead of %r %r" % (e.ID(), e.LowerBoundUVW(), e.UpperBoundUVW(), lu, uu))
        detj = math.prod((ux[i] - lx[i]) / (uu[i] - lu[i]) for i in range(3))
        pts = e.GetIntegrationPoints()
        for p in pts:
            x = (p.x, p.y, p.z)
            c.check(tuple(p) == x and p[0] == x[0] and p[1] == x[1] and p[2] == x[2] and p[-1] == x[2] and len(p) == 3, "point",
                    "coordinates by name, index and iteration differ")
            c.check(p.weight > 0 and all(lu[i] - 1e-9 * uscale <= x[i] <= uu[i] + 1e-9 * uscale for i in range(3)), "point",
                    lambda: "point %r of weight %r outside %r %r" % (x, p.weight, lu, uu))
            volume += p.weight * detj
            total += 1
            flat.append(x + (p.weight,))
            weights.append(p.weight * detj)
            y = helper.point_from_param_to_global_space(x, (lx, ux), (lu, uu))
            globs.append(y)
            z = helper.point_from_global_to_param_space(y, (lx, ux), (lu, uu))
            c.check(near(z, x, 1e-9, uscale + scale * max((uu[i] - lu[i]) / (ux[i] - lx[i]) for i in range(3))), "helper",
                    lambda: "mapping there and back gives %r instead of %r" % (z, x))
            for i in range(3):
                ref = lx[i] + (x[i] - lu[i]) / (uu[i] - lu[i]) * (ux[i] - lx[i])
                c.check(abs(ref - y[i]) <= 1e-9 * (scale + (ux[i] - lx[i]) / (uu[i] - lu[i]) * uscale), "helper",
                        lambda: "point %r is mapped to %r" % (x, y))
    c.check(total == qi["tot_num_points"] and close(volume, qi["represented_volume"], 1e-8), "info",
            lambda: "%d points, volume %r, info %r" % (total, volume, qi))
    if m["trimmed_quadrature_rule_settings"]["activate_fictitious_domain_with_alpha"] is None:
        exact = so.volume(v, t)
        c.check(close(info["embedded_geometry_info"]["volume"], exact, 1e-9) and info["embedded_geometry_info"]["is_closed"], "info",
                lambda: "volume of the solid %r instead of %r" % (info["embedded_geometry_info"], exact))
    allp = pq.GetIntegrationPoints()
    c.check([(p.x, p.y, p.z, p.weight) for p in allp] == flat, "all points", "PyQuESo.GetIntegrationPoints differs from the points of the elements")
    if write:
        pts, w = so.read_vtk_points(os.path.join(outdir, "integration_points.vtk"))
        c.check(len(pts) == total, "files", "number of points of the VTK file")
        for a, b in zip(pts, globs):
            c.check(near(a, b, 1e-9, scale + uscale * max((bx[1][i] - bx[0][i]) / (g["upper_bound_uvw"][i] - g["lower_bound_uvw"][i])
                    for i in range(3))), "files", lambda: "point %r of the VTK file is %r in Python" % (a, b))
        for a, b in zip(w, weights):
            c.check(close(a, b, 1e-9), "files", lambda: "weight %r of the VTK file is %r in Python" % (a, b))
        with open(os.path.join(outdir, "model_info.json")) as f:
            c.check(json.load(f) == info, "files", "model_info.json differs from GetModelInfo")
    # Conditions.
    cl = pq.GetConditions()
    c.check(len(cl) == len(conds), "conditions", "number of conditions")
    for cond, e, ci in zip(cl, conds, info["conditions_infos_list"]):
        c.check(cond.is_weak_condition(), "conditions", "is_weak_condition")
        cs = cond.GetSettings()
        for k, (ty, _) in co.CONDITION.items():
            c.check(co.same(co.get(Q(), cs, k, ty), e[k], ty, 1e-15), "conditions", lambda: "setting %s of the condition" % k)
        segs = cond.GetSegments()
        c.check(len(segs) == cond.NumberOfSegments() == len(list(segs)), "conditions", "number of segments")
        tris, parea = [], 0.0
        for k in range(len(segs)):
            mesh = segs[k].GetTriangleMesh()
            check_mesh(c, mesh, scale)
            tris += [(x.p1, x.p2, x.p3) for x in mesh.Triangles()]
            parea += Q().MeshUtil.Area(mesh)
        exact = sum(so.area(*(v[i] for i in x)) for x in e["part"])
        c.check(close(ci["surf_area"], exact, 1e-8), "conditions", lambda: "area %r instead of %r" % (ci["surf_area"], exact))
        c.check(close(parea, exact, 1e-6), "conditions", lambda: "area of all segments %r instead of %r" % (parea, exact))
        if write:
            f = so.read_stl(os.path.join(outdir, "condition_id_%d.stl" % e["condition_id"]))
            c.check(len(f) == len(tris), "files", "number of triangles of the STL file of the condition")
            for a, b in zip(f, tris):
                c.check(all(near(a[k], b[k], 1e-6, scale) for k in range(3)), "files", "triangles of the STL file of the condition")
    c.label("conditions:%d" % len(conds))
    c.label("trimmed" if gi["num_trimmed_elements"] else "untrimmed")
    c.nontrivial = gi["num_trimmed_elements"] > 0 and total >= 8


RULE_DEGREE = {0: 1, 1: 2, 2: 3, 3: 4, 4: 4}


def check_mesh(c, mesh, scale):
    verts = list(mesh.Vertices())
    c.check(len(verts) == mesh.NumOfVertices() and all(type(x) is tuple and len(x) == 3 for x in verts), "mesh", "vertices")
    tris = list(mesh.Triangles())
    c.check(len(tris) == mesh.NumOfTriangles(), "mesh", "number of triangles")
    area = vol = 0.0
    known = set(verts)
    for t in tris:
        p, q, r = t.p1, t.p2, t.p3
        c.check(p in known and q in known and r in known, "mesh", lambda: "corner %r is no vertex of the mesh" % (p,))
        a = so.area(p, q, r)
        area += a
        vol += so.dot(p, so.cross(q, r)) / 6.0
        c.check(close(t.Area(), a, 1e-9, 1e-6 * scale * scale), "mesh", lambda: "area %r instead of %r" % (t.Area(), a))
        c.check(near(t.Center(), [(p[i] + q[i] + r[i]) / 3 for i in range(3)], 1e-12, scale), "mesh", "centre")
        if a > 1e-6 * scale * scale:
            n = so.normal(p, q, r)
            c.check(near(t.normal, n, 1e-5, 1.0), "mesh", lambda: "normal %r instead of %r" % (t.normal, n))
        k = c.draw(5)
        ips = t.GetIPsGlobal(k)
        c.check(close(sum(x.weight for x in ips), a, 1e-9, 1e-6 * scale * scale), "mesh", lambda: "weights of rule %d" % k)
        for i in range(3):
            c.check(close(sum(x.weight * x[i] for x in ips), a * (p[i] + q[i] + r[i]) / 3, 1e-9, 1e-6 * scale ** 3), "mesh",
                    lambda: "first moment of rule %d" % k)
        for x in ips:
            c.check((x.x, x.y, x.z) == tuple(x) and len(x) == 3, "mesh", "coordinates of a boundary point")
            if a > 1e-6 * scale * scale:
                c.check(near(x.normal, so.normal(p, q, r), 1e-5, 1.0), "mesh", "normal of a boundary point")
    c.check(close(Q().MeshUtil.Area(mesh), area, 1e-9, 1e-6 * scale * scale), "mesh", "MeshUtil.Area")
    return area, vol


@sub("Q34", "mesh", "at least four triangles", 1200, 40000)
def mesh(c):
    """Meshes filled from Python or from files."""
    v, t = so.random_solid(c)
    if c.bool(30):
        t = [x for x in t if c.bool(70)] or t[:1]
        c.label("open")
    M = Q().TriangleMesh()
    scale = max(abs(x) for p in v for x in p)
    closed = "open" not in c.classes
    if c.bool(50):
        if c.bool(50):
            M.Reserve(c.draw(100))
        for i, p in enumerate(v):
            k = M.AddVertex(c.pick([list, tuple])(p))
            c.check(k == i, "index", lambda: "AddVertex returned %r" % k)
        for x in t:
            M.AddTriangle(c.pick([list, tuple])(x))
        c.check(list(M.Vertices()) == [tuple(p) for p in v], "vertices", "vertices differ from those added")
        c.label("added")
    else:
        so.write_stl("m.stl", v, t, c.bool(50))
        Q().IO.ReadMeshFromSTL(M, "m.stl")
        c.label("file")
    got = [(x.p1, x.p2, x.p3) for x in M.Triangles()]
    want = [tuple(tuple(v[i]) for i in x) for x in t]
    c.check(got == want, "triangles", lambda: "triangles differ: %r instead of %r" % (got[:2], want[:2]))
    area, vol = check_mesh(c, M, scale)
    if closed:
        c.check(close(Q().MeshUtil.Volume(M), so.volume(v, t), 1e-9, 1e-6 * scale ** 3), "volume", "MeshUtil.Volume")
    c.nontrivial = len(t) >= 4
    c.note("%d vertices, %d triangles" % (len(v), len(t)))


# ----------------------------------------------------------------------------------------------------------------- Q39
class Pool:
    """Objects with a reader; every object must give the same values as long as it is referenced."""
    def __init__(self, c):
        self.c, self.items, self.own = c, [], []

    def add(self, kind, obj, read):
        self.items.append([kind, obj, read, read(obj)])

    def of(self, *kinds):
        k = [x for x in self.items if x[0] in kinds]
        return self.c.pick(k) if k else None

    def verify(self, when):
        for kind, obj, read, value in self.items:
            now = read(obj)
            self.c.check(now == value, "changed", lambda: "%s reads %r instead of %r after %s" % (kind, now, value, when))


class Lazy:
    """An iterator that was begun and is read on later; it has to give what its origin held, whatever happened to the origin."""
    def __init__(self, begin, read):
        want = [read(y) for y in begin()]
        self.it, self.read, self.want = iter(begin()), read, want

    def take(self, c, n):
        for _ in range(n):
            if not self.want:
                return
            try:
                now = self.read(next(self.it))
            except StopIteration:
                now = "end of the iterator"
            w = self.want.pop(0)
            c.check(now == w, "iterator", lambda: "gives %r instead of %r" % (now, w))


def r_element(e):
    return (e.ID(), e.IsTrimmed(), tuple(e.LowerBoundXYZ()), tuple(e.UpperBoundUVW()), [(p.x, p.y, p.z, p.weight) for p in e.GetIntegrationPoints()][:4])


def r_points(v):
    return (len(v), [(p.x, p.y, p.z, p.weight) for p in v][:6])


def r_point(p):
    return (p.x, p.y, p.z, p.weight, tuple(p), repr(p))


def r_mesh(m):
    return (m.NumOfTriangles(), m.NumOfVertices(), list(m.Vertices())[:4])


def r_tri(t):
    return (t.p1, t.p2, t.p3, t.normal, t.Area(), t.Center())


def r_cond(x):
    return (x.NumberOfSegments(), str(x.GetSettings()), len(x.GetSegments()))


def r_segment(s):
    return r_mesh(s.GetTriangleMesh())


def steps(pool, c, Q_):
    """One random operation; returns its name."""
    k = c.draw(27)
    if k == 0:
        x = pool.of("queso")
        if x:
            els = x[1].GetElements()
            if len(els):
                pool.add("element", els[c.draw(len(els))], r_element)
            return "GetElements"
    elif k == 1:
        x = pool.of("model")
        if x:
            els = x[1].GetElements()
            if len(els):
                pool.add("element", els[c.draw(len(els))], r_element)
                if c.bool(30):
                    pool.add("elements", els, lambda l: [r_element(e) for e in l[:3]])
            return "GetElements"
    elif k == 2:
        x = pool.of("element")
        if x:
            pool.add("points", x[1].GetIntegrationPoints(), r_points)
            return "points"
    elif k == 3:
        x = pool.of("points")
        if x and len(x[1]):
            i = c.draw(len(x[1]))
            pool.add("point", x[1][i if c.bool(70) else i - len(x[1])], r_point)
            return "point"
    elif k == 4:
        x = pool.of("queso", "model")
        if x:
            pool.add("conditions", x[1].GetConditions(), lambda l: [r_cond(y) for y in l])
            return "GetConditions"
    elif k == 5:
        x = pool.of("conditions")
        if x and len(x[1]):
            pool.add("condition", x[1][c.draw(len(x[1]))], r_cond)
            return "condition"
    elif k == 6:
        x = pool.of("condition")
        if x:
            pool.add("dict", x[1].GetSettings(), str)
            return "condition settings"
    elif k == 7:
        x = pool.of("condition")
        if x:
            pool.add("segments", x[1].GetSegments(), len)
            return "segments"
    elif k == 8:
        x = pool.of("segments")
        if x and len(x[1]):
            s = x[1][c.draw(len(x[1]))] if c.bool() else list(x[1])[c.draw(len(x[1]))]
            pool.add("segment", s, r_segment)
            return "segment"
    elif k == 9:
        x = pool.of("segment")
        if x:
            pool.add("mesh", x[1].GetTriangleMesh(), r_mesh)
            return "segment mesh"
    elif k == 10:
        x = pool.of("mesh")
        if x and x[1].NumOfTriangles():
            it = x[1].Triangles()
            for _ in range(c.range(0, min(3, x[1].NumOfTriangles() - 1))):
                next(it)
            pool.add("triangle", next(it), r_tri)
            return "triangle"
    elif k == 11:
        x = pool.of("mesh")
        if x:
            l = list(x[1].Triangles())
            pool.add("triangles", l, lambda l: [r_tri(y) for y in l[:4]])
            return "list of triangles"
    elif k == 12:
        x = pool.of("triangle")
        if x:
            b = x[1].GetIPsGlobal(c.draw(5))
            pool.add("points", b, r_points)
            if len(b):
                pool.add("bpoint", b[c.draw(len(b))], lambda p: (p.x, p.y, p.z, p.weight, tuple(p.normal), repr(p)))
                pool.add("normal", b[0].normal, tuple)
            return "triangle rule"
    elif k == 13:
        x = pool.of("queso", "model")
        if x:
            pool.add("dict", x[1].GetSettings() if c.bool() else x[1].GetModelInfo(), str)
            return "dictionary"
    elif k == 14:
        x = pool.of("dict")
        if x:
            for key in c.shuffle(list(co.SCHEMA) + ["quadrature_info", "elapsed_time_info", "volume_time_info"]):
                try:
                    pool.add("dict", x[1][key], str)
                    return "sub dictionary"
                except RuntimeError:
                    pass
    elif k == 15:
        x = pool.of("dict")
        if x:
            for key in (co.LIST, "conditions_infos_list"):
                try:
                    pool.add("list", x[1].GetList(key), lambda l: [str(d) for d in l])
                    return "list"
                except RuntimeError:
                    pass
    elif k == 16:
        x = pool.of("list")
        if x and len(x[1]):
            pool.add("dict", x[1][c.draw(len(x[1]))] if c.bool() else list(x[1])[c.draw(len(x[1]))], str)
            return "item"
    elif k == 17:
        h = Q_.Dictionary.Create(c.pick(["Settings", "ConditionSettings", "ModelInfo"]))
        pool.add("dict", h.GetObject(), str)
        return "new dictionary"
    elif k == 18:
        v, t = so.random_solid(c)
        m = Q_.TriangleMesh()
        for p in v:
            m.AddVertex(p)
        for x in t:
            m.AddTriangle(x)
        pool.add("mesh", m, r_mesh)
        pool.own.append(m)
        return "new mesh"
    elif k == 22:
        # What was taken from a mesh must not change or dangle when the mesh grows.
        x = [y for y in pool.items if any(y[1] is z for z in pool.own)]
        if x:
            m = c.pick(x)[1]
            n = m.NumOfVertices()
            for y in pool.items:
                if y[0] == "lazy":
                    y[1].take(c, 10 ** 9)
            for _ in range(c.pick([1, 5, 200])):
                m.AddVertex([c.real(-1.0, 1.0) for _ in range(3)])
            for _ in range(c.pick([0, 1, 200])):
                a = c.range(0, n - 1)
                m.AddTriangle([a, n, (a + 1) % n])
            for y in x:
                if y[1] is m:
                    y[3] = y[2](m)
            pool.verify("growing a mesh")
            return "grow mesh"
    elif k in (24, 25):
        x = pool.of("mesh", "mesh", "segments", "list", "points", "point", "triangles")
        if x and x[0] == "mesh":
            pool.add("lazy", Lazy(x[1].Vertices if c.bool() else x[1].Triangles, lambda y: tuple(y) if isinstance(y, (tuple, list)) else r_tri(y)), lambda l: None)
        elif x:
            pool.add("lazy", Lazy(x[1].__iter__, {"segments": r_segment, "list": str, "points": r_point, "point": float, "triangles": r_tri}[x[0]]), lambda l: None)
        return "iterator of " + x[0] if x else None
    elif k == 26:
        x = pool.of("lazy")
        if x:
            x[1].take(c, c.range(1, 5))
            return "iterate"
    elif k == 23:
        x = pool.of("model")
        if x:
            c.check(rejects(x[1].CreateAllFromSettings), "accepted", "the model is created twice without an error")
            pool.verify("creating the model twice")
            return "create again"
    elif k == 19:
        x = pool.of("point", "bpoint")
        if x:
            it = iter(x[1])
            rest = [next(it)]
            pool.add("coordinates", [it, rest, None], lambda l: tuple(l[1] + (l.__setitem__(2, list(l[0])) or l[2] if l[2] is None else l[2])))
            return "iterator"
    elif k == 20:
        x = pool.of("points")
        if x and len(x[1]):
            pool.add("iterated", [p for p in x[1]][:3], lambda l: [(p.x, p.weight) for p in l])
            return "iterated points"
    elif k == 21:
        x = pool.of("grid")
        if x:
            els = x[1].GetElements()
            pool.add("conditions", x[1].GetConditions(), lambda l: [r_cond(y) for y in l])
            return "grid"
    return None


@sub("Q39", "lifetime", "at least four derived objects survive the deletion of their origin", 400, 16000, timeout=120)
def lifetime(c):
    from QuESoPythonModule.PyQuESo import PyQuESo
    from QuESoPythonModule.scripts.json_io import JsonIO
    pool = Pool(c)
    if c.bool(80):
        _, model_ = random_case(c, small=True)
        model_[0]["general_settings"]["echo_level"] = 0
        write_settings(c, model_)
        if c.bool(50):
            pq = PyQuESo("s.json")
            if c.bool(30):
                pool.add("dict", pq.GetSettings(), str)
            pq.Run()
            pool.add("queso", pq, lambda q: None)
            del pq
        else:
            h = JsonIO.read_settings("s.json")
            h.GetObject()["general_settings"].SetValue("write_output_to_file", False)
            if c.bool(30):
                pool.add("dict", h.GetObject(), str)
            md = Q().EmbeddedModel(h)
            md.CreateAllFromSettings()
            if c.bool(30):
                pool.add("grid", Q().BackgroundGrid(md.GetSettings()), lambda g: (g.NumberOfActiveElements(), g.NumberOfConditions()))
            pool.add("model", md, lambda m_: None)
            del md, h
    else:
        c.label("no model")
    names, deleted = [], 0
    for _ in range(c.range(10, 60)):
        if c.bool(15) and pool.items:
            # Forget one object (often the origin of the others) and reuse its memory.
            x = pool.items.pop(0 if c.bool(30) else c.draw(len(pool.items)))
            names.append("-" + x[0])
            pool.own = [y for y in pool.own if y is not x[1]]
            del x
            gc.collect()
            deleted += 1
            junk = [bytearray(c.pick([32, 64, 200, 1000])) for _ in range(20)]
            for _ in range(c.pick([0, 5])):
                junk.append(Q().TriangleMesh())
                for _ in range(c.pick([1, 8, 40])):
                    junk[-1].AddVertex([7.5, 8.5, 9.5])
            pool.verify("deleting " + names[-1][1:])
            del junk
        else:
            for _ in range(4):
                n = steps(pool, c, Q())
                if n:
                    names.append(n)
                    break
    pool.items = [x for x in pool.items if x[0] not in ("queso", "model", "grid")]
    gc.collect()
    pool.verify("deleting the models")
    for x in pool.items:
        if x[0] == "lazy":
            x[1].take(c, 10 ** 9)
    c.count("objects", len(pool.items))
    c.nontrivial = len(pool.items) >= 4
    c.note(" ".join(names))


def rejects(f):
    try:
        f()
    except Exception as e:
        return type(e).__name__
    return None


@sub("Q39", "indices", "at least two invalid accesses", 800, 20000)
def indices(c):
    """Invalid indices and objects that were given away are errors."""
    q = Q()
    for _ in range(c.range(2, 6)):
        k = c.draw(8)
        bad = c.pick([0, 1, 2, 5, 1000, 2 ** 31, 2 ** 40, 2 ** 62, -1, -4])
        if k == 0:
            m = q.TriangleMesh()
            n = c.range(0, 4)
            for i in range(n):
                m.AddVertex((float(i), float(i * i), 1.0))
            tri = [c.draw(3) for _ in range(3)]
            tri[c.draw(3)] = n + bad if bad >= 0 else bad
            r = rejects(lambda: m.AddTriangle(tuple(tri)))
            c.check(r, "accepted", lambda: "AddTriangle(%r) accepted with %d vertices" % (tri, n))
            c.check(m.NumOfTriangles() == 0, "changed", "a rejected triangle was added")
        elif k == 1:
            h = q.Dictionary.Create("Settings")
            l = h.GetObject().GetList(co.LIST)
            n = c.range(0, 3)
            for i in range(n):
                x = q.Dictionary.Create("ConditionSettings")
                x.GetObject().SetValue("condition_id", i)
                l.append(x)
                c.check(rejects(x.GetObject), "accepted", "GetObject of a holder that was given away")
                c.check(rejects(lambda: l.append(x)), "accepted", "append of a holder that was given away")
            c.check(len(l) == n and [d.GetInt("condition_id") for d in l] == list(range(n)), "changed", "content of the list")
            c.check(rejects(lambda: l[n + abs(bad)]), "accepted", lambda: "item %d of a list of %d" % (n + abs(bad), n))
        elif k == 2:
            h = q.Dictionary.Create("Settings")
            c.check(rejects(lambda: q.EmbeddedModel(h)), "accepted", "model from incomplete settings")
            c.check(rejects(lambda: q.EmbeddedModel(h)) , "accepted", "model from a holder twice")
        elif k == 3:
            c.check(rejects(lambda: q.Dictionary.Create(c.pick(["settings", "", "Setting", "ConditionInfos"]))), "accepted", "unknown dictionary")
        elif k == 4:
            p = q.IntegrationPoint(1.0, 2.0, 3.0, 0.5)
            c.check(rejects(lambda: p[c.pick([3, -4, 100])]) == "IndexError", "accepted", "coordinate of a point")
            w = q.IntegrationPointVector()
            for _ in range(c.range(0, 3)):
                w.append(p)
            c.check(rejects(lambda: w[len(w) + abs(bad)]), "accepted", "point of a vector")
        elif k == 5:
            m = q.TriangleMesh()
            for x in ((0., 0., 0.), (1., 0., 0.), (0., 1., 0.)):
                m.AddVertex(x)
            m.AddTriangle((0, 1, 2))
            t = next(m.Triangles())
            c.check(rejects(lambda: t.GetIPsGlobal(5 + abs(bad))), "accepted", lambda: "triangle rule %d" % (5 + abs(bad)))
            it = m.Triangles()
            next(it)
            c.check(rejects(lambda: next(it)) == "StopIteration" and rejects(lambda: next(it)) == "StopIteration", "accepted", "end of the iteration")
        elif k == 6:
            h = q.Dictionary.Create(c.pick(["Settings", "ConditionSettings", "ModelInfo"]))
            key = c.pick(["", "nope", "input_filenam", "general_settings ", "\0", "x" * 300])
            for f in (lambda: h.GetObject()[key], lambda: h.GetObject().GetList(key), lambda: h.GetObject().GetInt(key),
                      lambda: h.GetObject().IsSet(key), lambda: h.GetObject().SetValue(key, 1)):
                c.check(rejects(f), "accepted", lambda: "unknown key %r" % key)
        else:
            r = rejects(lambda: q.IO.ReadMeshFromSTL(q.TriangleMesh(), c.pick(["missing.stl", "", "/nonexistent/x.stl", "."])))
            c.check(r, "accepted", "missing file")
    c.nontrivial = True


# ----------------------------------------------------------------------------------------------------------------- Q40
@sub("Q40", "directory", "a directory with other files beside the output directory", 1000, 20000)
def directory(c):
    """The destructive calls are replaced by stand-ins that only record their target."""
    import QuESoPythonModule.PyQuESo as mod
    os.makedirs("w/work/sub")
    os.chdir("w/work")
    cwd = os.getcwd()
    for n in ("keep.txt", "sub/keep.txt", "../keep.txt"):
        with open(n, "w") as f:
            f.write("x")
    name = c.pick(["out", "queso_output", "a b", "sub", "sub/out", "sub/../out", "./out", "out/", "..", ".", "", "./", "sub/..", "../", "../..",
                   "../other", "../work", "/", "//", "../../w", "sub/../..", "neu", "out/.", "öß"])
    exists = c.bool(50)
    target = os.path.normpath(os.path.join(cwd, "./" + name + "/"))
    danger = cwd == target or cwd.startswith(target.rstrip("/") + "/")
    write = c.bool(80)
    if exists and not danger and not os.path.exists(target):
        os.makedirs(target)
        with open(os.path.join(target, "old.vtk"), "w") as f:
            f.write("x")
    there = os.path.exists(target)
    with open("s.json", "w") as f:
        json.dump({"general_settings": {"output_directory_name": name, "write_output_to_file": write, "input_filename": "x.stl"}}, f)
    calls = []
    import shutil
    saved = []

    def record(n):
        return lambda p, *a, **k: calls.append((n, os.path.normpath(os.path.join(cwd, os.fspath(p)))))
    for owner, names in ((os, ("mkdir", "makedirs", "rmdir", "remove", "unlink", "removedirs", "rename", "renames", "replace")), (shutil, ("rmtree", "move"))):
        for n in names:
            fun, rec = getattr(owner, n), record(n)
            for where in [owner] + [mod]:
                for key, val in list(vars(where).items()):
                    if val is fun:
                        saved.append((where, key, fun))
                        setattr(where, key, rec)
    try:
        r = rejects(lambda: mod.PyQuESo("s.json"))
    finally:
        for where, key, fun in saved:
            setattr(where, key, fun)
    c.note("%r exists %s write %s: %r %r" % (name, there, write, r, calls))
    c.label("danger" if danger else "safe")
    c.nontrivial = write
    removed = [p for n, p in calls if n in ("rmtree", "rmdir", "remove", "unlink", "removedirs", "move", "rename", "replace")]
    if not write:
        c.check(not calls and r is None, "touched", lambda: "files touched without output: %r" % (calls,))
        return
    for p in removed:
        c.check(not (cwd == p or cwd.startswith(p.rstrip("/") + "/")), "removes", lambda: "%r removes %r, which contains the working directory %r" % (name, p, cwd))
        c.check(p == target or p.startswith(target + "/"), "removes", lambda: "%r removes %r" % (name, p))
    if danger:
        c.check(r is not None, "accepted", lambda: "output directory %r accepted" % name)
        return
    c.check(r is None, "rejected", lambda: "output directory %r rejected: %s" % (name, r))
    made = [p for n, p in calls if n in ("mkdir", "makedirs")]
    c.check(target in made or (there and not removed), "missing", lambda: "output directory %r is not created: %r" % (name, calls))
    if there:
        c.check(target in removed or os.path.join(target, "old.vtk") in removed or not exists, "stale",
                lambda: "previous content of %r is kept: %r" % (name, calls))


if __name__ == "__main__":
    pbt.main()
