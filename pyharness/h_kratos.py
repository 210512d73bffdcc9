"""Q37 what the interface to Kratos hands over. Kratos itself is replaced by a stand-in that records (kratos_stub.py)."""
import json, math, warnings
import pbt
from pbt import sub
import common as co
import solids as so
import kratos_stub as ks
from h_front import random_case, write_settings, close, near, rejects

KM = ks.install()


def Q():
    import QuESoPythonModule
    return QuESoPythonModule


def to_param(x, bx, bu):
    return [bu[0][i] + (x[i] - bx[0][i]) / (bx[1][i] - bx[0][i]) * (bu[1][i] - bu[0][i]) for i in range(3)]


def to_global(u, bx, bu):
    return [bx[0][i] + (u[i] - bu[0][i]) / (bu[1][i] - bu[0][i]) * (bx[1][i] - bx[0][i]) for i in range(3)]


def complete(c, conds):
    """Every condition has the values its type needs."""
    for e in conds:
        e["modulus"] = c.pick([1.0, -2.5, 0.0, c.log(1e-3, 1e3)])
        e["value"] = [c.pick([0.0, 1.0, c.real(-5, 5)]) for _ in range(3)]
        e["penalty_factor"] = c.log(1.0, 1e10)
        d = [c.pick([0.0, 1.0, -3.0, c.real(-2, 2)]) for _ in range(3)]
        e["direction"] = d if sum(x * x for x in d) > 1e-4 else [0.0, 0.0, c.pick([1.0, -2.0])]


def check_elements(c, part, elements):
    want = [[(p.x, p.y, p.z, p.weight) for p in e.GetIntegrationPoints() if p.weight > 0] for e in elements]
    want = [w for w in want if w]
    got = part.Elements
    c.check(len(got) == len(want), "elements", lambda: "%d elements instead of %d" % (len(got), len(want)))
    c.check(sorted(e.Id for e in got) == list(range(1, len(got) + 1)), "elements", "ids of the elements")
    c.check([e.geometry.points for e in sorted(got, key=lambda e: e.Id)] == want, "elements", "points of the elements")


def check_conditions(c, conditions, plain, bx, bu, first=1):
    """conditions: what was handed over; plain: list of (content, triangles of all segments)."""
    scale = max(max(abs(x) for x in b) for b in bx)
    uscale = max(max(abs(x) for x in b) for b in bu)
    tol = 1e-9 * (uscale + scale * max((bu[1][i] - bu[0][i]) / (bx[1][i] - bx[0][i]) for i in range(3)))
    c.check([x.Id for x in conditions] == list(range(first, first + len(conditions))), "conditions", "ids of the conditions")
    rest = [x for x in conditions if x.name != "LoadCondition"]
    for e, tris in plain:
        t = e["condition_type"]
        if t in ("PenaltySupportCondition", "LagrangeSupportCondition"):
            name = "SupportPenaltyCondition" if t[0] == "P" else "SupportLagrangeCondition"
            n = 0
            while n < len(rest) and rest[n].geometry.triangle is not None and rest[n].name == name and \
                    rest[n].values.get("DISPLACEMENT") == list(e["value"]) and n < len(tris):
                n += 1
            mine, rest = rest[:n], rest[n:]
            k = 0
            for p in tris:
                u = [to_param(x, bx, bu) for x in p]
                a = so.area(*p)
                m = max(math.dist(p[i], p[i - 1]) for i in range(3))
                if k < len(mine) and all(near(mine[k].geometry.triangle[i], u[i], tol, 1.0) for i in range(3)):
                    k += 1
                else:
                    c.check(a < 1e-6 * m * m or so.area(*u) < 1e-12, "support",
                            lambda: "no support on the triangle %r of area %r (%d of %d)" % (p, a, k, len(mine)))
            c.check(k == len(mine), "support", lambda: "%d supports, %d of them match a triangle" % (len(mine), k))
            if t[0] == "P":
                used = sorted({x.Properties.values.get("PENALTY_FACTOR") for x in mine}, key=str)
                if used and used != [e["penalty_factor"]]:
                    msg = "penalty factor %r instead of %r" % (used, e["penalty_factor"])
                    last = [e_["penalty_factor"] for e_, tr in plain if e_["condition_type"][:2] == "Pe" and tr][-1]
                    # Listed: all conditions share one set of properties, so that the last penalty factor holds for all.
                    c.check(used == [last] and all(x.Properties is mine[0].Properties for x in conditions), "penalty", lambda: msg)
                    c.known("shared-penalty", "penalty", msg)
            c.count("supports", k)
    c.check(not rest, "conditions", lambda: "%d conditions too many: %r" % (len(rest), rest[0].name))
    # Loads: the force is compared in total, with its first moments.
    mine = [x for x in conditions if x.name == "LoadCondition"]
    force, moment = [0.0] * 3, [[0.0] * 3 for _ in range(3)]
    wforce, wmoment, mag = [0.0] * 3, [[0.0] * 3 for _ in range(3)], 0.0
    for x in mine:
        f = [x.values["POINT_LOAD_" + d] for d in "XYZ"]
        c.check(x.geometry.points is not None and len(x.geometry.points) == 1 and x.geometry.points[0][3] > 0, "load", "load without a point")
        (u, v, w, wt), = x.geometry.points
        y = to_global((u, v, w), bx, bu)
        for i in range(3):
            force[i] += f[i]
            for j in range(3):
                moment[i][j] += y[i] * f[j]
    for e, tris in plain:
        t = e["condition_type"]
        if t in ("PenaltySupportCondition", "LagrangeSupportCondition"):
            continue
        c.check(mine or not tris, "load", "loads are missing")
        for p in tris:
            a = so.area(*p)
            mag += abs(e["modulus"]) * a
            if t[0] == "S":
                l = math.sqrt(so.dot(e["direction"], e["direction"]))
                f = [e["modulus"] * a * x / l for x in e["direction"]]
            else:
                f = [-0.5 * e["modulus"] * x for x in so.cross(so.sub3(p[1], p[0]), so.sub3(p[2], p[0]))]
            for i in range(3):
                wforce[i] += f[i]
                for j in range(3):
                    wmoment[i][j] += f[j] * (p[0][i] + p[1][i] + p[2][i]) / 3
    for i in range(3):
        c.check(abs(force[i] - wforce[i]) <= 1e-5 * mag + 1e-12, "load", lambda: "force %r instead of %r" % (force, wforce))
        for j in range(3):
            c.check(abs(moment[i][j] - wmoment[i][j]) <= 1e-5 * (mag + 1e-12) * (scale + 1), "load",
                    lambda: "first moments %r instead of %r" % (moment, wmoment))
    c.count("loads", len(mine))


def triangles_of(cond):
    return [(x.p1, x.p2, x.p3) for s in cond.GetSegments() for x in s.GetTriangleMesh().Triangles()]


def plain_conditions(conds, cl):
    return [(e, triangles_of(x)) for e, x in zip(conds, cl)]


def prepare(c):
    _, (m, conds) = random_case(c, small=True)
    m["background_grid_settings"]["grid_type"] = "b_spline_grid"
    m["general_settings"]["echo_level"] = 0
    m["general_settings"]["write_output_to_file"] = False
    complete(c, conds)
    write_settings(c, (m, conds))
    g = m["background_grid_settings"]
    return m, conds, (tuple(g["lower_bound_xyz"]), tuple(g["upper_bound_xyz"])), (tuple(g["lower_bound_uvw"]), tuple(g["upper_bound_uvw"]))


class Box:
    """Reference for the conditions on boxes of nodes."""
    def __init__(self, c, nodes):
        a = [c.real(-4, 4) for _ in range(3)] if c.bool(70) or not nodes else list(c.pick(nodes)[1:])
        b = [x + c.pick([0.5, 3.0, 20.0]) for x in a]
        if c.bool(30):
            a = [-50.0] * 3
        self.lower, self.upper = a, b

    def inside(self, p):
        return all(self.lower[i] < p[i] < self.upper[i] for i in range(3))


def make_nodes(c, part):
    nodes, ident = [], 0
    for _ in range(c.range(0, 12)):
        ident += c.range(1, 3)
        p = tuple(c.pick([0.0, 1.0, float(c.range(-3, 3)), c.real(-3, 3)]) for _ in range(3))
        part.CreateNewNode(ident, *p)
        nodes.append((ident,) + p)
    return nodes


@sub("Q37", "boxes", "at least one node inside and one outside of a box", 1500, 30000)
def boxes(c):
    from QuESoPythonModule.kratos_interface import bounding_box_bcs as bb
    part = KM.ModelPart()
    nodes = make_nodes(c, part)
    total, nload, fixed = [0.0] * 3, 0, {}
    loads = {}
    for _ in range(c.range(1, 3)):
        b = Box(c, nodes)
        ins = [n for n in nodes if b.inside(n[1:])]
        if 0 < len(ins) < len(nodes):
            c.nontrivial = True
        if c.bool():
            d = tuple(bool(c.draw(2)) for _ in range(3))
            o = bb.DirichletCondition(b.lower, b.upper, d)
            o.apply(part)
            for n in ins:
                fixed.setdefault(n[0], set()).update("DISPLACEMENT_" + "XYZ"[i] for i in range(3) if d[i])
        else:
            f = tuple(c.pick([0.0, 1.0, c.real(-9, 9)]) for _ in range(3))
            o = bb.NeumannCondition(b.lower, b.upper, f)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                o.apply(part)
            c.check(bool(w) == (not ins), "warning", "warning about a box without nodes")
            nload += len(ins)
            for n in ins:
                loads[n[0]] = [x / len(ins) for x in f]  # the last condition on a node determines its load
        c.check(not o.is_weak_condition(), "type", "is_weak_condition")
    for n in part.Nodes:
        c.check(n.fixed == fixed.get(n.Id, set()), "fixed", lambda: "node %d fixes %r instead of %r" % (n.Id, n.fixed, fixed.get(n.Id)))
        got = [n.values.get("POINT_LOAD_" + d) for d in "XYZ"]
        if n.Id in loads:
            c.check(None not in got and near(got, loads[n.Id], 1e-12, 10.0), "force", lambda: "node %d carries %r instead of %r" % (n.Id, got, loads[n.Id]))
        else:
            c.check(got in ([None] * 3, [0.0] * 3), "force", lambda: "node %d carries %r" % (n.Id, got))
    c.check(len(part.Conditions) == nload and [x.Id for x in part.Conditions] == list(range(1, nload + 1)), "conditions", "number or ids of the conditions")
    c.note("%d nodes, %d loads" % (len(nodes), nload))


@sub("Q37", "meshes", "at least four triangles", 800, 16000)
def meshes(c):
    from QuESoPythonModule.kratos_interface.model_part_utilities import ModelPartUtilities as mp
    v, t = so.random_solid(c)
    if c.bool(30):
        t = [x for x in t if c.bool(70)] or t[:1]
    if c.bool(50):
        # From QuESo to Kratos.
        M = Q().TriangleMesh()
        if c.bool(50):
            so.write_stl("m.stl", v, t, True)
            Q().IO.ReadMeshFromSTL(M, "m.stl")
        else:
            dup = c.bool(30)
            for p in v:
                M.AddVertex(p)
            if dup:
                for p in v[:3]:
                    M.AddVertex(p)
            for x in t:
                M.AddTriangle(x)
        part = KM.ModelPart()
        mp.read_model_part_from_triangle_mesh(part, M)
        c.check([(n.X, n.Y, n.Z) for n in part.Nodes] == list(M.Vertices()), "nodes", "nodes differ from the vertices")
        got = [tuple((n.X, n.Y, n.Z) for n in e.geometry) for e in part.Elements]
        want = [(x.p1, x.p2, x.p3) for x in M.Triangles()]
        c.check(got == want, "triangles", lambda: "%r instead of %r" % (got[:2], want[:2]))
    else:
        part = KM.ModelPart()
        ids, k = [], 0
        for p in v:
            k += c.range(1, 4)
            ids.append(k)
        order = c.shuffle(list(range(len(v)))) if c.bool(50) else range(len(v))
        for i in order:
            part.CreateNewNode(ids[i], *v[i])
        kind = c.pick(["Elements", "Conditions"])
        other = c.bool(50)
        for i, x in enumerate(t):
            f = part.CreateNewElement if kind == "Elements" else part.CreateNewCondition
            f("T", i + 1, [ids[j] for j in x], None)
        if other:
            f = part.CreateNewElement if kind != "Elements" else part.CreateNewCondition
            f("T", 1, ids[:3], None)
        M = Q().TriangleMesh()
        if kind == "Elements" and c.bool(50):
            mp.read_triangle_mesh_grom_model_part(M, part)
        else:
            mp.read_triangle_mesh_grom_model_part(M, part, type=kind)
        c.check(M.NumOfVertices() == len(v), "vertices", "number of vertices")
        c.check([(x.p1, x.p2, x.p3) for x in M.Triangles()] == [tuple(v[i] for i in x) for x in t], "triangles", "triangles of the mesh")
        if c.bool(20):
            part.CreateNewElement("Q", 10 ** 6, ids[:4], None)
            c.check(rejects(lambda: mp.read_triangle_mesh_grom_model_part(Q().TriangleMesh(), part, "Elements")), "accepted", "quadrilateral accepted")
            c.check(rejects(lambda: mp.read_triangle_mesh_grom_model_part(Q().TriangleMesh(), part, "elements")), "accepted", "kind of entity accepted")
    c.nontrivial = len(t) >= 4
    c.note("%d vertices, %d triangles" % (len(v), len(t)))


@sub("Q37", "conditions", "at least one condition on two cells", 320, 8000, timeout=120)
def conditions(c):
    """Elements and conditions of a model handed over one by one, mixed with conditions on nodes."""
    from QuESoPythonModule.PyQuESo import PyQuESo
    from QuESoPythonModule.kratos_interface.model_part_utilities import ModelPartUtilities as mp
    from QuESoPythonModule.kratos_interface import bounding_box_bcs as bb
    m, conds, bx, bu = prepare(c)
    pq = PyQuESo("s.json")
    pq.Run()
    part = KM.ModelPart("NurbsMesh")
    left = c.range(0, 3)
    for i in range(left):
        part.CreateNewElement("Left", i + 1, ks.QuadraturePoints([]), None)
        part.CreateNewCondition("Left", i + 1, ks.QuadraturePoints([]), None)
    if left:
        mp.remove_all_elements(part)
        c.check(not part.Elements and len(part.Conditions) == left, "remove", "remove_all_elements")
        mp.remove_all_conditions(part)
        c.check(not part.Conditions, "remove", "remove_all_conditions")
    mp.add_elements_to_model_part(part, pq.GetElements())
    check_elements(c, part, pq.GetElements())
    cl = list(pq.GetConditions())
    handed = list(cl)
    if c.bool(30):
        part.CreateNewNode(1, 0.0, 0.0, 0.0)
        handed.insert(c.draw(len(handed) + 1), bb.DirichletCondition((-1, -1, -1), (1, 1, 1), (True, False, True)))
    mp.add_conditions_to_model_part(part, handed, bx, bu)
    if part.Nodes:
        c.check(part.Nodes[0].fixed == {"DISPLACEMENT_X", "DISPLACEMENT_Z"}, "fixed", "condition on nodes among others")
    check_conditions(c, part.Conditions, plain_conditions(conds, cl), bx, bu)
    if conds and c.bool(20):
        # A direction without length is an error.
        from QuESoPythonModule.kratos_interface.weak_bcs import SurfaceLoad
        c.check(rejects(lambda: SurfaceLoad(Q().TriangleMesh(), bx, bu, 1.0, (0.0, 0.0, 0.0))), "accepted", "load without direction")
    c.nontrivial = any(len(x.GetSegments()) >= 2 for x in cl)
    c.note(" ".join(e["condition_type"] for e in conds) + " %d conditions" % len(part.Conditions))


@sub("Q37", "analysis", "at least one condition", 160, 4000, timeout=120)
def analysis(c):
    """The whole way through PyQuESo.RunKratosAnalysis."""
    from QuESoPythonModule.PyQuESo import PyQuESo
    m, conds, bx, bu = prepare(c)
    g = m["background_grid_settings"]
    mods = [{"modeler_name": "Other", "Parameters": {"x": 1}}] * c.draw(2) + [{"modeler_name": "NurbsGeometryModeler", "Parameters":
            {"model_part_name": "NurbsMesh", **({"polynomial_order": [7, 7, 7], "lower_point_xyz": [9, 9, 9]} if c.bool() else {})}}]
    with open("k.json", "w") as f:
        json.dump({"modelers": mods}, f)
    seen = {}
    pq = PyQuESo("s.json")
    pq.Run()
    init = ks.StructuralMechanicsAnalysis.__init__

    def capture(self, model, parameters):
        seen["p"] = parameters.data
        init(self, model, parameters)
    ks.StructuralMechanicsAnalysis.__init__ = capture
    try:
        pq.RunKratosAnalysis("k.json")
    finally:
        ks.StructuralMechanicsAnalysis.__init__ = init
    p = seen["p"]["modelers"][-1]["Parameters"]
    for k, w in (("lower_point_xyz", g["lower_bound_xyz"]), ("upper_point_xyz", g["upper_bound_xyz"]), ("lower_point_uvw", g["lower_bound_uvw"]),
                 ("upper_point_uvw", g["upper_bound_uvw"]), ("polynomial_order", g["polynomial_order"]), ("number_of_knot_spans", g["number_of_elements"])):
        c.check(near(p[k], w, 1e-12, 1 + max(abs(x) for x in w)), "modeler", lambda: "%s is %r instead of %r" % (k, p[k], w))
    part = pq.GetAnalysis().GetModelPart()
    check_elements(c, part, pq.GetElements())
    check_conditions(c, part.Conditions, plain_conditions(conds, pq.GetConditions()), bx, bu)
    emb = pq.GetAnalysis().model.GetModelPart("EmbeddedModelPart")
    M = Q().TriangleMesh()
    Q().IO.ReadMeshFromSTL(M, "solid.stl")
    c.check([tuple((n.X, n.Y, n.Z) for n in e.geometry) for e in emb.Elements] == [(x.p1, x.p2, x.p3) for x in M.Triangles()], "embedded",
            "triangles of the embedded model part")
    lag = any(e["condition_type"] == "LagrangeSupportCondition" for e in conds)
    c.check(("dof VECTOR_LAGRANGE_MULTIPLIER_X" in part.variables) == lag and "dof DISPLACEMENT_Y" in part.variables, "dofs", "degrees of freedom")
    c.nontrivial = bool(conds)
    c.note(" ".join(e["condition_type"] for e in conds))


if __name__ == "__main__":
    pbt.main()
