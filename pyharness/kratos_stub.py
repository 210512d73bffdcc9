"""Stand-in for the Kratos modules: it records what the interface hands over and enforces unique ids. No mechanics."""
import json, sys, types


class StubError(Exception):
    pass


class Variable:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


class StubModule(types.ModuleType):
    """Unknown names are variables."""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = Variable(name)
        setattr(self, name, v)
        return v


class Holder:
    """Values by variable."""
    def __init__(self):
        self.values, self.flags, self.fixed = {}, {}, set()

    def SetValue(self, var, v):
        self.values[var.name] = v

    SetSolutionStepValue = SetValue

    def GetValue(self, var):
        return self.values[var.name]

    GetSolutionStepValue = GetValue

    def Has(self, var):
        return var.name in self.values

    def Set(self, flag, v=True):
        self.flags[flag.name] = v

    def Fix(self, var):
        self.fixed.add(var.name)


class Node(Holder):
    def __init__(self, i, x, y, z):
        super().__init__()
        self.Id = i
        self.X, self.Y, self.Z = float(x), float(y), float(z)
        self.X0, self.Y0, self.Z0 = self.X, self.Y, self.Z


class Triangle3D3(list):
    def __init__(self, *nodes):
        super().__init__(nodes[0] if len(nodes) == 1 else nodes)
        if len(self) != 3:
            raise StubError("triangle with %d nodes" % len(self))


class GeometriesVector(list):
    pass


class QuadraturePoints:
    """Geometry of an element or condition: the integration points it was created from."""
    def __init__(self, points, triangle=None):
        self.points, self.triangle = points, triangle


class NurbsVolume:
    def CreateQuadraturePointGeometries(self, out, derivatives, points):
        out.append(QuadraturePoints([tuple(float(x) for x in p) for p in points]))


class SurfaceInNurbsVolumeGeometry:
    def __init__(self, volume, triangle):
        if not isinstance(volume, NurbsVolume):
            raise StubError("volume")
        self.triangle = triangle

    def CreateQuadraturePointGeometries(self, out, derivatives):
        out.append(QuadraturePoints(None, [(n.X, n.Y, n.Z) for n in self.triangle]))

    def Area(self):
        p, q, r = [(n.X, n.Y, n.Z) for n in self.triangle]
        a, b = [q[i] - p[i] for i in range(3)], [r[i] - p[i] for i in range(3)]
        n = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
        return 0.5 * sum(x * x for x in n) ** 0.5


class Entity(Holder):
    def __init__(self, name, ident, geometry, properties):
        super().__init__()
        self.name, self.Id, self.geometry, self.Properties = name, ident, geometry, properties

    def GetGeometry(self):
        return self.geometry


class ProcessInfo(Holder):
    pass


class ModelPart:
    def __init__(self, name="part"):
        self.Name = name
        self.Nodes, self.Elements, self.Conditions = [], [], []
        self.properties = [Holder(), Holder(), Holder()]
        self.variables, self.ProcessInfo, self.volume = [], ProcessInfo(), NurbsVolume()

    def NumberOfConditions(self):
        return len(self.Conditions)

    def NumberOfElements(self):
        return len(self.Elements)

    def NumberOfNodes(self):
        return len(self.Nodes)

    def GetProperties(self, *a):
        return self.properties[a[0]] if a else self.properties

    def GetGeometry(self, name):
        if name != "NurbsVolume":
            raise StubError("geometry " + str(name))
        return self.volume

    def AddNodalSolutionStepVariable(self, v):
        self.variables.append(v.name)

    def CreateNewNode(self, i, x, y, z):
        self._new(self.Nodes, i)
        self.Nodes.append(Node(i, x, y, z))
        return self.Nodes[-1]

    def GetNode(self, i):
        for n in self.Nodes:
            if n.Id == i:
                return n
        raise StubError("node %r" % i)

    def _new(self, entities, i):
        if type(i) is not int or i < 1 or any(e.Id == i for e in entities):
            raise StubError("id %r is invalid or exists already" % (i,))

    def _create(self, entities, name, i, geometry, properties):
        self._new(entities, i)
        if isinstance(geometry, (list, tuple)):
            geometry = [self.GetNode(k) for k in geometry]
        entities.append(Entity(name, i, geometry, properties))
        return entities[-1]

    def CreateNewElement(self, name, i, geometry, properties):
        return self._create(self.Elements, name, i, geometry, properties)

    def CreateNewCondition(self, name, i, geometry, properties):
        return self._create(self.Conditions, name, i, geometry, properties)

    def RemoveElements(self, flag):
        self.Elements = [e for e in self.Elements if not e.flags.get(flag.name)]

    def RemoveConditions(self, flag):
        self.Conditions = [e for e in self.Conditions if not e.flags.get(flag.name)]


class Model:
    def __init__(self):
        self.parts = {}

    def CreateModelPart(self, name, *a):
        if name in self.parts:
            raise StubError("model part exists")
        self.parts[name] = ModelPart(name)
        return self.parts[name]

    def GetModelPart(self, name):
        return self.parts[name]

    def HasModelPart(self, name):
        return name in self.parts

    __getitem__ = GetModelPart


class Parameters:
    """View of a JSON value."""
    def __init__(self, text="{}", value=None, parent=None, key=None):
        self.data = json.loads(text) if value is None else value
        self.parent, self.key = parent, key

    def __getitem__(self, k):
        return Parameters(value=self.data[k], parent=self.data, key=k)

    def __iter__(self):
        return iter(self.values())

    def Has(self, k):
        return k in self.data

    def values(self):
        keys = range(len(self.data)) if isinstance(self.data, list) else list(self.data)
        return [self[k] for k in keys]

    def GetString(self):
        return str(self.data)

    def GetInt(self):
        return int(self.data)

    def AddEmptyValue(self, k):
        self.data.setdefault(k, {})
        return self[k]

    def SetVector(self, v):
        self.data = [float(x) for x in v]
        self.parent[self.key] = self.data


class VariableUtils:
    def AddDof(self, var, reaction, part):
        part.variables.append("dof " + var.name)


class StructuralMechanicsAnalysis:
    """Runs the two stages the interface overrides."""
    echo_level = 0

    def __init__(self, model, parameters):
        self.model, self.project_parameters = model, parameters

    def _GetListOfModelers(self):
        return []

    def _GetSimulationName(self):
        return "stub"

    def _ModelersSetupModelPart(self):
        pass

    def ModifyInitialGeometry(self):
        pass

    def Run(self):
        self._ModelersSetupModelPart()
        part = self.model.GetModelPart("NurbsMesh")
        for i in (1, 2):  # what a modeler leaves behind
            part.CreateNewElement("Left", i, QuadraturePoints([]), None)
            part.CreateNewCondition("Left", i, QuadraturePoints([]), None)
        self.ModifyInitialGeometry()


def install():
    km = StubModule("KratosMultiphysics")
    km.__path__ = []
    for k in (Node, Triangle3D3, GeometriesVector, SurfaceInNurbsVolumeGeometry, ModelPart, Model, Parameters, VariableUtils):
        setattr(km, k.__name__, k)
    km.Vector = km.Array3 = lambda v=(): [float(x) for x in v]
    km.Logger = types.SimpleNamespace(PrintInfo=lambda *a: None, PrintWarning=lambda *a: None)
    sys.modules["KratosMultiphysics"] = km
    for n in ("IgaApplication", "StructuralMechanicsApplication", "LinearSolversApplication"):
        m = StubModule("KratosMultiphysics." + n)
        m.__path__ = []
        sys.modules[m.__name__] = m
        setattr(km, n, m)
    m = types.ModuleType("KratosMultiphysics.StructuralMechanicsApplication.structural_mechanics_analysis")
    m.StructuralMechanicsAnalysis = StructuralMechanicsAnalysis
    sys.modules[m.__name__] = m
    km.StructuralMechanicsApplication.structural_mechanics_analysis = m
    return km
