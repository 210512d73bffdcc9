"""Closed triangulated solids, STL writers and exact measures."""
import math, struct


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def box(a, b):
    v = [(x, y, z) for z in (a[2], b[2]) for y in (a[1], b[1]) for x in (a[0], b[0])]
    q = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    return v, [t for i, j, k, l in q for t in ((i, j, k), (i, k, l))]


def octahedron():
    v = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    t = []
    for x in (0, 1):
        for y in (2, 3):
            for z in (4, 5):
                f = (x, y, z)
                t.append(f if (x + y + z) % 2 == 0 else (x, z, y))
    return v, t


def refine(v, t):
    v, out, mid = list(v), [], {}

    def m(a, b):
        k = (min(a, b), max(a, b))
        if k not in mid:
            mid[k] = len(v)
            v.append(tuple((p + q) / 2 for p, q in zip(v[a], v[b])))
        return mid[k]
    for a, b, c in t:
        ab, bc, ca = m(a, b), m(b, c), m(c, a)
        out += [(a, ab, ca), (ab, b, bc), (ca, bc, c), (ab, bc, ca)]
    return v, out


def prism(n):
    v = [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), z) for z in (-1, 1) for i in range(n)]
    t = []
    for i in range(n):
        j = (i + 1) % n
        t += [(i, j, n + j), (i, n + j, n + i)]
    for i in range(1, n - 1):
        t += [(0, i + 1, i), (n, n + i, n + i + 1)]
    return v, t


def random_solid(c):
    """Vertices in single precision and triangles, oriented outwards."""
    k = c.draw(5)
    if k == 0:
        v, t = box((-1, -1, -1), (1, 1, 1))
    elif k == 1:
        v, t = [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)], [(0, 1, 2), (0, 3, 1), (0, 2, 3), (1, 3, 2)]
    elif k == 2:
        v, t = octahedron()
    elif k == 3:
        v, t = prism(c.range(3, 8))
    else:
        v, t = refine(*octahedron())
        v = [tuple(x / math.sqrt(sum(y * y for y in p)) for x in p) for p in v]
    if c.bool(50):  # rotation by a random quaternion
        q = [c.real(-1, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n > 0.1:
            w, x, y, z = (e / n for e in q)
            R = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                 [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                 [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
            v = [tuple(sum(R[i][j] * p[j] for j in range(3)) for i in range(3)) for p in v]
    s = [c.log(0.5, 2.0) for _ in range(3)]
    o = [c.real(-3, 3) for _ in range(3)]
    g = c.pick([1.0, 1.0, 10.0, 100.0])
    v = [tuple(f32(g * (p[i] * s[i] + o[i])) for i in range(3)) for p in v]
    return v, t


def sub3(a, b):
    return [a[i] - b[i] for i in range(3)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def area(p, q, r):
    n = cross(sub3(q, p), sub3(r, p))
    return 0.5 * math.sqrt(dot(n, n))


def normal(p, q, r):
    n = cross(sub3(q, p), sub3(r, p))
    l = math.sqrt(dot(n, n))
    return [x / l for x in n]


def volume(v, t):
    o = v[0]
    return sum(dot(sub3(v[a], o), cross(sub3(v[b], o), sub3(v[c], o))) for a, b, c in t) / 6.0


def write_stl(path, v, t, binary=True):
    if binary:
        with open(path, "wb") as f:
            f.write(b"x" * 80 + struct.pack("<I", len(t)))
            for tri in t:
                n = normal(*(v[i] for i in tri))
                f.write(struct.pack("<12fH", *n, *(x for i in tri for x in v[i]), 0))
    else:
        with open(path, "w") as f:
            f.write("solid s\n")
            for tri in t:
                f.write("facet normal 0 0 0\nouter loop\n")
                for i in tri:
                    f.write("vertex %.9g %.9g %.9g\n" % v[i])
                f.write("endloop\nendfacet\n")
            f.write("endsolid s\n")


def read_stl(path):
    with open(path, "rb") as f:
        d = f.read()
    n = struct.unpack_from("<I", d, 80)[0]
    out = []
    for i in range(n):
        x = struct.unpack_from("<12f", d, 84 + 50 * i)
        out.append((x[3:6], x[6:9], x[9:12]))
    if len(d) != 84 + 50 * n:
        raise ValueError("size of " + path)
    return out


def read_vtk_points(path):
    """Points and weights of a binary legacy VTK file."""
    with open(path, "rb") as f:
        d = f.read()
    i = d.index(b"POINTS ")
    j = d.index(b"\n", i)
    n = int(d[i:j].split()[1])
    x = struct.unpack_from(">%dd" % (3 * n), d, j + 1)
    w = ()
    if b"LOOKUP_TABLE" in d:
        k = d.index(b"\n", d.index(b"LOOKUP_TABLE")) + 1
        w = struct.unpack_from(">%dd" % n, d, k)
    return [x[3 * m:3 * m + 3] for m in range(n)], w
