"""Records what the Python interface answers: reference elements (C26), types and rules (C27),
integration and multilinear geometries (C28).  Contains no expectation about any answer."""
import itertools
import json
import math
import os
import random
import sys
from fractions import Fraction

try:
    import numpy
    import dune.common  # noqa: F401
    import dune.generator  # noqa: F401
except ImportError as e:
    print("environment:", e)
    sys.exit(3)

import dune.geometry as geo

out, seed, tier, part = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
thorough = tier == "thorough"
rng = random.Random(seed * 7919 + 13)
GIGA = 10 ** 9


def num(v):
    """floor part and nine decimals"""
    v = float(v)
    if not abs(v) < 1.9e9:
        return [2000000000, 0]
    q = Fraction(v)
    i = math.floor(q)
    f = math.floor((q - i) * GIGA + Fraction(1, 2))
    return [i + 1, 0] if f >= GIGA else [i, f]


def nums(v):
    return [num(x) for x in v]


def sci(v):
    """sign, decimal exponent and sixteen digits in groups of four, lowest first"""
    v = float(v)
    if not abs(v) < 1e300:
        return [9, 0, 0, 0, 0, 0]
    if v == 0:
        return [0] * 6
    m, e = ("%.15e" % abs(v)).split("e")
    m = int(m.replace(".", ""))
    return [-1 if v < 0 else 1, int(e) - 15] + [(m // 10 ** (4 * k)) % 10000 for k in range(4)]


def integer(v):
    return max(-2000000000, min(2000000000, int(v)))


class Trace:
    def __init__(self, name):
        self.f = open(os.path.join(out, name), "w")

    def put(self, op, **kw):
        e = dict(op=op)
        e.update(kw)
        self.f.write(json.dumps(e) + "\n")

    def close(self):
        self.f.close()


def outcome(f):
    """what a call did: an answer or the name of the exception"""
    try:
        return ["answer", f()]
    except Exception as e:
        return [type(e).__name__, 0]


def general(d, i):
    return geo.GeometryType("general(%d,%d)" % (i, d))


class Thing:
    """something that has a type, as entities and geometries do"""
    def __init__(self, t):
        self.type = t


# ------------------------------------------------------------------ reference elements

def calls(tr, dim, i, name, form, args, f):
    """a list of calls, in batches"""
    args = list(args)
    for b in range(0, len(args), 200):
        res = [outcome(lambda a=a: f(*a)) for a in args[b:b + 200]]
        tr.put("calls", dim=dim, id=i, call=name, form=form, args=[list(a) for a in args[b:b + 200]],
               out=[r[0] for r in res], val=[r[1] for r in res])


def references():
    tr = Trace("trace.ndjson")
    far = [-1000000, 1000000]
    for dim in range(5):
        for i in range(2 ** dim):
            ref = geo.referenceElement(general(dim, i))
            m = dict(dim=dim, id=i)
            codims = list(range(-2, dim + 3)) + far
            size = [ref.size(c) for c in range(dim + 1)]
            tr.put("element", dimension=ref.dimension, vol=num(ref.volume), center=nums(ref.center),
                   corners=[nums(x) for x in ref.corners],
                   normals=[nums(x) for x in ref.integrationOuterNormals] if dim > 0 else [], **m)
            calls(tr, dim, i, "size", "int", [(c,) for c in codims], lambda c: ref.size(c))
            calls(tr, dim, i, "size", "name", [(c,) for c in codims], lambda c: ref.size(codim=c))
            calls(tr, dim, i, "types", "int", [(c,) for c in codims], lambda c: [str(t) for t in ref.types(c)])
            calls(tr, dim, i, "positions", "int", [(c,) for c in codims], lambda c: [nums(x) for x in ref.positions(c)])
            if dim > 0:
                calls(tr, dim, i, "integrationOuterNormal", "int", [(k,) for k in list(range(-2, size[1] + 3)) + far],
                      lambda k: nums(ref.integrationOuterNormal(k)))
            pairs = []
            for c in codims:
                n = size[c] if 0 <= c <= dim else 2
                pairs += [(k, c) for k in list(range(-2, n + 3)) + far]
            calls(tr, dim, i, "type", "int", pairs, lambda k, c: str(ref.type(k, c)))
            calls(tr, dim, i, "type", "tuple", pairs, lambda k, c: str(ref.type((k, c))))
            calls(tr, dim, i, "position", "int", pairs, lambda k, c: nums(ref.position(k, c)))
            calls(tr, dim, i, "position", "tuple", pairs, lambda k, c: nums(ref.position((k, c))))
            some = [(k, c, cc) for (k, c) in pairs if abs(k) < 1000 and abs(c) < 1000 for cc in range(-1, dim + 2)]
            if dim == 4 and not thorough:
                some = [t for t in some if rng.random() < 0.3]
            some += [(0, 0, 1000000), (0, 0, -1000000), (0, dim, dim - 1)]
            calls(tr, dim, i, "size", "sub", some, lambda k, c, cc: ref.size(k, c, cc))
            calls(tr, dim, i, "size", "tuple", some, lambda k, c, cc: ref.size((k, c), cc))
            calls(tr, dim, i, "subEntities", "int", some, lambda k, c, cc: list(ref.subEntities(k, c, cc)))
            calls(tr, dim, i, "subEntities", "tuple", some, lambda k, c, cc: list(ref.subEntities((k, c), cc)))
            four = []
            for (k, c, cc) in some:
                good = 0 <= c <= cc <= dim and 0 <= k < size[c]
                n = ref.size(k, c, cc) if good else 1
                if good or rng.random() < 0.2:
                    four += [(k, c, kk, cc) for kk in range(-1, n + 2)]
            if dim >= 3 and not thorough:
                four = [t for t in four if rng.random() < (0.5 if dim == 3 else 0.2)]
            calls(tr, dim, i, "subEntity", "int", four, lambda *a: ref.subEntity(*a))
            calls(tr, dim, i, "subEntity", "tuple", four, lambda k, c, kk, cc: ref.subEntity((k, c), (kk, cc)))
    # one element per type, however it is asked for
    types = [(d, i) for d in range(5) for i in range(2 ** d)]
    first = {t: geo.referenceElement(general(*t)) for t in types}
    for t in types:
        same = [u for u in types if geo.referenceElement(general(*u)) is first[t]]
        tr.put("same", dim=t[0], id=t[1], same=[list(u) for u in same],
               thing=geo.referenceElement(Thing(general(*t))) is first[t],
               module=[str(geo.module(t[0]).general(general(*t)).type(0, 0)), str(first[t].type(0, 0))])
    for d in range(5):
        tr.put("shapeless", dim=d, out=[geo.referenceElement(geo.none(d)) is None, geo.referenceElement(Thing(geo.none(d))) is None])
    tr.close()


# ------------------------------------------------------------------ types and rules

def maketypes():
    """raw values <<dim, id, none>> and the types made for them, by every way there is"""
    r = []
    top = 7 if thorough else 6
    for d in range(top):
        for i in range(2 ** d):
            r.append(([d, i, False], "general", geo.GeometryType("general(%d, %d)" % (i, d))))
        r.append(([d, 0, True], "none", geo.none(d)))
        r.append(([d, 0, True], "nonestring", geo.GeometryType("none(%d)" % d)))
        r.append(([d, 0, False], "simplex", geo.simplex(d)))
        r.append(([d, 2 ** d - 1, False], "cube", geo.cube(d)))
        r.append(([d, 0, False], "simplexstring", geo.GeometryType("simplex(%d)" % d)))
        r.append(([d, 2 ** d - 1, False], "cubestring", geo.GeometryType("cube(%d)" % d)))
    for n, t in dict(vertex=[0, 0], line=[1, 0], triangle=[2, 0], quadrilateral=[2, 3],
                     tetrahedron=[3, 0], pyramid=[3, 3], prism=[3, 5], hexahedron=[3, 7]).items():
        r.append((t + [False], "name", getattr(geo, n)))
        r.append((t + [False], "namestring", geo.GeometryType(n)))
    return r


def typevalues(tr):
    ts = maketypes()
    pred = "isVertex isLine isTriangle isQuadrilateral isTetrahedron isPyramid isPrism isHexahedron isSimplex isCube isNone".split()
    back = {}
    for raw, how, t in ts:
        back.setdefault(t, raw)
    for raw, how, t in ts:
        tr.put("pytype", raw=raw, how=how, dim=integer(t.dim), dimension=integer(t.dimension), text=str(t),
               again=geo.GeometryType(str(t)) == t, **{k: getattr(t, k) for k in pred})
        tr.put("lookup", raw=raw, found=back[t])
    for raw, how, t in ts:
        for b in range(0, len(ts), 64):
            us = ts[b:b + 64]
            tr.put("pairs", raw=raw, other=[u[0] for u in us], eq=[t == u[2] for u in us], ne=[t != u[2] for u in us],
                   hash=[hash(t) == hash(u[2]) for u in us])


def fsum(v):
    return math.fsum(v) if all(abs(x) < 1e300 for x in v) else math.inf


def walk(points, weights, dirs):
    v = [float(w) for w in weights]
    r = [sci(fsum(v))]
    for k in dirs:
        v = [x * float(p[k]) for x, p in zip(v, points)]
        r.append(sci(fsum(v)))
    return r


def walksto(dim, degree, many):
    if dim == 0:
        return [[]]
    ends = set()
    for k in range(dim):
        ends.add(tuple(degree if j == k else 0 for j in range(dim)))
    for _ in range(many):
        cut = sorted(rng.randint(0, degree) for _ in range(dim - 1))
        ends.add(tuple(b - a for a, b in zip([0] + cut, cut + [degree])))
    r = []
    for e in sorted(ends):
        dirs = [k for k in range(dim) for _ in range(e[k])]
        rng.shuffle(dirs)
        r.append(dirs)
    return r


def rules(tr):
    for dim in range(5):
        for i in range(2 ** dim):
            t = general(dim, i)
            tops = {0: [0, 1, 5], 1: range(62), 2: range(62), 3: range(0, 30), 4: range(0, 9)}[dim]
            orders = [p for p in tops if thorough or p < 6 or rng.random() < (0.25 if dim < 3 else 0.1)]
            for p in orders:
                if thorough is False and (p + dim + 1) ** dim > 40000 * 2 ** dim:
                    continue
                got = outcome(lambda: geo.quadratureRule(t, p))
                if got[0] != "answer":
                    tr.put("norule", m=dim, id=i, p=p, out=got[0])
                    continue
                rule = got[1]
                pts = [(list(q.position), q.weight) for q in rule]
                arr = outcome(rule.get)
                x, w = arr[1] if arr[0] == "answer" else (numpy.zeros((0, 0)), numpy.zeros(0))
                shape = list(x.shape) + list(w.shape)
                order = integer(rule.order)
                degree = min(max(order, 0), 70) if dim > 0 else 0
                some = sorted({0, len(pts) - 1} | {rng.randrange(len(pts)) for _ in range(30)})
                tr.put("pyrule", ct="double", m=dim, id=i, qt=0, p=p, order=order, size=len(pts), text=str(rule.type), arr=arr[0], shape=shape,
                       pts=[nums(pts[k][0]) + [num(pts[k][1])] for k in some],
                       arrays=[nums(x[:, k]) + [num(w[k])] for k in some] if arr[0] == "answer" and x.shape[0] == dim and len(w) == len(pts) else [],
                       walks=[[dirs, walk([q[0] for q in pts], [q[1] for q in pts], dirs)] for dirs in walksto(dim, degree, 3)],
                       same=[geo.quadratureRule(general(dim, i ^ 1) if dim > 0 else t, p) is rule,
                             geo.quadratureRule(Thing(t), p) is rule,
                             geo.quadratureRules(p)(Thing(t)) is rule,
                             geo.quadratureRules(p)(t) is rule],
                       other=[geo.quadratureRule(general(d, j), q) is rule for (d, j, q) in
                              [(dim, i, p + 1), (dim, i ^ 2, p), (dim - 1, i, p)]
                              if 0 <= d and 0 <= j < 2 ** d and q < 60] if p < 4 and dim >= 2 else [])
            for p in [-1000000, -5, -2, -1] + list(range(58, 140)):
                got = outcome(lambda: geo.quadratureRule(t, p).order) if dim < 3 or p < 0 or p > 61 else None
                if got:
                    tr.put("request", m=dim, id=i, p=p, out=got[0], order=integer(got[1]))
    for dim in range(1, 5):
        cls = type(next(iter(geo.quadratureRule(geo.simplex(dim), 1))))
        for k in range(5):
            x = [rng.randint(-64, 64) / 8 for _ in range(dim)]
            w = rng.randint(-64, 64) / 8
            a = cls(x, w)
            b = cls(position=x, weight=w)
            tr.put("point", m=dim, x=[int(8 * v) for v in x], w=int(8 * w),
                   got=[nums(q.position) + [num(q.weight)] for q in (a, b)])


def lifetimes():
    """histories from the specification: who holds what when"""
    tr = Trace("life.ndjson")
    kinds = [geo.triangle, geo.hexahedron]
    orders = {1: 3, 2: 5, 3: 8}

    def both(k, gt):
        return geo.module(gt.dim).rule(gt, orders[k])

    keep = {(k, j): both(k, gt) for k in orders for j, gt in enumerate(kinds)}
    table = {key: [nums(q.position) + [num(q.weight)] for q in rule] for key, rule in keep.items()}
    read = lambda q: nums(q.position) + [num(q.weight)]  # noqa: E731
    with open(os.path.join(out, "lives.txt")) as f:
        for n, line in enumerate(f):
            steps = json.loads(line)
            j = n % len(kinds)
            gt = kinds[j]
            rule, it, pt, ps, arr = None, None, [None, None], [None, None], None
            for s in steps:
                what = s[0]
                if what == "rule":
                    rule = both(s[1], gt)
                elif what == "iter":
                    it = iter(rule)
                elif what == "next":
                    pt[s[1] - 1] = next(it)
                    ps[s[1] - 1] = pt[s[1] - 1].position
                elif what == "get":
                    arr = rule.get()
                elif what == "droprule":
                    rule = None
                elif what == "dropiter":
                    it = None
                elif what == "droppoint":
                    pt[s[1] - 1] = None
                elif what == "write":
                    for x in ps:
                        if x is not None:
                            for c in range(len(x)):
                                x[c] = 7
                    if arr is not None:
                        for a in arr:
                            a[...] = 7
            # whoever gave memory back finds it in use by others
            others = [numpy.full(k, 77.25) for k in (2, 4, 12, 18, 24, 30, 48, 60, 81, 108) for _ in range(2)]
            end = dict(points=[read(q) if q is not None else [] for q in pt],
                       positions=[nums(x) if x is not None else [] for x in ps],
                       rest=[read(q) for q in itertools.islice(it, 3)] if it is not None else [],
                       arrays=[nums(arr[0][:, k]) + [num(arr[1][k])] for k in range(2)] if arr is not None else [],
                       whole=[read(q) for q in itertools.islice(iter(rule), 2)] if rule is not None else [])
            del others
            tr.put("life", steps=steps, end=end, own=nums([7] * gt.dim), ownrow=nums([7] * (gt.dim + 1)), table=[table[(k, j)][:6] for k in sorted(orders)],
                   size=[len(table[(k, j)]) for k in sorted(orders)])
    tr.close()


# ------------------------------------------------------------------ integration and geometries

class Affine:
    """x -> A x + b as a Python object with the vectorised interface of grid geometries"""
    def __init__(self, t, rows):
        self.type = t
        self.rows = numpy.array(rows, dtype=float)

    def integrationElement(self, x):
        d = abs(numpy.linalg.det(self.rows)) if len(self.rows) else 1.0
        return numpy.full(numpy.shape(x)[1:], d)


class Element:
    def __init__(self, g):
        self.type = g.type
        self.geometry = g


def integrals(tr):
    for dim in range(1, 4):
        for i in range(0, 2 ** dim, 2):
            t = general(dim, i)
            for p in list(range(1, 9)):
                rows = [[rng.randint(-3, 3) + (9 if a == b else 0) for a in range(dim)] for b in range(dim)]
                g = Affine(t, rows)
                for by in ("geometry", "entity"):
                    x = Element(g) if by == "geometry" else g
                    for dirs in walksto(dim, p, 2):
                        def power(k):
                            def f(e, x):
                                v = numpy.ones(x.shape[1:])
                                for j in dirs[:k]:
                                    v = v * x[j]
                                return v
                            return f
                        for how in ("integrate", "apply"):
                            r = [outcome(lambda: geo.integrate(geo.quadratureRules(p), x, power(k)) if how == "integrate"
                                         else geo.quadratureRule(x, p).apply(x, power(k))) for k in range(len(dirs) + 1)]
                            tr.put("integral", ct="double", m=dim, id=i, qt=0, p=p, by=by, how=how, rows=rows,
                                   out=[v[0] for v in r], walks=[[dirs, [sci(v[1]) for v in r]]])
                    # the values may be vectors
                    two = outcome(lambda: [float(v) for v in geo.integrate(geo.quadratureRules(p), x, lambda e, x: numpy.array([numpy.ones(x.shape[1:]), x[0]]))])
                    tr.put("vector", ct="double", m=dim, id=i, qt=0, p=p, by=by, rows=rows, out=[two[0]],
                           walks=[[[0], [sci(v) for v in two[1]]]] if two[0] == "answer" else [])


def geometries():
    import pygeo
    tr = Trace("geo.ndjson")
    den = 4
    for (m, c) in pygeo.made:
        cls = getattr(pygeo, "MultiLinearGeometry_%d_%d" % (m, c))
        for i in range(2 ** m):
            t = general(m, i)
            ref = geo.referenceElement(t)
            cor = [[round(v) for v in x] for x in ref.corners]
            for k in range(12 if thorough else 4):
                shear = [[rng.randint(-3, 3) for _ in range(m)] for _ in range(c)]
                for a in range(m):
                    shear[a][a] += 12 if shear[a][a] >= 0 else -12
                bend = 0 if k % 2 == 0 else 2
                corners = [[sum(shear[a][b] * x[b] for b in range(m)) + rng.randint(-bend, bend) for a in range(c)] for x in cor]
                cden = 4
                lists = [[v / cden for v in x] for x in corners]
                g = cls(t, lists) if k % 3 else cls(type=t, corners=lists)
                xs = [[den * v for v in x] for x in cor]
                for _ in range(4):
                    w = [rng.randint(0, 4) for _ in cor]
                    # convex combinations with denominator den
                    x, left = [0] * m, den
                    while left:
                        u = rng.randint(1, left)
                        y = rng.choice(cor)
                        x = [p + u * q for p, q in zip(x, y)]
                        left -= u
                    xs.append(x)
                tip = lambda x: any(((i >> d) & 1) == 0 and x[d] == den for d in range(1, m))  # noqa: E731
                xs = [x for x in xs if not tip(x)]
                pts = []
                for x in xs:
                    lo = [v / den for v in x]
                    y = g.toGlobal(lo)
                    jt = g.jacobianTransposed(lo)
                    jit = g.jacobianInverseTransposed(lo)
                    J = [[num(jt[r][s]) for s in range(c)] for r in range(m)]
                    I = [[num(jit[r][s]) for s in range(m)] for r in range(c)]
                    pts.append(dict(x=x, g=nums(y), jt=J, j=[list(r) for r in zip(*J)] if m else [], ie=num(g.integrationElement(lo)),
                                    jit=I, ji=[list(r) for r in zip(*I)] if m else [], loc=nums(g.toLocal(y))))
                tr.put("geo", kind="ml", ct="double", id=i, m=m, c=c, cden=cden, corners=corners, text=str(g.type),
                       affine=bool(g.affine), nc=int(g.corners), corner=[nums(g.corner(k)) for k in range(int(g.corners))],
                       center=nums(g.center), hasvol=True, vol=num(g.volume), den=den, hasjac=True, hasie=True, hasinv=True, hasloc=True, pts=pts)
    tr.close()


if part == "C26":
    references()
elif part == "C27":
    tr = Trace("trace.ndjson")
    typevalues(tr)
    rules(tr)
    tr.close()
    lifetimes()
elif part == "C28":
    tr = Trace("trace.ndjson")
    integrals(tr)
    tr.close()
    geometries()
else:
    sys.exit(3)
