"""Contracts of the finite element features and of the mesh helpers."""
from dv.api import contract, product

F = "VolterraBasis/basis/_fem_features.py:"
M = "VolterraBasis/basis/_mesh_utils.py:"


def fem(S, kind, mesh="plain"):
    """meshes with vertices and elements in any order, refined, elongated, rotated, of few elements; points inside, and on the faces"""
    import skfem
    np = S.np
    if kind.startswith("line"):
        p = np.cumsum(0.2 + np.abs(S.arr("p", S.int("np", 2, 6))))
        m = skfem.MeshLine(p)
        if mesh == "shuffled":
            new = S.rng.permutation(len(p))
            q = np.empty_like(p)
            q[new] = p
            t = np.ascontiguousarray(new[m.t][:, S.rng.permutation(m.t.shape[1])])
            side = S.rng.randint(2, size=t.shape[1])          # vertices of an element in any order
            m = skfem.MeshLine(q[None], np.where(side, t, t[::-1]))
        elif mesh == "refined":
            m = m.refined(2)
        elif mesh == "adapted":
            m = m.refined(np.array([0]))
        m = unit(S, m)
        lo, hi = m.p.min(), m.p.max()
        X = np.concatenate((lo + (hi - lo) * S.arr("t", 9, lo=0.01, hi=0.99), [lo, hi]))[:, None]
        return skfem.CellBasis(m, getattr(skfem, {"lineP1": "ElementLineP1", "lineP2": "ElementLineP2"}[kind])()), X
    dim = 2 if kind.startswith("tri") else 3
    cls = skfem.MeshTri if dim == 2 else skfem.MeshTet
    if mesh == "single":
        m = cls()
    elif mesh == "elongated":
        m = cls.init_tensor(*([np.array([0, 0.02, 0.05, 1.0]), np.array([0, 1.0])] if dim == 2 else [np.array([0, 0.05, 1.0]), np.array([0, 1.0]), np.array([0, 0.5, 1.0])]))
    elif mesh == "refined":
        m = cls().refined(1)
    elif mesh == "fine":        # many flat elements: the nearest centres are not those of the element
        m = cls.init_tensor(*[np.cumsum(S.rng.uniform(0.5, 1.5, 12 if dim == 2 else 5)), np.cumsum(S.rng.uniform(10.0, 30.0, 6 if dim == 2 else 4)), np.array([0.0, 1.0, 2.0])][:dim])
    else:
        m = cls.init_tensor(*[np.array([0, 0.7, 1.3, 2.0]), np.array([-1, 0.1, 1.0]), np.array([0, 1.0])][:dim])
    if mesh == "rotated":
        A = np.linalg.qr(S.rng.normal(size=(dim, dim)))[0] * S.rng.uniform(0.5, 3.0)
        m = cls(np.ascontiguousarray(A @ m.p + S.rng.normal(size=(dim, 1))), m.t)
    e = getattr(skfem, {"triP1": "ElementTriP1", "triP2": "ElementTriP2", "tetP1": "ElementTetP1", "tetP2": "ElementTetP2"}[kind])()
    m = unit(S, m)
    vert = m.p[:, m.t[:, S.rng.randint(0, m.t.shape[1], 12)]]                    # points inside elements taken at random
    X = (vert * S.rng.dirichlet([1.0] * (dim + 1), 12).T[None]).sum(axis=1).T
    face = m.p[:, m.facets[:, S.rng.randint(0, m.facets.shape[1], 12)]]          # and on faces
    return skfem.CellBasis(m, e), np.concatenate((X, (face * S.rng.dirichlet([1.0] * dim, 12).T[None]).sum(axis=1).T))


def unit(S, m):
    """the same mesh in another unit of length"""
    u = 10.0 ** S.rng.choice([0, 0, -9, 5])
    return m if u == 1 else type(m)(S.np.ascontiguousarray(m.p * u), m.t)


KINDS = product(kind=["lineP1", "lineP2"], mesh=["plain", "shuffled", "refined", "adapted"]) + product(kind=["triP1", "triP2", "tetP1", "tetP2"], mesh=["plain", "single", "elongated", "refined", "rotated", "fine"])


@contract("C22", [F + "FEMScalarFeatures.fit", F + "FEMScalarFeatures.basis", F + "FEMScalarFeatures.deriv", F + "FEMScalarFeatures.element_finder", F + "ElementFinder.__init__", F + "ElementFinder.find_element_1D", F + "ElementFinder.find_element_ND", F + "ElementFinder.inside_2D", F + "ElementFinder.inside_3D"],
          KINDS, trials=3, symbolic=False, why="scikit-fem meshes, mappings and elements")
def features(S):
    """functions of the finite element space: equal to one at their node, summing to one, the gradient is the gradient; points are located in their element"""
    np = S.np
    fb, X = fem(S, S.case.kind, S.case.mesh)
    e = fb.elem
    b = S.vb("basis").FEMScalarFeatures(fb).fit(None)
    n, dim = fb.N, X.shape[1]
    S.eq(b.n_output_features_, n, "number of features")
    if S.rng.randint(3):
        S.history([lambda: b.basis(X), lambda: b.deriv(X), lambda: b.element_finder(X)], [X])
    S.history([lambda: b.basis(X[:1]), lambda: b.deriv(X[:5])])
    X0 = X.copy()
    f, g = np.asarray(b.basis(X)), np.asarray(b.deriv(X))
    S.same(X, X0, "points not altered")
    S.shape(f, (len(X), n)), S.shape(g, (len(X), n, dim))
    # independent evaluation: barycentric location and reference element; on a face, the gradient is the one of either side
    cells = locate(np, fb.mesh, X)
    for q in range(len(X)):
        grads = []
        for T in cells[q]:
            row, grow = element_values(np, fb, T, X[q])
            S.allclose(f[q], row, "values", scale=1.0, tol=1e-8)
            grads.append(grow)
        S.true(any(np.allclose(g[q], w, rtol=1e-7, atol=1e-7 * max(1.0, np.abs(w).max())) for w in grads), "gradients")
    S.allclose(f.sum(axis=1), np.ones(len(X)), "partition of unity")
    S.allclose(g.sum(axis=1), np.zeros((len(X), dim)), "gradients of a partition of unity", scale=max(1.0, np.abs(g).max()))
    nodes = fb.doflocs.T.copy()
    fn = np.asarray(b.basis(nodes))
    S.allclose(fn, np.eye(n), "one at its own node, zero at the others", tol=1e-6)
    S.true(b.const_removed is False and b.dim_out_basis == 1, "scalar basis, constant kept")
    again = S.vb("basis").FEMScalarFeatures(fb)
    S.allclose(again.element_finder(X[:12]), b.element_finder(X[:12]), "points can be located before fitting")
    S.raises(lambda: b.antiderivative(X), "no primitive")
    S.raises(lambda: b.hessian(X), "no hessian")
    import skfem
    if dim > 1:
        S.raises(lambda: S.vb("basis").FEMScalarFeatures(skfem.CellBasis(fb.mesh, skfem.ElementVector(e))).fit(None), "vector elements are refused")


@contract("C22", [F + "FEMScalarFeatures.basis", F + "FEMScalarFeatures.deriv", F + "FEMScalarFeatures.fit"], [dict(dim=d, Nbfun=k) for d, k in ((1, 2), (1, 3), (2, 3), (2, 6), (3, 4))], concrete=False)
def assembled(S):
    """whatever the mesh, the points, and the elements found: a function of the space is the sum of the local functions of its degree of freedom
    in the element of the point, its gradient the sum of their gradients (scikit-fem replaced by any basis of the same interface)"""
    np = S.np
    dim, K = S.case.dim, S.case.Nbfun
    S.stand_ins("features")
    n, N, T = S.int("n", 1, 9), S.int("N", 1, 9), S.int("T", 1, 9)
    dofs, cells = S.iarr("dofs", K, T, hi=N), S.iarr("cells", n, hi=T)
    phi = [S.arr("phi%d" % k, n, 1) for k in range(K)]
    for k in range(K):
        phi[k].grad = S.arr("dphi%d" % k, dim, n, 1)
    X = S.arr("X", n, dim)

    class Mapping:
        def F(self, p, tind=None):
            return p

        def invF(self, x, tind=None):
            S.shape(x, (dim, n, 1))
            S.forall([("d", 0, dim), ("i", 0, n)], lambda d, i: S.eq(x[d, i, 0], X[i, d], "the points are those given"))
            S.forall([("i", 0, n)], lambda i: S.eq(tind[i], cells[i], "in their elements"))
            return S.arr("local", dim, n, 1)

    class Elem:
        def gbasis(self, mapping, x, k, tind=None):
            if tind is not None:
                S.forall([("d", 0, dim), ("i", 0, n)], lambda d, i: S.eq(x[d, i, 0], S.arr("local", dim, n, 1)[d, i, 0], "local coordinates"))
                S.forall([("i", 0, n)], lambda i: S.eq(tind[i], cells[i], "in their elements"))
            return [phi[k]]

    class Mesh:
        p = S.arr("p", dim, S.int("V", 2, 9))

    class Basis:
        pass
    fb = Basis()
    fb.N, fb.Nbfun, fb.element_dofs, fb.mapping, fb.elem, fb.mesh = N, K, dofs, Mapping(), Elem(), Mesh()

    class Finder:
        def __init__(self, mesh, mapping=None):
            pass

        def find(self, x):
            S.forall([("d", 0, dim), ("i", 0, n)], lambda d, i: S.eq(x[i, d], X[i, d], "the points are those given"))
            return cells
    S.callee(S.vb("basis._fem_features"), "ElementFinder", Finder)
    b = S.vb("basis").FEMScalarFeatures(fb).fit(None)
    S.eq(b.n_output_features_, N, "number of features")
    S.true(b.const_removed is False and b.dim_out_basis == 1, "scalar basis, constant kept")
    f, g = b.basis(X), b.deriv(X)
    S.shape(f, (n, N)), S.shape(g, (n, N, dim))
    on = lambda k, i, j: S.ceq(dofs[k, cells[i]], j)
    S.forall([("i", 0, n), ("j", 0, N)], lambda i, j: S.eq(f[i, j], sum(np.where(on(k, i, j), phi[k][i, 0], 0) for k in range(K)), "values"))
    for d in range(dim):
        S.forall([("i", 0, n), ("j", 0, N)], lambda i, j: S.eq(g[i, j, d], sum(np.where(on(k, i, j), phi[k].grad[d, i, 0], 0) for k in range(K)), "gradients"))
    S.forall([("i", 0, n)], lambda i: S.eq(f.sum(axis=1)[i], sum(phi[k][i, 0] for k in range(K)), "sum of all functions"))
    for d in range(dim):
        S.forall([("i", 0, n)], lambda i: S.eq(g.sum(axis=1)[i, d], sum(phi[k].grad[d, i, 0] for k in range(K)), "sum of all gradients"))


@contract("C22", [F + "ElementFinder.__init__", F + "ElementFinder.find_element_1D"], concrete=False)
def located_on_a_line(S):
    """whatever the order of the vertices and of the elements of a mesh of a line: a point of the mesh is in its element"""
    np = S.np
    S.stand_ins("features")
    n, V, T = S.int("n", 1, 9), S.int("V", 2, 9), S.int("T", 1, 9)

    class Mesh:
        p = S.arr("p", 1, V)
        t = S.iarr("t", 2, T, hi=V)
        nelements, nvertices = T, V

        def dim(self):
            return 1
    m = Mesh()
    X = S.arr("X", n, 1)
    finder = S.vb("basis._fem_features").ElementFinder(m)
    left = lambda e: np.minimum(m.p[0, m.t[0, e]], m.p[0, m.t[1, e]])
    right = lambda e: np.maximum(m.p[0, m.t[0, e]], m.p[0, m.t[1, e]])
    lo, hi = m.p.min(), m.p.max()
    first, after = S.iarr("first", 1, hi=T), S.iarr("after", T, hi=T)

    def point(i):
        x = X[i, 0]
        S.rank(first[0])
        S.assume(lo <= x)
        S.assume(x <= hi)
        S.assume(S.ceq(left(first[0]), lo))
        S.assume(left(first[0]) < right(first[0]))
        e = finder.find(X)[i]
        S.rank(after[e])
        S.true(e >= 0, "an element")
        S.true(e < T, "an element")
        # the mesh has no hole: after an element that does not end the mesh comes another one
        S.assume(S.any_of(S.ceq(right(e), hi), S.ceq(left(after[e]), right(e))))
        S.assume(left(e) < right(e))
        S.true(left(e) <= x, "after the left end of its element")
        S.true(x <= right(e), "before the right end of its element")
    S.forall([("i", 0, n)], point)


@contract("C22", [F + "ElementFinder.__init__", F + "ElementFinder.find_element_ND", F + "ElementFinder.inside_2D", F + "ElementFinder.inside_3D"], product(dim=[2, 3], T=[1, 2, 3, 4]) + [dict(dim=2, T=6)], concrete=False)
def located_in_space(S):
    """whatever the elements proposed by the search of neighbours: a point is put in an element that contains it when there is one, in the one
    it is least outside of otherwise"""
    np = S.np
    S.stand_ins("features")
    dim, T = S.case.dim, S.case.T
    S.opaque()
    n = S.int("n", 1, 9)

    class Tree:
        def __init__(self, centres):
            S.shape(centres, (T, dim))
            self.n = T

        def query(self, X, k=1):
            S.true(k >= 1, "at least one neighbour")
            S.true(k <= T, "no more neighbours than elements")
            near = S.iarr("near", n, k, hi=T)
            return None, near if k > 1 else near[:, 0]
    S.callee(S.vb("basis._fem_features"), "cKDTree", Tree)

    class Mapping:
        def invF(self, x, tind=None):
            return np.stack([np.stack([S.fn("local", d, tind[k], *[x[c, 0, 0] for c in range(dim)]) for k in range(tind.shape[0])]) for d in range(dim)])[:, :, None]

    class Mesh:
        def dim(self):
            return S.case.dim
    m = Mesh()
    m.p = S.arr("p", dim, S.int("V", dim + 1, 9))
    m.t = S.iarr("t", dim + 1, T, hi=m.p.shape[1])
    X = S.arr("X", n, dim)
    finder = S.vb("basis._fem_features").ElementFinder(m, mapping=Mapping())
    E = finder.find(X)
    S.shape(E, (n,))

    def depth(i, e):
        loc = [S.fn("local", d, e, *[X[i, c] for c in range(dim)]) for d in range(dim)]
        r = 1 - sum(loc)
        for w in loc:
            r = np.minimum(r, w)
        return r
    for e in range(T):
        S.forall([("i", 0, n)], lambda i: S.true(S.any_of(depth(i, E[i]) >= 0, depth(i, E[i]) >= depth(i, e)), "the element of the point"))
    S.forall([("i", 0, n)], lambda i: (S.true(E[i] >= 0, "an element"), S.true(E[i] < T, "an element")))


def element_values(np, fb, T, x):
    vert = fb.mesh.p[:, fb.mesh.t[:, T]]
    Am = (vert[:, 1:] - vert[:, :1])
    loc = np.linalg.solve(Am, x - vert[:, 0])
    row, grow = np.zeros(fb.N), np.zeros((fb.N, len(x)))
    for i in range(fb.Nbfun):
        phi, dphi = fb.elem.lbasis(loc[:, None], i)
        row[fb.element_dofs[i, T]] += phi[0] if np.ndim(phi) else phi
        grow[fb.element_dofs[i, T]] += np.linalg.solve(Am.T, np.array([float(np.ravel(c)[0]) for c in dphi]))
    return row, grow


def locate(np, mesh, X):
    """the elements that contain each point, up to rounding"""
    out = []
    for x in X:
        depth = []
        for T in range(mesh.t.shape[1]):
            vert = mesh.p[:, mesh.t[:, T]]
            loc = np.linalg.solve(vert[:, 1:] - vert[:, :1], x - vert[:, 0])
            depth.append(min(loc.min(), 1 - loc.sum()))
        out.append([T for T, w in enumerate(depth) if w > -1e-9])
    return out


# ------------------------------------------------------------------ mesh lines
@contract("C24", M + "uniform_line")
def uniform_line(S):
    n = S.int("n", 1, 7)
    a, b = S.real("a", -2.0, 0.0), S.real("b", 1.0, 3.0)
    r = S.vb("basis._mesh_utils").uniform_line(a, b, n)
    S.shape(r, (n + 1,))
    S.forall([("i", 0, n + 1)], lambda i: S.eq(r[i], a + i * (b - a) / n, "regular grid"))


@contract("C24", M + "non_uniform_line")
def non_uniform_line(S):
    """from x_start to x_end, cells in geometric progression"""
    n = S.int("n", 1, 7)
    a, b = S.real("a", -2.0, 0.0), S.real("b", 1.0, 3.0)
    q = S.real("q", 1.1, 2.0)
    S.assume(q > 1)
    r = S.vb("basis._mesh_utils").non_uniform_line(a, b, n, q)
    S.shape(r, (n + 1,))
    S.eq(r[0], a, "starts at x_start")
    S.eq(r[n], b, "ends at x_end")
    S.forall([("i", 1, n)], lambda i: S.eq(r[i + 1] - r[i], q * (r[i] - r[i - 1]), "geometric progression"))


@contract("C24", M + "data_driven_line", product(a=["none", "zero", "any"], z=["none", "zero", "any"]), trials=4)
def data_line(S):
    """a regular grid of the wanted number of cells, from the given ends or from those of the data"""
    np = S.np
    m = S.vb("basis._mesh_utils")
    n = S.int("n", 2, 60)
    data = S.arr("data", n, 1, lo=-1.0, hi=1.0)
    bins = S.int("bins", 1, 9)
    ends = {"x_start": {"none": None, "zero": 0.0, "any": S.real("a", -3.0, -1.5)}[S.case.a], "x_end": {"none": None, "zero": 0, "any": S.real("z", 1.5, 3.0)}[S.case.z]}
    if S.case.a == S.case.z == "zero":
        return
    lo = data.min() if ends["x_start"] is None else ends["x_start"]
    hi = data.max() if ends["x_end"] is None else ends["x_end"]
    S.assume(lo < hi)
    before = S.snapshot(data)
    r = m.data_driven_line(data, bins=bins, **{k: v for k, v in ends.items() if v is not None})
    S.shape(r, (bins + 1,))
    S.eq(r[0], lo, "from the given start, or the smallest value")
    S.eq(r[bins], hi, "to the given end, or the largest value")
    S.forall([("i", 0, bins + 1)], lambda i: S.eq(r[i], lo + i * (hi - lo) / bins, "regular grid"))
    S.forall([("i", 0, bins)], lambda i: S.true(r[i] < r[i + 1], "increasing"))
    if S.case.a == S.case.z == "none":
        S.forall([("k", 0, n)], lambda k: (S.true(r[0] <= data[k, 0], "covers the data"), S.true(data[k, 0] <= r[bins], "covers the data")))
        S.shape(m.data_driven_line(data), (11,), "ten cells by default")
    S.same(data, before, "data not altered")


@contract("C24", [M + "centroid_driven_line"], symbolic=False, why="clustering", trials=4)
def driven_lines(S):
    """an increasing grid that covers the data, the same at every call"""
    np = S.np
    m = S.vb("basis._mesh_utils")
    data = S.rng.normal(size=(S.int("n", 30, 60), 1))
    r = m.data_driven_line(data, bins="auto")
    S.true(np.all(np.diff(r) > 0), "increasing")
    S.eq(r[0], data.min(), "covers the data")
    S.eq(r[-1], data.max(), "covers the data")
    d0 = data.copy()
    c = m.centroid_driven_line(data, bins=6)
    S.shape(c, (8,))
    S.true(np.all(np.diff(c) >= -1e-12), "sorted, up to rounding")
    S.eq(c[0], data.min(), "covers the data")
    S.eq(c[-1], data.max(), "covers the data")
    S.same(d0, data, "data not altered")
    S.allclose(m.centroid_driven_line(data, bins=6), c, "the same grid at another call")


@contract("C24", M + "remove_one_point", [dict(n=n, k=k, small=s) for n in (4, 5) for k in range(n - 1) for s in (True, False)], trials=4)
def shortest_edge(S):
    """an edge much shorter than the others is removed: the edges on its sides are extended up to their intersection, the other points do not change"""
    np = S.np
    m = S.vb("basis._mesh_utils")
    n, k = S.case.n, S.case.k
    if S.symbolic and n > 4:
        return          # polygons of four points: proved; of five: on numbers
    limit = S.real("limit", 0.01, 0.02)
    if S.symbolic:
        V = S.arr("V", n, 2)
    else:
        ang = 2 * np.pi * (np.arange(n) + S.rng.uniform(-0.25, 0.25, n)) / n
        ang[k + 1] = ang[k] + (0.02 if S.case.small else 1.2)
        V = np.stack([S.real("rx", 1.0, 3.0) * np.cos(ang), S.real("ry", 1.0, 3.0) * np.sin(ang)], axis=1) + S.arr("c", 2)
    edge = lambda i: (V[i + 1, 0] - V[i, 0]) ** 2 + (V[i + 1, 1] - V[i, 1]) ** 2
    tot = sum(edge(i) for i in range(1, n - 1)) + edge(0)
    side = ((k - 1) % n, k, k + 1, (k + 2) % n)         # the edges before and after the short one
    det = (V[side[0], 0] - V[side[1], 0]) * (V[side[2], 1] - V[side[3], 1]) - (V[side[0], 1] - V[side[1], 1]) * (V[side[2], 0] - V[side[3], 0])
    S.assume(edge(k) / tot < limit if S.case.small else edge(k) / tot >= limit)
    for i in range(n - 1):
        if i != k:
            S.assume(edge(k) < edge(i))
    if S.symbolic:
        S.assume(S.not_(S.ceq(det, 0)))     # not parallel
    before = V.copy()
    W, again = m.remove_one_point(V, ratio_limit=limit)
    if not S.case.small:
        S.true(not again, "nothing to remove")
        S.same(W, before, "unchanged")
        return
    S.true(again, "an edge was removed")
    S.shape(W, (n - 1, 2))
    for i in range(n - 1):
        if i != k:
            for c in range(2):
                S.eq(W[i, c], before[i if i < k else i + 1, c], "other points")
    for p, q in (side[:2], side[2:]):
        a, b = before[p], before[q]
        S.eq((W[k, 0] - a[0]) * (b[1] - a[1]), (W[k, 1] - a[1]) * (b[0] - a[0]), "on the extended edge", 10.0)
    if not S.symbolic:
        area = lambda Q: 0.5 * abs(np.sum(Q[:, 0] * np.roll(Q[:, 1], -1) - Q[:, 1] * np.roll(Q[:, 0], -1)))
        S.true(area(W) >= area(before) * (1 - 1e-9), "what was inside is still inside")


@contract("C24", M + "get_intersect")
def intersect(S):
    """the point found lies on both lines"""
    P = [[S.real("%s%d" % (c, i), -2.0, 2.0) for c in "xy"] for i in range(4)]
    (x1, y1), (x2, y2), (x3, y3), (x4, y4) = P
    det = (x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4)
    if S.symbolic:
        S.assume(S.not_(S.ceq(det, 0)))
    else:
        S.assume(abs(det) > 0.2)
    x, y = S.vb("basis._mesh_utils").get_intersect(*[S.vec(*p) for p in P])
    S.eq((x - x1) * (y2 - y1), (y - y1) * (x2 - x1), "on the first line", 10.0)
    S.eq((x - x3) * (y4 - y3), (y - y3) * (x4 - x3), "on the second line", 10.0)


@contract("C24", [M + "centroid_driven_mesh", M + "remove_one_point"], product(given=[False, True]), symbolic=False, why="clustering and triangulation", trials=2)
def driven_mesh(S):
    """a triangulation that covers the given boundary, or the data"""
    np = S.np
    from scipy.spatial import Delaunay
    m = S.vb("basis._mesh_utils")
    data = S.rng.uniform(0.1, 0.9, size=(150, 2))
    box = [[0, 0], [0, 1], [1, 0], [1, 1]]
    v, t = m.centroid_driven_mesh(data, bins=S.int("bins", 1, 8), boundary_vertices=box if S.case.given else None, simplify_hull=0.0 if not S.case.given else 0.01)
    S.true(v.shape[1] == 2 and t.shape[1] == 3 and t.min() >= 0 and t.max() < len(v), "valid triangulation")
    S.true(np.all(Delaunay(v).find_simplex(data * 0.999 + 0.0005 if S.case.given else data.mean(axis=0) + 0.98 * (data - data.mean(axis=0))) >= 0), "covers the data")
    area = sum(0.5 * abs(np.linalg.det(v[c[1:]] - v[c[0]])) for c in t)
    again = m.centroid_driven_mesh(data, bins=3, boundary_vertices=box)
    S.allclose(m.centroid_driven_mesh(data, bins=3, boundary_vertices=box)[0], again[0], "the same mesh at another call")
    if S.case.given:
        S.eq(area, 1.0, "covers the boundary")
