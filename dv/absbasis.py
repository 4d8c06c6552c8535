"""An arbitrary basis of smooth functions, for the symbolic reading: every value is an uninterpreted function of the coordinates of the point."""
from . import terms as T
from . import ctx as X
from . import arrays as A
from .terms import P, ge, eq, Unsupported


class AbstractBasis:
    def __init__(self, S, name, dim, const_removed, drop):
        self.name = name
        self.n_output_features_ = S.int("n_" + name, drop + 1)
        self.dim = dim
        self.const_removed = const_removed
        self.drop = drop
        self.dim_out_basis = 1

    def __deepcopy__(self, memo):
        r = object.__new__(AbstractBasis)
        r.__dict__.update(self.__dict__)
        return r

    def fit(self, d):
        return self

    def _X(self, Xa):
        Xa = A.asarr(Xa)
        if Xa.ndim != 2:
            raise ValueError("expected a two dimensional array of points")
        A.same_dim(Xa.sh[1], A.tp(self.dim), "dimension of the points")
        return Xa

    def _sym(self, kind, Xa, p, ixs):
        """value at row p: function of the index and of the coordinates of the row"""
        dim = A.tp(self.dim).as_int()
        if dim is not None:
            co = tuple(A.el2p(Xa.el((p, P.of(e)))) for e in range(dim))
            return T.app("%s:%s" % (kind, self.name), tuple(ixs) + co)
        # symbolic dimension: the row is represented by its generic coordinate
        return T.app("%s:%s" % (kind, self.name), tuple(ixs) + (row_id(Xa, p, A.tp(self.dim)),))

    def _cut(self):
        return self.drop if self.const_removed else 0

    def _mk(self, kind, Xa, extra, cut):
        Xa = self._X(Xa)
        sh = (Xa.sh[0], A.tp(self.n_output_features_) - cut) + (A.tp(self.dim),) * extra
        rd = Xa.copy()
        return A.new(sh, lambda i: self._sym(kind, rd, i[0], (i[1] + cut,) + tuple(i[2:])), "f")

    def basis(self, Xa):
        return self._mk("phi", Xa, 0, 0)

    def deriv(self, Xa, deriv_order=1):
        if deriv_order == 2:
            return self.hessian(Xa)
        if deriv_order != 1:
            raise Unsupported("derivative of order %r" % (deriv_order,))
        return self._mk("dphi", Xa, 1, self._cut())

    def hessian(self, Xa):
        return self._mk("ddphi", Xa, 2, self._cut())

    def antiderivative(self, Xa, order=1):
        if order != 1:
            raise Unsupported("antiderivative of order %r" % (order,))
        return self._mk("aphi", Xa, 0, 0)

    def phi(self, Xa, p, k):
        return A.num(self._sym("phi", self._X(Xa), A.tp(p), (A.tp(k),)))

    def dphi(self, Xa, p, k, d):
        return A.num(self._sym("dphi", self._X(Xa), A.tp(p), (A.tp(k), A.tp(d))))

    def ddphi(self, Xa, p, k, d, e):
        return A.num(self._sym("ddphi", self._X(Xa), A.tp(p), (A.tp(k), A.tp(d), A.tp(e))))

    def aphi(self, Xa, p, k):
        return A.num(self._sym("aphi", self._X(Xa), A.tp(p), (A.tp(k),)))


# A row of symbolic length is a function of its generic coordinate $e; two rows are the same point when these functions are
# the same term.  The term is passed as an argument (an opaque real standing for the whole row): the uninterpreted function
# of it is then a function of the row.
_E = T.var("$e")


def row_id(Xa, p, dim):
    with X.assuming(T.ge0(_E), T.lt(_E, dim)):
        t = A.el2p(Xa.el((p, _E)))
    return T.app("row", (t,))


class FitRecorder:
    const_removed = True
    n_output_features_ = 2

    def fit(self, d):
        self.seen = d
        return self
