"""Assumed contracts of xarray: labelled arrays over dv.arrays (dimensions by name, index coordinates, missing values)."""
import copy as _copy
from collections.abc import Mapping
import os
from . import terms as T
from . import ctx as X
from . import arrays as A
from .terms import P, C, And, Or, Not, ge0, eq0, le, lt, ge, eq, TRUE, FALSE, Unsupported
from .load import Stub


class Obj:
    """content of a zero dimensional variable that is not a number"""

    def __init__(self, v):
        self.v = v
        self.sh = ()
        self.ndim = 0
        self.shape = ()

    def __deepcopy__(self, memo):
        return Obj(self.v)

    def copy(self):
        return Obj(self.v)

    def item(self):
        return self.v

    tolist = item

    def __getitem__(self, k):
        if k == ():
            return self.v
        raise Unsupported("indexing of a variable that is not a number")

    def __eq__(self, o):
        return self.v == (o.v if isinstance(o, Obj) else o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.v)

    def __str__(self):
        return str(self.v)


def _data(x):
    if isinstance(x, (str, bytes)):
        return Obj(x)
    if isinstance(x, DataArray):
        return x._a
    if isinstance(x, Obj):
        return x
    return A.asarr(x)


def _eitherdict(d, kw):
    r = dict(d or {})
    r.update(kw)
    return r


class Sizes(Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return A.num(self.d[k])

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d


class Coords(Mapping):
    def __init__(self, owner):
        self.o = owner

    def __getitem__(self, k):
        return self.o._coord(k)

    def __iter__(self):
        return iter(self.o._co)

    def __len__(self):
        return len(self.o._co)

    def __contains__(self, k):
        return k in self.o._co

    def __setitem__(self, k, v):
        self.o._set_coord(k, v)

    def keys(self):
        return list(self.o._co)


class Variable:
    """(dims, data) of a coordinate or a data variable"""

    def __init__(self, dims, a):
        self.dims, self.a = tuple(dims), a

    def sizes(self):
        return dict(zip(self.dims, self.a.sh))


def same_coord(a, b, dim):
    """the two index coordinates hold the same labels (otherwise xarray would intersect them)"""
    if a is b or (a.a.buf is b.a.buf and a.a.axes == b.a.axes and a.a.sh == b.a.sh):
        return True
    A.same_dim(a.a.sh[0], b.a.sh[0], "coordinate " + dim)
    v = T.fresh("l")
    with X.assuming(ge0(v), lt(v, a.a.sh[0])):
        d = A.el2p(a.a.el((v,))) - A.el2p(b.a.el((v,)))
        if not d.d:
            return True
        from . import prove as PR
        if PR.prove_zero(d):
            return True
    raise Unsupported("alignment of different coordinates along " + dim)


def merge_coords(*xs):
    out = {}
    for co in xs:
        for k, v in co.items():
            if k in out:
                if v.dims == (k,):
                    same_coord(out[k], v, k)
                continue
            out[k] = v
    return out


def check_sizes(vs, what):
    sz = {}
    for v in vs:
        for d, s in zip(v.dims, v.a.sh):
            if d in sz:
                A.same_dim(s, sz[d], "%s: dimension %s" % (what, d))
            else:
                sz[d] = s
    return sz


def unified(dimss):
    out = []
    for ds in dimss:
        for d in ds:
            if d not in out:
                out.append(d)
    return out


def arrange(a, dims, newdims):
    """data of dimensions `dims` as an array over `newdims` (missing dimensions of size one)"""
    have = [d for d in newdims if d in dims]
    if list(dims) != have:
        a = A.transpose(a, tuple(dims.index(d) for d in have))
    if len(have) != len(newdims):
        a = a[tuple(slice(None) if d in dims else None for d in newdims)]
    return a


class DataArray:
    __array_priority__ = 300
    __hash__ = object.__hash__

    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None, **k):
        d = self.__dict__
        co = {}
        if isinstance(data, DataArray):
            if coords is None:
                co = dict(data._co)
            if dims is None:
                dims = data.dims
            if attrs is None:
                attrs = data.attrs
        a = _data(data)
        if isinstance(dims, str):
            dims = (dims,)
        if dims is None:
            if coords is not None and not isinstance(coords, Mapping):
                raise Unsupported("list of coordinates")
            if coords and len(coords) == a.ndim and all(True for _ in coords):
                dims = tuple(coords)
            else:
                dims = tuple("dim_%d" % i for i in range(a.ndim))
        if len(tuple(dims)) != a.ndim:
            raise ValueError("different number of dimensions on data and dims: %d vs %d" % (a.ndim, len(tuple(dims))))
        d["_a"], d["_dims"], d["attrs"], d["name"] = a, tuple(dims), dict(attrs or {}), name
        d["_co"] = co
        if coords is not None:
            if not isinstance(coords, (Mapping, dict)):
                raise Unsupported("list of coordinates")
            for kk in list(coords):
                self._set_coord(kk, coords[kk])

    @staticmethod
    def _mk(a, dims, co, attrs=None, name=None):
        r = object.__new__(DataArray)
        d = r.__dict__
        d["_a"], d["_dims"], d["_co"], d["attrs"], d["name"] = a, tuple(dims), {k: v for k, v in co.items() if all(x in dims for x in v.dims)}, dict(attrs or {}), name
        return r

    # -- access
    @property
    def dims(self):
        return self._dims

    @property
    def shape(self):
        return tuple(A.num(s) for s in self._a.sh)

    @property
    def sh(self):
        return self._a.sh

    @property
    def ndim(self):
        return len(self._dims)

    @property
    def size(self):
        return self._a.size

    @property
    def sizes(self):
        return Sizes(dict(zip(self._dims, self._a.sh)))

    @property
    def dtype(self):
        return self._a.dtype

    @property
    def coords(self):
        return Coords(self)

    @property
    def indexes(self):
        return {k: v for k, v in self._co.items() if v.dims == (k,)}

    @property
    def T(self):
        return self.transpose()

    @property
    def values(self):
        return self._plain()

    @property
    def data(self):
        return self._plain()

    @data.setter
    def data(self, v):
        self.__dict__["_a"] = _data(v)

    @values.setter
    def values(self, v):
        self.__dict__["_a"] = _data(v)

    def _plain(self):
        return self._a

    def to_numpy(self):
        return self._plain()

    def to_arr(self):
        if isinstance(self._a, Obj):
            raise Unsupported("variable that is not a number")
        return self._a

    def item(self):
        if isinstance(self._a, Obj):
            return self._a.v
        if self._a.buf.dtype == "b":
            c = A.tc(self._a.el(tuple(T.ZERO for _ in self._a.sh)))
            return A.num(c)
        return A.num(A.tp(self._a))

    def __array__(self, *a, **k):
        raise Unsupported("conversion to a numpy array")

    def sym_len(self):
        if not self._a.sh:
            raise TypeError("len() of unsized object")
        return A.num(self._a.sh[0])

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        n = self._a.sh[0].as_int() if self._a.sh else None
        if n is None:
            raise Unsupported("iteration over a labelled array of symbolic length")
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        return bool(self._a)

    def __float__(self):
        raise Unsupported("float() of a labelled array")

    def __index__(self):
        return self._a.__index__()

    def __repr__(self):
        return "DataArray%r" % (self._dims,)

    def __getattr__(self, n):
        if n.startswith("__") or n in ("_a", "_co", "_dims", "spec_op", "coord"):
            raise AttributeError(n)
        if n in self._co or n in self._dims:
            return self._coord(n)
        if n in self.attrs:
            return self.attrs[n]
        if n in UNSUPPORTED:
            return Stub("DataArray." + n)
        raise AttributeError("'DataArray' object has no attribute %r" % n)

    def __setattr__(self, n, v):
        if n in ("attrs", "name", "values", "data"):
            object.__setattr__(self, n, v)
            return
        raise AttributeError("cannot set attribute %r on a 'DataArray' object" % n)

    def _coord(self, k):
        if k in self._co:
            v = self._co[k]
            return DataArray._mk(v.a, v.dims, {k: v}, name=k)
        if k in self._dims:
            n = self._a.sh[self._dims.index(k)]
            return DataArray._mk(A.arange(A.num(n)), (k,), {}, name=k)
        raise KeyError(k)

    def _set_coord(self, k, v):
        if isinstance(v, tuple) and len(v) == 2 and (isinstance(v[0], (str, list, tuple))):
            dims = (v[0],) if isinstance(v[0], str) else tuple(v[0])
            var = Variable(dims, _data(v[1]))
        elif isinstance(v, DataArray):
            var = Variable(v.dims, v._a)
        else:
            a = _data(v)
            if a.ndim == 1:
                var = Variable((k,), a)
            elif a.ndim == 0:
                var = Variable((), a)
            else:
                raise ValueError("coordinate %r has more than one dimension" % k)
        for dd, s in zip(var.dims, var.a.sh):
            if dd not in self._dims:
                raise ValueError("coordinate %s has dimensions %r, but these are not a subset of the DataArray dimensions" % (k, var.dims))
            A.same_dim(s, self._a.sh[self._dims.index(dd)], "coordinate " + k)
        self._co[k] = index_copy(k, var)

    # -- indexing
    def _index(self, key):
        """key: {dim: int | slice | list}"""
        a, dims = self._a, list(self._dims)
        ks = tuple(key.get(d, slice(None)) for d in dims)
        co = {}
        for n, v in self._co.items():
            kk = tuple(key.get(d, slice(None)) for d in v.dims)
            if all(isinstance(x, slice) and x == slice(None) for x in kk if isinstance(x, slice)) and all(isinstance(x, slice) for x in kk):
                nv = v if all(x == slice(None) for x in kk) else Variable(v.dims, v.a[kk])
                co[n] = nv
            else:
                b, bd = take(v.a, v.dims, kk)
                co[n] = Variable(bd, b)
        b, bd = take(a, dims, ks)
        return DataArray._mk(b, bd, co, self.attrs, self.name)

    def __getitem__(self, key):
        if isinstance(key, str):
            return self._coord(key)
        if isinstance(key, dict):
            return self._index(key)
        if not isinstance(key, tuple):
            key = (key,)
        out = []
        nreal = len([k for k in key if k is not Ellipsis])
        if any(k is None for k in key):
            raise Unsupported("newaxis on a labelled array")
        if nreal > self.ndim:
            raise IndexError("too many indices")
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - nreal)
            else:
                out.append(k)
        return self._index({d: k for d, k in zip(self._dims, out)})

    def __setitem__(self, key, val):
        if isinstance(key, str):
            self._set_coord(key, val)
            return
        v = self[key]
        if isinstance(val, DataArray):
            for d in val.dims:
                if d not in v.dims:
                    raise ValueError("dimensions cannot change for in-place operations")
            for k, c in val._co.items():
                if k in v._co and c.dims == (k,):
                    same_coord(v._co[k], c, k)
            val = arrange(val._a, list(val.dims), list(v.dims)) if val.dims else val._a
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (list, A.Arr, DataArray)) for k in key):
            raise Unsupported("assignment through a list of indices")
        self._a[key] = val

    def isel(self, indexers=None, drop=False, **kw):
        key = _eitherdict(indexers, {k: v for k, v in kw.items() if k != "missing_dims"})
        for d in key:
            if d not in self._dims:
                raise ValueError("Dimensions {%r} do not exist" % d)
        return self._index(key)

    def sel(self, indexers=None, method=None, tolerance=None, drop=False, **kw):
        key = _eitherdict(indexers, kw)
        for d in key:
            if d in self._co:
                raise Unsupported("selection by label")
            if d not in self._dims:
                raise KeyError(d)
        return self._index(key)

    def head(self, *a, **k):
        return self

    # -- shape
    def transpose(self, *dims, **k):
        if not dims:
            dims = self._dims[::-1]
        if any(d is Ellipsis for d in dims):
            rest = [d for d in self._dims if d not in dims]
            out = []
            for d in dims:
                out += rest if d is Ellipsis else [d]
            dims = out
        if set(dims) != set(self._dims):
            raise ValueError("%r must be a permuted list of %r" % (dims, self._dims))
        a = self._a if tuple(dims) == self._dims else A.transpose(self._a, tuple(self._dims.index(d) for d in dims))
        return DataArray._mk(a, dims, self._co, self.attrs, self.name)

    def rename(self, new=None, **kw):
        if new is None or isinstance(new, (dict, Mapping)):
            mp = _eitherdict(new, kw)
            for k in mp:
                if k not in self._dims and k not in self._co and k != self.name:
                    raise ValueError("cannot rename %r because it is not a variable or dimension" % (k,))
            dims = [mp.get(d, d) for d in self._dims]
            if len(set(dims)) != len(dims):
                raise ValueError("the new name conflicts")
            co = {mp.get(k, k): Variable([mp.get(d, d) for d in v.dims], v.a) for k, v in self._co.items()}
            return DataArray._mk(self._a, dims, co, self.attrs, self.name)
        return DataArray._mk(self._a, self._dims, self._co, self.attrs, new)

    def swap_dims(self, mp=None, **kw):
        mp = _eitherdict(mp, kw)
        return DataArray._mk(self._a, [mp.get(d, d) for d in self._dims], {k: v for k, v in self._co.items() if k not in mp}, self.attrs, self.name)

    def expand_dims(self, dim=None, axis=None, **kw):
        if isinstance(dim, str):
            dim = {dim: 1}
        elif isinstance(dim, (list, tuple)):
            dim = {d: 1 for d in dim}
        dim = _eitherdict(dim, kw)
        names = list(dim)
        for d in names:
            if d in self._dims:
                raise ValueError("Dimension %s already exists." % d)
        nd = self.ndim + len(names)
        if axis is None:
            axes = list(range(len(names)))
        else:
            axes = [axis] if not isinstance(axis, (list, tuple)) else list(axis)
        if len(axes) != len(names):
            raise ValueError("lengths of dim and axis should be identical.")
        axes = [x if x >= 0 else nd + x for x in axes]
        dims = [None] * nd
        for x, n in zip(axes, names):
            if not 0 <= x < nd or dims[x] is not None:
                raise ValueError("axis")
            dims[x] = n
        rest = list(self._dims)
        dims = [d if d is not None else rest.pop(0) for d in dims]
        a = self._a
        co = dict(self._co)
        sh = []
        rd = a.reader()
        pos = [i for i, d in enumerate(dims) if d not in dim]
        for d in dims:
            if d in dim:
                v = dim[d]
                if isinstance(v, (list, tuple)) or isinstance(v, (A.Arr, DataArray)):
                    v = A.asarr(v)
                    co[d] = Variable((d,), v)
                    sh.append(v.sh[0])
                else:
                    sh.append(A.tp(v))
            else:
                sh.append(a.sh[self._dims.index(d)])
        nn = a.nanreader()
        b = A.new(tuple(sh), lambda i: rd(tuple(i[q] for q in pos)), a.buf.dtype, (lambda i: nn(tuple(i[q] for q in pos))) if nn else None)
        return DataArray._mk(b, dims, co, self.attrs, self.name)

    def squeeze(self, dim=None, drop=False):
        ds = [dim] if isinstance(dim, str) else (list(dim) if dim is not None else [d for d, s in zip(self._dims, self._a.sh) if s.as_int() == 1])
        return self._index({d: 0 for d in ds})

    def copy(self, deep=True, data=None):
        a = _data(data) if data is not None else (self._a.copy() if deep else self._a)
        return DataArray._mk(a, self._dims, dict(self._co), self.attrs, self.name)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t, *a, **k):
        return DataArray._mk(self._a.astype(t), self._dims, self._co, self.attrs, self.name)

    def assign_attrs(self, *a, **k):
        r = self.copy(deep=False)
        for x in a:
            r.attrs.update(x)
        r.attrs.update(k)
        return r

    def assign_coords(self, coords=None, **kw):
        r = self.copy(deep=False)
        for k, v in _eitherdict(coords, kw).items():
            r._set_coord(k, v)
        return r

    def reset_coords(self, names=None, drop=False):
        if not drop:
            raise Unsupported("reset_coords")
        return DataArray._mk(self._a, self._dims, {k: v for k, v in self._co.items() if v.dims == (k,)}, self.attrs, self.name)

    def drop_vars(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        return DataArray._mk(self._a, self._dims, {k: v for k, v in self._co.items() if k not in names}, self.attrs, self.name)

    def to_dataset(self, name=None, **k):
        return Dataset({name or self.name: self})

    def broadcast_like(self, o):
        dims = unified([self._dims, o.dims])
        return self * ones_like(o)

    # -- operators
    def xr_map(self, f):
        return DataArray._mk(A.asarr(f(self._a)), self._dims, self._co, None, self.name)

    def xr_op(self, o, f, refl=False):
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        if isinstance(o, Dataset):
            return NotImplemented
        if isinstance(o, DataArray):
            co = merge_coords(self._co, o._co)
            dims = unified([self._dims, o._dims])
            check_sizes([Variable(self._dims, self._a), Variable(o._dims, o._a)], "labelled arrays")
            x, y = arrange(self._a, list(self._dims), dims), arrange(o._a, list(o._dims), dims)
            nm = self.name if self.name == o.name else None
        else:
            x, y = self._a, A.asarr(o)
            if y.ndim > x.ndim:
                raise ValueError("operands could not be broadcast to the labelled array")
            dims, co, nm = self._dims, self._co, self.name
            sh = x.sh
        r = A.asarr(f(y, x) if refl else f(x, y))
        if len(r.sh) != len(dims):
            raise ValueError("broadcasting changed the number of dimensions")
        if not isinstance(o, DataArray):
            for p, q in zip(r.sh, x.sh):
                if p != q:
                    A.same_dim(p, q, "labelled array with an array")
        return DataArray._mk(r, dims, co, None, nm)

    def _ip(self, o, f):
        if isinstance(o, DataArray):
            for d in o.dims:
                if d not in self._dims:
                    raise ValueError("dimensions cannot change for in-place operations")
            merge_coords(self._co, o._co)
            check_sizes([Variable(self._dims, self._a), Variable(o._dims, o._a)], "labelled arrays")
            o = arrange(o._a, list(o._dims), list(self._dims))
        self._a.assign(f(self._a, o))
        return self

    def __iadd__(s, o): return s._ip(o, lambda a, b: a + b)
    def __isub__(s, o): return s._ip(o, lambda a, b: a - b)
    def __imul__(s, o): return s._ip(o, lambda a, b: a * b)
    def __itruediv__(s, o): return s._ip(o, lambda a, b: a / b)

    def __neg__(s): return s.xr_map(lambda a: -a)
    def __pos__(s): return s
    def __abs__(s): return s.xr_map(abs)
    def __invert__(s): return s.xr_map(lambda a: ~a)

    def __matmul__(s, o):
        return dot(s, o)

    def dot(self, o, dims=None):
        return dot(self, o, dims=dims)

    # -- reductions
    def _dims_of(self, dim):
        if dim is None or dim is Ellipsis:
            return list(self._dims)
        ds = [dim] if isinstance(dim, str) else list(dim)
        for d in ds:
            if d not in self._dims:
                raise ValueError("%r not found in array dimensions %r" % (d, self._dims))
        return ds

    def _red(self, dim, f, axis=None):
        if axis is not None:
            axs = [axis] if not isinstance(axis, (list, tuple)) else list(axis)
            dim = [self._dims[A.norm_axis(x, self.ndim)] for x in axs]
        if self._a.buf.nan is not None:
            raise Unsupported("reduction over missing values")
        ds = self._dims_of(dim)
        r = self._a
        ax = tuple(self._dims.index(d) for d in ds)
        rest = [d for d in self._dims if d not in ds]
        return DataArray._mk(A.asarr(f(r, ax)), rest, self._co, None, self.name)

    def sum(self, dim=None, axis=None, **k):
        return self._red(dim, lambda a, ax: A.npsum(a, ax), axis)

    def mean(self, dim=None, axis=None, **k):
        return self._red(dim, lambda a, ax: A.mean(a, ax), axis)

    def min(self, dim=None, axis=None, **k):
        return self._red(dim, lambda a, ax: A.reduct(a, ax if len(ax) != 1 else ax[0], "min"), axis)

    def max(self, dim=None, axis=None, **k):
        return self._red(dim, lambda a, ax: A.reduct(a, ax if len(ax) != 1 else ax[0], "max"), axis)

    def any(self, *a, **k):
        return self._a.any()

    def all(self, *a, **k):
        return self._a.all()

    # -- missing values
    def shift(self, shifts=None, fill_value=None, **kw):
        a, dims = self._a, self._dims
        for d, k in _eitherdict(shifts, kw).items():
            if d not in dims:
                raise ValueError("dimensions %r do not exist" % d)
            a = shifted(a, dims.index(d), A.tp(k), fill_value)
        return DataArray._mk(a, dims, self._co, self.attrs, self.name)

    def roll(self, shifts=None, roll_coords=False, **kw):
        raise Unsupported("roll")

    def where(self, cond, other=None, drop=False):
        if drop:
            raise Unsupported("where with drop")
        if other is None:
            r = self.xr_op(cond, lambda a, c: masked(a, c))
        else:
            r = where(cond, self, other)
        return DataArray._mk(r._a, r._dims, r._co, self.attrs, self.name)

    def dropna(self, dim, how="any", thresh=None):
        lo, n = kept([Variable(self._dims, self._a)], dim, self._a.sh[self._dims.index(dim)])
        return clean(self._index({dim: slice(A.num(lo), A.num(lo + n))}))

    def isnull(self):
        return self.xr_map(_isnan)

    def notnull(self):
        return self.xr_map(lambda a: ~_isnan(a))

    def fillna(self, v):
        if self._a.buf.nan is None:
            return self.copy()
        if getattr(self._a.buf, "zero", False) and A.tp(v) == T.ZERO:
            return clean(self)
        return self.xr_map(lambda a: A.where(_isnan(a), v, A.new(a.sh, a.reader(), a.buf.dtype)))

    def identical(self, o):
        raise Unsupported("identical")

    def load(self):
        return self

    compute = persist = load


UNSUPPORTED = {"groupby", "to_netcdf", "interp", "rolling", "coarsen", "resample", "cumsum", "cumprod", "diff", "std", "var", "median", "quantile", "stack", "unstack", "loc", "plot",
               "to_pandas", "to_dataframe", "sortby", "reindex", "chunk", "chunks", "integrate", "differentiate", "argmin", "argmax", "idxmin", "idxmax", "clip", "round", "pad", "map", "prod", "count", "equals",
               "polyfit", "weighted", "drop_dims", "merge", "combine_first", "broadcast_equals", "drop_sel", "drop_isel", "set_index", "reset_index", "to_array", "close", "variables", "nbytes", "encoding"}


def _isnan(a):
    a = A.asarr(a)
    n = a.nanreader()
    return A.new(a.sh, (lambda i: n(i)) if n else (lambda i: FALSE), "b")


def _bin(name, f):
    def m(s, o):
        return s.xr_op(o, f)

    def r(s, o):
        return s.xr_op(o, f, True)
    m.__name__ = name
    return m, r


def _cmpne(a, b):
    return A.cmp2(a, b, lambda x, y: Not(T.eq(x, y)))


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "truediv": lambda a, b: a / b,
       "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b, "pow": lambda a, b: a ** b, "and": lambda a, b: a & b, "or": lambda a, b: a | b}
CMPS = {"lt": lambda a, b: A.cmp2(a, b, T.lt), "le": lambda a, b: A.cmp2(a, b, T.le), "gt": lambda a, b: A.cmp2(a, b, T.gt), "ge": lambda a, b: A.cmp2(a, b, T.ge),
        "eq": lambda a, b: A.cmp2(a, b, T.eq), "ne": _cmpne}


def take(a, dims, ks):
    """positional indexing; returns the data and its dimensions"""
    dims = list(dims)
    lists = [i for i, k in enumerate(ks) if isinstance(k, (list, A.Arr, DataArray)) and not (isinstance(k, (A.Arr, DataArray)) and k.ndim == 0)]
    if not lists:
        ks = tuple(A.num(A.tp(k)) if isinstance(k, (A.Arr, DataArray)) else k for k in ks)
        r = a[ks] if a.ndim else a
        rd = [d for d, k in zip(dims, ks) if isinstance(k, slice)]
        return A.asarr(r), rd
    if isinstance(a, Obj):
        return a, dims
    if len(lists) > 1:
        raise Unsupported("several lists of indices")
    p = lists[0]
    k = A.asarr(ks[p])
    if k.ndim != 1 or k.buf.dtype == "b":
        raise Unsupported("indexing with an array")
    n = a.sh[p]
    kr = k.reader()
    # every index is inside the dimension
    v = T.fresh("q")
    with X.assuming(ge0(v), lt(v, k.sh[0])):
        e = A.el2p(kr((v,)))
        A.oblige(And(T.ge(e, -n), T.lt(e, n)), "index inside its dimension")
    neg = lambda e: T.ite(ge0(e), e, e + n)
    rd = a.reader()
    nn = a.nanreader()
    mp = lambda i: i[:p] + (neg(A.el2p(kr((i[p],)))),) + i[p + 1:]
    b = A.new(a.sh[:p] + (k.sh[0],) + a.sh[p + 1:], lambda i: rd(mp(i)), a.buf.dtype, (lambda i: nn(mp(i))) if nn else None)
    rest = tuple(slice(None) if i == p else q for i, q in enumerate(ks))
    return take(b, dims, rest)


def index_copy(k, var):
    """an index coordinate has its own copy of the labels"""
    if var.dims == (k,) and isinstance(var.a, A.Arr):
        return Variable(var.dims, var.a.copy())
    return var


def shifted(a, ax, k, fill=None):
    n = a.sh[ax]
    rd, nn = a.reader(), a.nanreader()
    at = lambda i: i[:ax] + (i[ax] - k,) + i[ax + 1:]
    out = lambda i: Or(lt(i[ax] - k, 0), ge(i[ax] - k, n))
    if fill is not None and not (isinstance(fill, float) and fill != fill):
        fv = A.tp(fill)
        return A.new(a.sh, lambda i: T.ite(out(i), fv, A.el2p(rd(at(i)))), "f", (lambda i: And(Not(out(i)), nn(at(i)))) if nn else None)
    return A.new(a.sh, lambda i: rd(at(i)), "f", lambda i: Or(out(i), nn(at(i))) if nn else out(i))


def masked(a, c):
    c = A.asarr(c)
    sh = A.bshape(a.sh, c.sh)
    (ra, ma), (rc, mc) = A.breader(a, sh), A.breader(c, sh)
    na = a.nanreader()
    fa = ma(na) if na else None
    return A.new(sh, ra, "f", lambda i: Or(Not(A.tc(rc(i))), fa(i)) if fa else Not(A.tc(rc(i))))


def kept(vs, dim, n):
    """first position and number of the labels along `dim` without missing value (a contiguous range)"""
    v = T.fresh("n")
    cs = []
    with X.assuming(ge0(v), lt(v, n)):
        for w in vs:
            if dim not in w.dims or isinstance(w.a, Obj):
                continue
            nn = w.a.nanreader()
            if nn is None:
                continue
            idx, bound = [], []
            for d, s in zip(w.dims, w.a.sh):
                if d == dim:
                    idx.append(v)
                else:
                    q = T.fresh("o")
                    bound.append((q, s))
                    idx.append(q)
            with X.assuming(*[x for q, s in bound for x in (ge0(q), lt(q, s))]):
                c = nn(tuple(idx))
            qs = {T.the_atom(q) for q, s in bound}
            if c.fv & qs:
                raise Unsupported("missing values that depend on the other dimensions")
            for q, s in bound:
                if not X.entails(ge(s, 1)):
                    raise Unsupported("dropna with an empty dimension")
            cs.append(c)
        if not cs:
            return T.ZERO, n
        nan = Or(*cs)
        for lo in range(0, 5):
            for hi in range(0, 5):
                cut = Or(lt(v, lo), ge(v, n - hi))
                if X.entails(Or(Not(nan), cut)) and X.entails(Or(nan, Not(cut))):
                    if not X.entails(ge(n, lo + hi)):
                        raise Unsupported("dropna of everything")
                    return P.of(lo), n - lo - hi
    raise Unsupported("dropna: the missing values are not at the ends")


def clean(d):
    """the remaining values are not missing"""
    if d._a.buf.nan is None:
        return d
    a = d._a
    return DataArray._mk(A.new(a.sh, a.reader(), a.buf.dtype), d._dims, d._co, d.attrs, d.name)


class Vars(Mapping):
    def __init__(self, ds):
        self.ds = ds

    def __getitem__(self, k):
        if k in self.ds._v:
            return self.ds[k]
        raise KeyError(k)

    def __iter__(self):
        return iter(self.ds._v)

    def __len__(self):
        return len(self.ds._v)

    def __contains__(self, k):
        return k in self.ds._v


class Dataset:
    __array_priority__ = 400
    __hash__ = object.__hash__

    def __init__(self, data_vars=None, coords=None, attrs=None):
        d = self.__dict__
        d["_v"], d["_co"], d["attrs"] = {}, {}, dict(attrs or {})
        if coords is not None:
            if isinstance(coords, Coords):
                coords = {k: coords[k] for k in coords}
            for k in list(coords):
                self._set_coord(k, coords[k], check=False)
        if data_vars is not None:
            for k in list(data_vars):
                self._set(k, data_vars[k])
        self._check()

    @staticmethod
    def _mk(v, co, attrs):
        r = object.__new__(Dataset)
        d = r.__dict__
        dims = {x for w in v.values() for x in w.dims}
        d["_v"], d["_co"], d["attrs"] = dict(v), {k: c for k, c in co.items()}, dict(attrs or {})
        return r

    def _check(self):
        check_sizes(list(self._co.values()) + list(self._v.values()), "dataset")

    def _var(self, k, v):
        if isinstance(v, tuple) and len(v) in (2, 3, 4) and isinstance(v[0], (str, list, tuple)):
            dims = (v[0],) if isinstance(v[0], str) else tuple(v[0])
            a = _data(v[1])
            if a.ndim != len(dims):
                raise ValueError("Could not convert tuple of form (dims, data[, attrs, encoding]) to Variable: %r" % (dims,))
            return Variable(dims, a), {}
        if isinstance(v, Variable):
            return v, {}
        if isinstance(v, DataArray):
            return Variable(v.dims, v._a), v._co
        a = _data(v)
        if a.ndim == 0:
            return Variable((), a), {}
        if a.ndim == 1:
            return Variable((k,), a), {}
        raise ValueError("Could not convert data to Variable: dimensions not given")

    def _set(self, k, v):
        var, co = self._var(k, v)
        if var.dims == (k,):
            self._co[k] = index_copy(k, var)
            return
        d = self.__dict__
        d["_co"] = merge_coords(self._co, {n: c for n, c in co.items() if n != k})
        if k in self._co:
            del self._co[k]
        self._v[k] = var

    def _set_coord(self, k, v, check=True):
        var, _ = self._var(k, v)
        self._co[k] = index_copy(k, var)
        self._v.pop(k, None)
        if check:
            self._check()

    def __setitem__(self, k, v):
        if isinstance(k, (list, dict)):
            raise Unsupported("assignment of several variables")
        if k in self._co:
            self._set_coord(k, v)
            return
        self._set(k, v)
        self._check()

    def __delitem__(self, k):
        if k in self._v:
            del self._v[k]
        elif k in self._co:
            del self._co[k]
        else:
            raise KeyError(k)

    def update(self, other):
        if isinstance(other, Dataset):
            other = {**{k: other[k] for k in other._v}, **{k: other._coord(k) for k in other._co}}
        for k, v in dict(other).items():
            self[k] = v
        return self

    def assign(self, variables=None, **kw):
        r = self.copy(deep=False)
        mp = _eitherdict(variables, kw)
        mp = {k: (v(r) if callable(v) and not isinstance(v, (DataArray, A.Arr)) else v) for k, v in mp.items()}
        r.update(mp)
        return r

    def assign_attrs(self, *a, **k):
        r = self.copy(deep=False)
        for x in a:
            r.attrs.update(x)
        r.attrs.update(k)
        return r

    def assign_coords(self, coords=None, **kw):
        r = self.copy(deep=False)
        for k, v in _eitherdict(coords, kw).items():
            r._set_coord(k, v)
        return r

    def _sizes(self):
        sz = {}
        for v in list(self._v.values()) + list(self._co.values()):
            for d, s in zip(v.dims, v.a.sh):
                sz.setdefault(d, s)
        return sz

    @property
    def dims(self):
        return Sizes(self._sizes())

    sizes = dims

    @property
    def coords(self):
        return Coords(self)

    @property
    def data_vars(self):
        return Vars(self)

    def _coord(self, k):
        if k in self._co:
            v = self._co[k]
            return DataArray._mk(v.a, v.dims, {k: v}, name=k)
        raise KeyError(k)

    def __contains__(self, k):
        return k in self._v or k in self._co

    def __iter__(self):
        return iter(list(self._v))

    def keys(self):
        return list(self._v)

    def items(self):
        return [(k, self[k]) for k in self._v]

    def values(self):
        return [self[k] for k in self._v]

    def sym_len(self):
        return len(self._v)

    def __len__(self):
        return len(self._v)

    def __bool__(self):
        return bool(self._v)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k in self._v:
                v = self._v[k]
                return DataArray._mk(v.a, v.dims, self._co, None, k)
            if k in self._co:
                return self._coord(k)
            sz = self._sizes()
            if k in sz:
                return DataArray._mk(A.arange(A.num(sz[k])), (k,), {}, name=k)
            raise KeyError("No variable named %r" % k)
        if isinstance(k, (list, tuple)):
            for n in k:
                if n not in self:
                    raise KeyError("No variable named %r" % n)
            vs = {n: self._v[n] for n in k if n in self._v}
            dims = {x for w in vs.values() for x in w.dims}
            return Dataset._mk(vs, {n: c for n, c in self._co.items() if set(c.dims) <= dims or n in k}, self.attrs)
        if isinstance(k, dict):
            return self.isel(k)
        raise KeyError(k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __getattr__(self, n):
        if n.startswith("__") or n in ("_v", "_co", "spec_op", "to_arr", "coord"):
            raise AttributeError(n)
        if n in self._v or n in self._co or n in self._sizes():
            return self[n]
        if n in self.attrs:
            return self.attrs[n]
        if n in UNSUPPORTED:
            return Stub("Dataset." + n)
        raise AttributeError("'Dataset' object has no attribute %r" % n)

    def __setattr__(self, n, v):
        if n == "attrs":
            self.__dict__["attrs"] = dict(v)
            return
        raise AttributeError("cannot set attribute %r on a 'Dataset' object. Use __setitem__ style assignment" % n)

    def __repr__(self):
        return "Dataset%r" % (list(self._v),)

    def copy(self, deep=False, data=None):
        cp = (lambda a: a.copy()) if deep else (lambda a: a)
        return Dataset._mk({k: Variable(v.dims, cp(v.a)) for k, v in self._v.items()}, {k: Variable(v.dims, cp(v.a)) for k, v in self._co.items()}, self.attrs)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = self.copy(deep=True)
        r.__dict__["attrs"] = _copy.deepcopy(self.attrs, memo)
        return r

    def load(self):
        return self

    compute = persist = load

    def head(self, *a, **k):
        return self

    def map(self, f, keep_attrs=None, args=(), **k):
        return self._each(lambda d: f(d, *args, **k))

    def _each(self, f, keep=False):
        vs, co = {}, {}
        for k in self._v:
            r = f(self[k])
            vs[k] = Variable(r.dims, r._a)
            co = merge_coords(co, r._co)
        return Dataset._mk(vs, co, self.attrs if keep else None)

    def xr_op(self, o, f, refl=False):
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        if isinstance(o, Dataset):
            vs, co = {}, {}
            for k in self._v:
                if k in o._v:
                    r = self[k].xr_op(o[k], f, refl)
                    vs[k] = Variable(r.dims, r._a)
                    co = merge_coords(co, r._co)
            return Dataset._mk(vs, co, None)
        return self._each(lambda d: d.xr_op(o, f, refl))

    def __neg__(s): return s._each(lambda d: -d)
    def __abs__(s): return s._each(abs)

    def shift(self, shifts=None, fill_value=None, **kw):
        sh = _eitherdict(shifts, kw)
        sz = self._sizes()
        for d in sh:
            if d not in sz:
                raise ValueError("dimensions %r do not exist" % d)
        vs = {}
        for k, v in self._v.items():
            r = self[k].shift({d: n for d, n in sh.items() if d in v.dims}, fill_value) if not isinstance(v.a, Obj) else self[k]
            vs[k] = Variable(r.dims, r._a)
        return Dataset._mk(vs, self._co, self.attrs)

    def dropna(self, dim, how="any", thresh=None, subset=None):
        sz = self._sizes()
        if dim not in sz:
            raise ValueError("%s must be a single dataset dimension" % dim)
        if how != "any" or thresh is not None:
            raise Unsupported("dropna options")
        vs = [v for k, v in self._v.items() if subset is None or k in subset]
        lo, n = kept(vs, dim, sz[dim])
        r = self.isel({dim: slice(A.num(lo), A.num(lo + n))})
        if subset is None:
            for k in r._v:
                c = clean(r[k])
                r._v[k] = Variable(c.dims, c._a)
        return r

    def isel(self, indexers=None, drop=False, **kw):
        key = _eitherdict(indexers, {k: v for k, v in kw.items() if k != "missing_dims"})
        sz = self._sizes()
        for d in key:
            if d not in sz:
                raise ValueError("Dimensions {%r} do not exist" % d)
        vs, co = {}, {}
        for src, dst in ((self._v, vs), (self._co, co)):
            for k, v in src.items():
                ks = tuple(key.get(d, slice(None)) for d in v.dims)
                b, bd = take(v.a, v.dims, ks)
                dst[k] = Variable(bd, b)
        return Dataset._mk(vs, co, self.attrs)

    def sel(self, indexers=None, **kw):
        key = _eitherdict(indexers, kw)
        for d in key:
            if d in self._co:
                raise Unsupported("selection by label")
        return self.isel(key)

    def rename(self, mp=None, **kw):
        mp = _eitherdict(mp, kw)
        sz = self._sizes()
        for k in mp:
            if k not in self and k not in sz:
                raise ValueError("cannot rename %r because it is not a variable or dimension in this dataset" % k)
        f = lambda d: {mp.get(k, k): Variable([mp.get(x, x) for x in v.dims], v.a) for k, v in d.items()}
        return Dataset._mk(f(self._v), f(self._co), self.attrs)

    rename_vars = rename_dims = rename

    def drop_vars(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        for n in names:
            if n not in self and errors == "raise":
                raise ValueError(n)
        return Dataset._mk({k: v for k, v in self._v.items() if k not in names}, {k: v for k, v in self._co.items() if k not in names}, self.attrs)

    drop = drop_vars

    def transpose(self, *dims, **k):
        return self._each(lambda d: d.transpose(*[x for x in dims if x in d.dims]) if dims else d.transpose(), True)

    def mean(self, dim=None, **k):
        return self._each(lambda d: d.mean([x for x in ([dim] if isinstance(dim, str) else dim)] if dim is not None else None))

    def sum(self, dim=None, **k):
        return self._each(lambda d: d.sum([x for x in ([dim] if isinstance(dim, str) else dim)] if dim is not None else None))

    def where(self, cond, other=None, drop=False):
        return self._each(lambda d: d.where(cond, other, drop), True)

    def fillna(self, v):
        return self._each(lambda d: d.fillna(v), True)

    def groupby_bins(self, group, bins, **k):
        if k or not isinstance(group, str):
            raise Unsupported("groupby_bins with options")
        return Bins(self, group, bins)

    def to_netcdf(self, path=None, mode="w", **k):
        if path is None or mode != "w" or k:
            raise Unsupported("Dataset.to_netcdf with options")
        FILES[os.path.abspath(path)] = self.copy(deep=True)

    def identical(self, o):
        raise Unsupported("identical")


# ------------------------------------------------------------------ groups of samples
# Dataset.groupby_bins(name, edges): the samples of bin i are those with edges[i] < name <= edges[i+1] (over all the dimensions of the
# variable); sum and count over each bin, missing where the bin is empty
class Bins:
    def __init__(self, ds, group, bins):
        self.ds, self.g = ds, group
        e = A.asarr(bins)
        if e.ndim != 1:
            raise Unsupported("groupby_bins: edges")
        self.lo, self.n, self.key = e.reader(), e.sh[0] - 1, ds[group]
        A.oblige(ge(e.sh[0], 2), "groupby_bins: at least two edges")
        i = T.fresh("i")
        with X.assuming(ge0(i), lt(i, self.n)):
            A.oblige(lt(A.el2p(self.lo((i,))), A.el2p(self.lo((i + 1,)))), "groupby_bins: increasing edges")

    def _per(self, f):
        x = self.key
        vs = {}
        for k, v in self.ds._v.items():
            if set(v.dims) != set(x._dims) or isinstance(v.a, Obj):
                raise Unsupported("groupby_bins: variables of other dimensions")
            if v.a.buf.nan is not None or x._a.buf.nan is not None:
                raise Unsupported("groupby_bins: missing values")
            rx, rv = x._a.reader(), arrange(v.a, list(v.dims), list(x._dims)).reader()
            sh = x._a.sh

            def total(i, val, rx=rx, rv=rv, sh=sh):
                vs_ = [T.fresh("g") for _ in sh]
                with X.assuming(*[c for u, m in zip(vs_, sh) for c in (ge0(u), lt(u, m))]):
                    q = A.el2p(rx(tuple(vs_)))
                    t = T.ite(And(lt(A.el2p(self.lo(i)), q), le(q, A.el2p(self.lo((i[0] + 1,))))), val(A.el2p(rv(tuple(vs_)))), T.ZERO)
                for u, m in reversed(list(zip(vs_, sh))):
                    t = T.Sum(u, m, t)
                return t
            one = lambda i, total=total: total(i, lambda w: T.ONE)
            a = A.new((self.n,), (lambda i, total=total: total(i, (lambda w: w) if f == "sum" else lambda w: T.ONE)), "f", lambda i, one=one: T.eq(one(i), T.ZERO))
            a.buf.zero = True       # 0 where missing
            vs[k] = Variable((self.g + "_bins",), a)
        return Dataset._mk(vs, {}, None)

    def sum(self, *a, **k):
        if a or k:
            raise Unsupported("groupby_bins: sum with options")
        return self._per("sum")

    def count(self, *a, **k):
        if a or k:
            raise Unsupported("groupby_bins: count with options")
        return self._per("count")

    def __getattr__(self, n):
        if n.startswith("__") or n in ("_v", "_co", "spec_op", "to_arr"):
            raise AttributeError(n)
        raise Unsupported("DatasetGroupBy." + n)


for _n, _f in OPS.items():
    _m, _r = _bin(_n, _f)
    for _c in (DataArray, Dataset):
        setattr(_c, "__%s__" % _n, _m)
        setattr(_c, "__r%s__" % _n, _r)
for _n, _f in CMPS.items():
    _m, _ = _bin(_n, _f)

    def _cm(s, o, _m=_m, _n=_n):
        if o is None or isinstance(o, str):
            return {"eq": False, "ne": True}.get(_n, NotImplemented)
        return _m(s, o)
    for _c in (DataArray, Dataset):
        setattr(_c, "__%s__" % _n, _cm)


# ------------------------------------------------------------------ functions
def dot(*arrays, dims=None, dim=None, **kw):
    arrays = list(arrays)
    if dims is None:
        dims = dim
    if any(not isinstance(a, DataArray) for a in arrays):
        raise TypeError("Only xr.DataArray and xr.Variable are supported.")
    if not arrays:
        raise TypeError("At least one array should be given.")
    if isinstance(dims, str):
        dims = [dims]
    all_dims = unified([a.dims for a in arrays])
    if dims is Ellipsis:
        dims = list(all_dims)
    if dims is None:
        dims = [d for d in all_dims if sum(d in a.dims for a in arrays) > 1]
    dims = list(dims)
    for d in dims:
        if d not in all_dims:
            # a dimension that no array has is ignored by einsum
            raise Unsupported("dot over an absent dimension %r" % d)
    common = [d for d in all_dims if all(d in a.dims for a in arrays)]
    bc = [d for d in common if d not in dims]
    out = bc + [d for d in all_dims if d not in dims and d not in bc]
    co = merge_coords(*[a._co for a in arrays])
    check_sizes([Variable(a.dims, a._a) for a in arrays], "dot")
    if any(a._a.buf.nan is not None for a in arrays):
        raise Unsupported("dot over missing values")
    letters = {d: chr(ord("a") + i) for i, d in enumerate(all_dims)}
    sub = ",".join("".join(letters[d] for d in a.dims) for a in arrays) + "->" + "".join(letters[d] for d in out)
    r = A.einsum(sub, *[a._a for a in arrays])
    return DataArray._mk(A.asarr(r), out, co)


def apply_ufunc(func, *args, input_core_dims=None, output_core_dims=((),), exclude_dims=frozenset(), vectorize=False, join="exact",
                dataset_join="exact", dataset_fill_value=None, keep_attrs=None, kwargs=None, dask="forbidden", output_dtypes=None,
                output_sizes=None, meta=None, dask_gufunc_kwargs=None):
    if input_core_dims is None:
        input_core_dims = ((),) * len(args)
    if len(input_core_dims) != len(args):
        raise ValueError("input_core_dims must be None or a tuple with the length same to the number of arguments.")
    ic = [tuple(x) for x in input_core_dims]
    oc = [tuple(x) for x in output_core_dims]
    ex = set(exclude_dims)
    allcore = {d for x in ic for d in x}
    if not ex <= allcore:
        raise ValueError("each dimension in `exclude_dims` must also appear at least once in `input_core_dims`")
    kwargs = dict(kwargs or {})
    if any(isinstance(a, Dataset) for a in args):
        names = None
        for a in args:
            if isinstance(a, Dataset):
                names = list(a._v) if names is None else [n for n in names if n in a._v]
        vs, co = {}, {}
        for n in names:
            r = apply_ufunc(func, *[a[n] if isinstance(a, Dataset) else a for a in args], input_core_dims=input_core_dims, output_core_dims=output_core_dims, exclude_dims=exclude_dims, vectorize=vectorize, kwargs=kwargs)
            if not isinstance(r, DataArray):
                raise Unsupported("several outputs on a dataset")
            vs[n] = Variable(r.dims, r._a)
            co = merge_coords(co, r._co)
        return Dataset._mk(vs, co, None)
    das = [a for a in args if isinstance(a, DataArray)]
    bdims = unified([[d for d in a.dims if d not in c] for a, c in zip(args, ic) if isinstance(a, DataArray)])
    for d in bdims:
        if d in allcore:
            raise ValueError("operand to apply_ufunc encountered unexpected dimensions %r on an input variable: these are core dimensions on other input or output variables" % d)
    # sizes of the shared, not excluded dimensions
    sz = {}
    for a in das:
        for d, s in zip(a.dims, a._a.sh):
            if d in ex:
                continue
            if d in sz:
                A.same_dim(s, sz[d], "apply_ufunc: dimension " + d)
            else:
                sz[d] = s
    co = merge_coords(*[{k: v for k, v in a._co.items() if not (set(v.dims) & ex)} for a in das])
    data = []
    for a, c in zip(args, ic):
        if not isinstance(a, DataArray):
            if c:
                raise Unsupported("core dimensions of an unlabelled argument")
            data.append(a)
            continue
        for d in c:
            if d not in a.dims:
                raise ValueError("operand to apply_ufunc has required core dimensions %r, but some of them are missing on an input variable" % (c,))
        have = [d for d in bdims if d in a.dims]
        x = a._a
        order = have + list(c)
        if list(a.dims) != order:
            x = A.transpose(x, tuple(a.dims.index(d) for d in order))
        new = bdims + list(c)
        if new != order:
            key = []
            for d in new:
                if d in a.dims:
                    key.append(slice(None))
                elif key:
                    key.append(None)
            x = x[tuple(key)]
        data.append(x)
    if vectorize and bdims:
        res = _vectorize(func, data, ic, bdims, [sz[d] for d in bdims], kwargs, len(oc))
    else:
        res = func(*data, **kwargs)
    outs = res if len(oc) > 1 else (res,)
    if len(oc) > 1 and len(res) != len(oc):
        raise ValueError("applied function does not have the number of outputs specified in the ufunc signature")
    out = []
    for r, c in zip(outs, oc):
        r = A.asarr(r)
        dims = bdims + list(c)
        if r.ndim != len(dims):
            raise ValueError("applied function returned data with unexpected number of dimensions. Received %d dimension(s) but expected %d dimensions with names: %r" % (r.ndim, len(dims), dims))
        if len(set(dims)) != len(dims):
            raise ValueError("repeated dimension")
        for d, s in zip(dims, r.sh):
            if d in sz and d not in ex:
                A.same_dim(s, sz[d], "apply_ufunc: size of the output along " + d)
        out.append(DataArray._mk(r, dims, co))
    return tuple(out) if len(oc) > 1 else out[0]


def _vectorize(func, data, ic, bdims, bsz, kwargs, nout):
    """np.vectorize: the function at every index of the broadcast dimensions"""
    if nout != 1:
        raise Unsupported("several outputs of a vectorised function")
    nb = len(bdims)

    def at(idx):
        xs = []
        for x, c in zip(data, ic):
            if not isinstance(x, A.Arr):
                xs.append(x)
                continue
            k = x.ndim - len(c)
            key = []
            for j in range(k):
                s = x.sh[j]
                key.append(0 if s.as_int() == 1 else A.num(idx[nb - k + j]))
            v = x[tuple(key)] if key else x
            xs.append(v)
        return A.asarr(func(*xs, **kwargs))
    gen = tuple(T.fresh("b") for _ in bdims)
    with X.assuming(*[c for v, s in zip(gen, bsz) for c in (ge0(v), lt(v, s))]):
        if not X.consistent():
            raise Unsupported("vectorised function over an empty dimension")
        r0 = at(gen)
        for s in r0.sh:
            if s.fv & {T.the_atom(v) for v in gen}:
                raise Unsupported("size of a vectorised function")
        sh = r0.sh
        body = r0.reader()
        dt = r0.buf.dtype
    cache = {}

    def el(i):
        k = (i[:nb], A.ctxkey())
        if k not in cache:
            cache[k] = at(i[:nb]).reader()
        return cache[k](i[nb:])
    return A.new(tuple(bsz) + tuple(sh), el, dt)


def concat(objs, dim=None, **kw):
    objs = list(objs)
    if isinstance(objs[0], Dataset):
        vs, co = {}, {}
        for k in objs[0]._v:
            r = concat([o[k] for o in objs], dim) if dim in objs[0]._v[k].dims else objs[0][k]
            vs[k] = Variable(r.dims, r._a)
            co = merge_coords(co, r._co)
        return Dataset._mk(vs, co, objs[0].attrs)
    if not isinstance(dim, str):
        raise Unsupported("concatenation along a coordinate")
    if not all(isinstance(o, DataArray) for o in objs):
        raise TypeError("can only concatenate xarray Dataset and DataArray objects")
    dims = unified([o.dims for o in objs])
    if dim not in dims:
        dims = [dim] + dims
        objs = [o.expand_dims(dim) for o in objs]
    for o in objs:
        if set(o.dims) != set(dims):
            raise Unsupported("concatenation of arrays of different dimensions")
    check_sizes([Variable([d for d in o.dims if d != dim], _drop(o, dim)) for o in objs], "concat")
    co = merge_coords(*[{k: v for k, v in o._co.items() if dim not in v.dims} for o in objs])
    a = A.concatenate([o.transpose(*dims)._a for o in objs], axis=dims.index(dim))
    if all(dim in o._co for o in objs):
        co[dim] = Variable((dim,), A.concatenate([o._co[dim].a for o in objs], axis=0))
    return DataArray._mk(a, dims, co)


class _Sh:
    def __init__(self, sh):
        self.sh = sh


def _drop(o, dim):
    return _Sh([s for d, s in zip(o.dims, o._a.sh) if d != dim])


def where(cond, x, y, keep_attrs=None):
    if isinstance(x, Dataset) or isinstance(y, Dataset) or isinstance(cond, Dataset):
        ds = x if isinstance(x, Dataset) else (y if isinstance(y, Dataset) else cond)
        vs, co = {}, {}
        for k in ds._v:
            if any(isinstance(o, Dataset) and k not in o._v for o in (cond, x, y)):
                continue
            r = where(*[o[k] if isinstance(o, Dataset) else o for o in (cond, x, y)])
            vs[k] = Variable(r.dims, r._a)
            co = merge_coords(co, r._co)
        return Dataset._mk(vs, co, None)
    das = [o for o in (cond, x, y) if isinstance(o, DataArray)]
    if not das:
        return A.where(cond, x, y)
    dims = unified([o.dims for o in das])
    check_sizes([Variable(o.dims, o._a) for o in das], "where")
    co = merge_coords(*[o._co for o in das])
    vals = [arrange(o._a, list(o.dims), dims) if isinstance(o, DataArray) else A.asarr(o) for o in (cond, x, y)]
    return DataArray._mk(A.asarr(A.where(*vals)), dims, co)


def zeros_like(a, *r, **k):
    return a.xr_map(lambda x: A.zeros_like(x)) if isinstance(a, DataArray) else a._each(zeros_like)


def ones_like(a, *r, **k):
    return a.xr_map(lambda x: A.ones_like(x)) if isinstance(a, DataArray) else a._each(ones_like)


def full_like(a, v, *r, **k):
    return a.xr_map(lambda x: A.full_like(x, v))


FILES = {}      # contract of the files: what is read is what was last written there


def load_dataset(path, **k):
    p = os.path.abspath(path)
    if k or p not in FILES:
        raise Unsupported("load_dataset")
    return FILES[p].copy(deep=True)


class XR:
    load_dataset, open_dataset = staticmethod(load_dataset), staticmethod(load_dataset)
    DataArray, Dataset = DataArray, Dataset
    dot, apply_ufunc, concat, where = staticmethod(dot), staticmethod(apply_ufunc), staticmethod(concat), staticmethod(where)
    zeros_like, ones_like, full_like = staticmethod(zeros_like), staticmethod(ones_like), staticmethod(full_like)
    __name__ = "xarray"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Stub("xarray." + n)


xr = XR()
