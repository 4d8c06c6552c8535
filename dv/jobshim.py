"""Stand-in of joblib for the symbolic runs: the documented behaviour of a pool of processes.  Every call works on copies of
its arguments (what it changes there is lost), its result is a copy too, results come in the order of the calls, except
with return_as="generator_unordered": then every order is explored."""
import copy, types
from . import terms as T
from . import arrays as A
from .terms import Unsupported


def delayed(f):
    def call(*a, **k):
        return f, a, k
    return call


class Parallel:
    def __init__(self, n_jobs=None, backend=None, return_as="list", verbose=0, timeout=None, pre_dispatch="2 * n_jobs",
                 batch_size="auto", temp_folder=None, max_nbytes="1M", mmap_mode="r", prefer=None, require=None, **k):
        if backend not in (None, "loky", "multiprocessing") or prefer not in (None, "processes") or require is not None:
            raise Unsupported("joblib threads")
        if return_as not in ("list", "generator", "generator_unordered"):
            raise ValueError("Expected `return_as` parameter to be a string")
        self.return_as = return_as

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, calls):
        calls = [copy.deepcopy((a, k)) + (f,) for f, a, k in calls]
        res = [copy.deepcopy(f(*a, **k)) for a, k, f in calls]
        if self.return_as == "list":
            return res
        if self.return_as == "generator_unordered":
            order = []
            for r in res:
                p = len(order)
                while p and A.dec(T.eq0(T.fresh("order"))):
                    p -= 1
                order.insert(p, r)
            res = order
        return iter(res)


joblib = types.SimpleNamespace(Parallel=Parallel, delayed=delayed, cpu_count=lambda *a: 2)
