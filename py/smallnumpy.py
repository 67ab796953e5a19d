# The few parts of numpy that scripts/evaluate.py needs; importing the real one
# takes longer than a whole simulated run.  Whatever is missing here makes the
# check fall back on the real one.
import sys
import types


class Missing(BaseException):
    pass


class Int(int):
    def item(self):
        return int(self)


class SmallArray:
    __slots__ = ("v",)

    def __init__(self, v):
        object.__setattr__(self, "v", v)

    def __getattr__(self, name):
        raise Missing(name)

    def __setattr__(self, name, _):
        raise Missing(name)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter([Int(x) for x in self.v])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SmallArray(self.v[i])
        if isinstance(i, int):
            return Int(self.v[i])
        raise Missing("index")

    def __setitem__(self, i, x):
        if isinstance(i, int) and isinstance(x, int):
            self.v[i] = int(x)
        else:
            raise Missing("assignment")

    def sort(self):
        self.v.sort()

    def sum(self):
        return Int(sum(self.v))

    def tolist(self):
        return [int(x) for x in self.v]

    def _no(self, *_):
        raise Missing("operation")

    __add__ = __radd__ = __iadd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __floordiv__ = _no
    __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __bool__ = __contains__ = __array__ = __index__ = _no
    __hash__ = None


class Int64(int):
    pass


def zeros(n, dtype=None):
    if not isinstance(n, int) or dtype not in (int, Int64):
        raise Missing("zeros")
    return SmallArray([0] * n)


def total(a):
    if not isinstance(a, SmallArray):
        raise Missing("sum")
    return a.sum()


def install():
    m = types.ModuleType("numpy")
    m.zeros = zeros
    m.sum = total
    m.int64 = Int64

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Missing(name)

    m.__getattr__ = missing
    sys.modules["numpy"] = m
