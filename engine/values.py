"""Symbolic machine values (all immutable)."""
from terms import T, B, add, mul, mod, div


class Agg:
    """struct / tuple / array / closure / enum value; v = variant index"""
    __slots__ = ("v", "f")

    def __init__(self, v, f):
        self.v = v
        self.f = f

    def __repr__(self):
        return "Agg(%s,%s)" % (self.v, list(self.f))


class Seq:
    """growable sequence: Vec<T>, String, backing of slices"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        if self.f and all(isinstance(x, int) and 32 <= x < 127 for x in self.f):
            return "Seq(%r)" % bytes(self.f).decode()
        return "Seq%s" % (list(self.f),)


class Opaque:
    """value whose contents are not modelled (formatted text, serialised bytes)"""
    __slots__ = ("tag", "data")

    def __init__(self, tag, data=None):
        self.tag = tag
        self.data = data

    def __repr__(self):
        return "Opaque(%s,%r)" % (self.tag, self.data)


class Big:
    """U256/U320-like integer of n 64-bit limbs"""
    __slots__ = ("n", "t")

    def __init__(self, n, t):
        self.n = n
        self.t = t

    def limbs(self):
        return Agg(0, tuple(mod(div(self.t, 1 << (64 * i)), 1 << 64) for i in range(self.n)))

    @staticmethod
    def of_limbs(ls):
        s = 0
        for i, l in enumerate(ls):
            s = add(s, mul(l, 1 << (64 * i)))
        return Big(len(ls), s)

    def __repr__(self):
        return "Big%d(%r)" % (self.n * 64, self.t)


class Ptr:
    __slots__ = ("a", "p")

    def __init__(self, a, p=()):
        self.a = a
        self.p = p

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.a, self.p)


class Sl:
    """fat pointer to a sub-range of a Seq/array located at ptr"""
    __slots__ = ("a", "p", "s", "n")

    def __init__(self, a, p, s, n):
        self.a = a
        self.p = p
        self.s = s
        self.n = n

    def __repr__(self):
        return "Sl(%s,%s,%s+%s)" % (self.a, self.p, self.s, self.n)


class Dyn:
    __slots__ = ("ptr", "ty")

    def __init__(self, ptr, ty):
        self.ptr = ptr
        self.ty = ty

    def __repr__(self):
        return "Dyn(%s,%s)" % (self.ptr, self.ty)


class FnV:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst


class It:
    """modelled iterator: kind in slice / into / chars..., data immutable"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, d):
        self.kind = kind
        self.d = d

    def __repr__(self):
        return "It(%s,%r)" % (self.kind, self.d)


class Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = Uninit()
UNIT = Agg(0, ())


def some(x):
    return Agg(1, (x,))


NONE = Agg(0, ())


def ok(x):
    return Agg(0, (x,))


def err(x):
    return Agg(1, (x,))
