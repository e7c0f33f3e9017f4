"""Abstract values."""
from num import Lin, Id, ZERO, _ids, _rename_name


class Val:
    __slots__ = ("k", "h", "_ids", "aux")
    tag = "?"

    def _init(self, k, aux=None):
        self.k = k
        self.h = hash((self.tag, k))
        self._ids = None
        self.aux = aux

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.h == o.h and self.k == o.k)

    def __ne__(self, o):
        return not self.__eq__(o)

    def sym_ids(self):
        if self._ids is None:
            self._ids = frozenset(_ids(self.k))
        return self._ids

    def rename(self, st, m, memo):
        if not self.sym_ids():
            return self
        nk = _rename_name(self.k, st, m, memo)
        if nk == self.k:
            return self
        return self._mk(nk)

    def _mk(self, k):
        v = self.__class__.__new__(self.__class__)
        Val._init(v, k, self.aux)
        return v

    def show(self, st, d=0):
        from num import _show
        return self.tag + _show(self.k, st, d)

    def __repr__(self):
        return "%s%r" % (self.tag, self.k)


class I(Val):
    __slots__ = ()
    tag = "I"

    def __init__(self, lin):
        if isinstance(lin, int):
            lin = Lin(lin)
        self._init((lin,))

    @property
    def lin(self):
        return self.k[0]

    def show(self, st, d=0):
        return self.k[0].show(st, d)


class B(Val):
    """op: 'c' (const), 'ge', 'eq', 'ne'"""
    __slots__ = ()
    tag = "B"

    def __init__(self, op, x):
        self._init((op, x))

    def neg(self):
        op, x = self.k
        if op == "c":
            return B("c", not x)
        if op == "eq":
            return B("ne", x)
        if op == "ne":
            return B("eq", x)
        if op == "ge":
            return B("ge", (-x) - 1)


TRUE = B("c", True)
FALSE = B("c", False)


class O(Val):
    __slots__ = ()
    tag = "O"

    def __init__(self, i):
        self._init((Id(i),))

    @property
    def id(self):
        return int(self.k[0])

    def show(self, st, d=0):
        return st.show(self.id, d)


class A(Val):
    """Aggregate: tag (adt path / kind), variant, explicit fields, base symbol."""
    __slots__ = ("_f",)
    tag = "A"

    def __init__(self, adt, variant, fields, base=None):
        items = tuple(sorted(fields.items(), key=lambda x: (isinstance(x[0], str), x[0])))
        self._init((adt, variant, items, Id(base) if base is not None else None))
        self._f = None

    def _mk(self, k):
        v = A.__new__(A)
        Val._init(v, k, self.aux)
        v._f = None
        return v

    @property
    def adt(self):
        return self.k[0]

    @property
    def variant(self):
        return self.k[1]

    @property
    def fields(self):
        if self._f is None:
            self._f = dict(self.k[2])
        return self._f

    @property
    def base(self):
        return None if self.k[3] is None else int(self.k[3])

    def with_(self, key, val):
        f = dict(self.fields)
        f[key] = val
        return A(self.adt, self.variant, f, self.base)

    def show(self, st, d=0):
        n = str(self.adt).split("::")[-1] if isinstance(self.adt, str) else str(self.adt)
        s = n
        if self.variant is not None:
            s += "#%s" % self.variant
        s += "{" + ", ".join("%s:%s" % (k, v.show(st, d)) for k, v in self.k[2]) + "}"
        if self.k[3] is not None:
            s += "@" + st.show(int(self.k[3]), d + 1)
        return s


class R(Val):
    __slots__ = ()
    tag = "R"

    def __init__(self, root, path=(), mut=False):
        self._init((root, tuple(path), mut))

    @property
    def root(self):
        return self.k[0]

    @property
    def path(self):
        return self.k[1]

    @property
    def mut(self):
        return self.k[2]


class RS(Val):
    __slots__ = ()
    tag = "RS"

    def __init__(self, refs):
        # refs: iterable of (root, path)
        self._init((tuple(sorted(set(refs), key=repr)),))

    @property
    def refs(self):
        return self.k[0]


class S(Val):
    """Slice reference.  base: ('P', root, path) or a Val."""
    __slots__ = ()
    tag = "S"

    def __init__(self, base, lo, ln):
        self._init((base, lo, ln))

    @property
    def base(self):
        return self.k[0]

    @property
    def lo(self):
        return self.k[1]

    @property
    def ln(self):
        return self.k[2]


class C(Val):
    __slots__ = ()
    tag = "C"

    def __init__(self, b):
        self._init((bytes(b),))

    @property
    def b(self):
        return self.k[0]

    def show(self, st, d=0):
        return repr(self.b)


class F(Val):
    __slots__ = ()
    tag = "F"

    def __init__(self, callee):
        r = callee.get("r") or {}
        self._init((callee["name"], r.get("key"), r.get("name")), callee)


class K(Val):
    __slots__ = ()
    tag = "K"

    def __init__(self, x):
        self._init((x,))

    @property
    def x(self):
        return self.k[0]

    def show(self, st, d=0):
        return repr(self.x)


class T(Val):
    """Content term."""
    __slots__ = ()
    tag = "T"

    def __init__(self, op, *args):
        self._init((op,) + args)

    @property
    def op(self):
        return self.k[0]

    @property
    def args(self):
        return self.k[1:]


class U(Val):
    __slots__ = ()
    tag = "U"

    def __init__(self):
        self._init(())


UNDEF = U()
UNIT = A("unit", None, {})
EMPTY = T("empty")
VEMPTY = T("vempty")
