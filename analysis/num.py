"""Numeric part of the abstract domain.

Symbols are interned integers.  A `Lin` is a linear expression over symbols.
`Num` is a conjunction of affine equalities (kept solved), linear inequalities
and disequalities.  All operations are over-approximating: entailment answers
"no" when it does not know.
"""
from fractions import Fraction
from math import gcd


class SymInfo:
    # unk: made from the answer of a call the analysis does not know
    __slots__ = ("name", "ty", "nonneg", "prov", "ids", "extra", "unk")


def _unknown(n):
    if isinstance(n, str):
        return n.startswith(("?r", "?hv"))
    return isinstance(n, tuple) and any(_unknown(x) for x in n)


class Id(int):
    """A symbol id embedded in another symbol's name."""
    __slots__ = ()


class SymTab:
    def __init__(self):
        self.by_name = {}
        self.info = []
        self.derived = {}

    def get(self, name, ty=None, nonneg=False, prov=()):
        i = self.by_name.get(name)
        if i is not None:
            inf = self.info[i]
            if prov:
                inf.prov = inf.prov | frozenset(prov)
            if inf.ty is None and ty is not None:
                inf.ty = ty
            if nonneg:
                inf.nonneg = True
            return i
        i = len(self.info)
        inf = SymInfo()
        inf.name = name
        inf.ty = ty
        inf.nonneg = nonneg
        inf.ids = tuple(_ids(name))
        p = set(prov)
        for j in inf.ids:
            p |= self.info[j].prov
        inf.prov = frozenset(p)
        inf.extra = None
        inf.unk = _unknown(name) or any(self.info[j].unk for j in inf.ids)
        self.info.append(inf)
        self.by_name[name] = i
        for j in inf.ids:
            self.derived.setdefault(j, []).append(i)
        return i

    def rename(self, i, m, memo):
        """Symbol obtained from i by substituting symbols according to m."""
        if i in m:
            return m[i]
        r = memo.get(i)
        if r is not None:
            return r
        inf = self.info[i]
        r = i
        if inf.ids:
            nn = _rename_name(inf.name, self, m, memo)
            if nn != inf.name:
                r = self.get(nn, inf.ty, inf.nonneg, inf.prov)
        memo[i] = r
        return r

    def show(self, i, d=0):
        inf = self.info[i]
        r = "s%d" % i if d > 6 else _show(inf.name, self, d)
        return r + " ?hv" if inf.unk and "?" not in r else r


def _show(n, st, d):
    if isinstance(n, Id):
        return st.show(int(n), d + 1)
    if isinstance(n, tuple):
        return "(" + " ".join(_show(x, st, d) for x in n) + ")"
    if isinstance(n, Lin):
        return n.show(st, d + 1)
    if hasattr(n, "show"):
        return n.show(st, d + 1)
    return str(n)


def _ids(n):
    if isinstance(n, Id):
        yield int(n)
    elif isinstance(n, tuple):
        for x in n:
            yield from _ids(x)
    elif isinstance(n, Lin):
        for s, _ in n.t:
            yield s
    elif hasattr(n, "sym_ids"):
        yield from n.sym_ids()


def _rename_name(n, st, m, memo):
    if isinstance(n, Id):
        return Id(st.rename(int(n), m, memo))
    if isinstance(n, tuple):
        return tuple(_rename_name(x, st, m, memo) for x in n)
    if isinstance(n, Lin):
        return n.rename(st, m, memo)
    if hasattr(n, "rename"):
        return n.rename(st, m, memo)
    return n


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    @staticmethod
    def sym(i, k=1):
        return Lin(0, ((i, k),))

    @staticmethod
    def mk(c, d):
        return Lin(_int(c), tuple(sorted((s, _int(k)) for s, k in d.items() if k != 0)))

    def __add__(self, o):
        if isinstance(o, (int, Fraction)):
            return Lin(_int(self.c + o), self.t)
        if not o.t:
            return Lin(_int(self.c + o.c), self.t)
        if not self.t:
            return Lin(_int(self.c + o.c), o.t)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin.mk(self.c + o.c, d)

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(_int(self.c * k), tuple((s, _int(x * k)) for s, x in self.t))

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, (int, Fraction)):
            return Lin(_int(self.c - o), self.t)
        return self + (-o)

    def is_const(self):
        return not self.t

    def coef(self, s):
        for x, k in self.t:
            if x == s:
                return k
        return 0

    def syms(self):
        return [s for s, _ in self.t]

    def subst(self, m):
        """m: id -> Lin"""
        hit = False
        for s, _ in self.t:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        d = {}
        c = self.c
        for s, k in self.t:
            r = m.get(s)
            if r is None:
                d[s] = d.get(s, 0) + k
            else:
                c += r.c * k
                for s2, k2 in r.t:
                    d[s2] = d.get(s2, 0) + k2 * k
        return Lin.mk(c, d)

    def rename(self, st, m, memo):
        ch = False
        d = {}
        for s, k in self.t:
            r = st.rename(s, m, memo)
            if r != s:
                ch = True
            d[r] = d.get(r, 0) + k
        if not ch:
            return self
        return Lin.mk(self.c, d)

    def show(self, st, d=0):
        if not self.t:
            return str(self.c)
        p = []
        for s, k in self.t:
            n = st.show(s, d)
            p.append(n if k == 1 else "%s*%s" % (k, n))
        if self.c:
            p.append(str(self.c))
        return "+".join(p)

    def __repr__(self):
        return "Lin(%s,%s)" % (self.c, self.t)


def _int(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


ZERO = Lin(0)
ONE = Lin(1)


def tighten(l):
    """Normalise l >= 0 over the integers."""
    if not l.t:
        return l
    den = 1
    for _, k in l.t:
        if isinstance(k, Fraction):
            den = den * k.denominator // gcd(den, k.denominator)
    if isinstance(l.c, Fraction):
        den = den * l.c.denominator // gcd(den, l.c.denominator)
    if den != 1:
        l = l.scale(den)
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
    if g > 1:
        return Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
    return l


class Num:
    __slots__ = ("st", "eqs", "ge", "ne", "bot", "cache")

    def __init__(self, st):
        self.st = st
        self.eqs = {}
        self.ge = frozenset()
        self.ne = frozenset()
        self.bot = False
        self.cache = {}

    def copy(self):
        n = Num(self.st)
        n.eqs = self.eqs
        n.ge = self.ge
        n.ne = self.ne
        n.bot = self.bot
        n.cache = self.cache
        return n

    def same(self, o):
        return self.eqs == o.eqs and self.ge == o.ge and self.ne == o.ne

    def ids(self):
        s = set(self.eqs)
        for r in self.eqs.values():
            s.update(x for x, _ in r.t)
        for g in self.ge:
            s.update(x for x, _ in g.t)
        for g in self.ne:
            s.update(x for x, _ in g.t)
        return s

    def norm(self, l):
        if not self.eqs:
            return l
        return l.subst(self.eqs)

    # -- adding facts -----------------------------------------------------
    def add_eq(self, l):
        if self.bot:
            return
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                self.bot = True
            return
        if self.entails_ge(l - 1) or self.entails_ge((-l) - 1):
            self.bot = True
            return
        pv = None
        for s, k in reversed(l.t):
            if k == 1 or k == -1:
                pv = (s, k)
                break
        if pv is None:
            pv = l.t[-1]
        s, k = pv
        rest = Lin(l.c, tuple(x for x in l.t if x[0] != s)).scale(Fraction(-1, 1) / k if k not in (1, -1) else -k)
        m = {s: rest}
        ne = {}
        for p, r in self.eqs.items():
            ne[p] = r.subst(m)
        ne[s] = rest
        self.eqs = ne
        oldge, oldne = self.ge, self.ne
        self.ge = frozenset(g for g in oldge if not any(x[0] == s for x in g.t))
        self.ne = frozenset(g for g in oldne if not any(x[0] == s for x in g.t))
        self.cache = {}
        if self.st.info[s].nonneg:
            self.add_ge(rest)
        for g in sorted(oldge - self.ge, key=lambda x: (x.t, x.c)):
            self.add_ge(g)
        for g in sorted(oldne - self.ne, key=lambda x: (x.t, x.c)):
            self.add_ne(g)

    def add_ge(self, l):
        if self.bot:
            return
        l = tighten(self.norm(l))
        if not l.t:
            if l.c < 0:
                self.bot = True
            return
        if self._trivial(l) or l in self.ge:
            return
        neg = -l
        # l>=0 and -l>=0 => equality
        if self.entails_ge(neg - 1):
            self.bot = True
            return
        if self.entails_ge(neg):
            self.add_eq(l)
            return
        # drop weaker parallel facts
        keep = frozenset(g for g in self.ge if not (g.t == l.t and g.c >= l.c))
        for g in keep:
            if g.t == l.t and g.c < l.c:
                return
        self.ge = keep | {l}
        self.cache = {}
        if self.ne:
            for n in list(self.ne):
                if n.t == l.t or n.t == neg.t:
                    self.ne = self.ne - {n}
                    self.add_ne(n)

    def add_raw(self, l):
        """add_ge for a fact known to be consistent."""
        l = tighten(self.norm(l))
        if not l.t or self._trivial(l) or l in self.ge:
            return
        for g in self.ge:
            if g.t == l.t and g.c <= l.c:
                return
        self.ge = frozenset(g for g in self.ge if g.t != l.t) | {l}
        self.cache = {}

    def implies(self, o):
        """every fact of o holds here"""
        for p, r in o.eqs.items():
            if self.eqs.get(p) != r and not self.is_zero(Lin.sym(p) - r):
                return False
        for g in o.ge:
            if g not in self.ge and not self.entails_ge(g):
                return False
        for g in o.ne:
            if g not in self.ne and not self.entails_ne(g):
                return False
        return True

    def reduce(self):
        """Drop inequalities implied by the others."""
        if len(self.ge) < 12:
            return
        for g in sorted(self.ge, key=lambda x: (-len(x.t), x.t, x.c)):
            full = self.ge
            self.ge = full - {g}
            self.cache = {}
            if not self.entails_ge(g):
                self.ge = full
        self.cache = {}

    def add_ne(self, l):
        if self.bot:
            return
        l = self.norm(l)
        if not l.t:
            if l.c == 0:
                self.bot = True
            return
        if self.entails_ge(l):
            self.add_ge(l - 1)
            return
        if self.entails_ge(-l):
            self.add_ge((-l) - 1)
            return
        if l.t[0][1] < 0:
            l = -l
        if l not in self.ne:
            self.ne = self.ne | {l}
            self.cache = {}

    def _trivial(self, l):
        if l.c < 0:
            return False
        info = self.st.info
        for s, k in l.t:
            if k < 0 or not info[s].nonneg:
                return False
        return True

    # -- queries ----------------------------------------------------------
    def is_zero(self, l):
        """l == 0 entailed"""
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        return False

    def eq(self, a, b):
        if a == b:
            return True
        d = self.norm(a - b)
        if not d.t:
            return d.c == 0
        return self.entails_ge(d) and self.entails_ge(-d)

    def entails_ne(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c != 0
        n = -l if l.t[0][1] < 0 else l
        if n in self.ne:
            return True
        return self.entails_ge(l - 1) or self.entails_ge((-l) - 1)

    def const(self, l):
        l = self.norm(l)
        return l.c if not l.t else None

    def entails_ge(self, l):
        l = tighten(self.norm(l))
        if not l.t:
            return l.c >= 0
        if self._trivial(l):
            return True
        r = self.cache.get(l)
        if r is None:
            r = self._fm(l)
            self.cache[l] = r
        return r

    def _fm(self, goal):
        info = self.st.info
        for g in self.ge:
            if g.t == goal.t and g.c <= goal.c:
                return True
        # relevant constraints
        syms = set(goal.syms())
        pend = [g for g in self.ge]
        cons = []
        ch = True
        while ch:
            ch = False
            rest = []
            for g in pend:
                if any(s in syms for s, _ in g.t):
                    cons.append(g)
                    for s, _ in g.t:
                        if s not in syms:
                            syms.add(s)
                    ch = True
                else:
                    rest.append(g)
            pend = rest
        # bounds of integer types would swamp the floating point search: they
        # are used only if there is no proof without them
        small = [g for g in cons if -BIG < g.c < BIG]
        for cs in ([small, cons] if len(small) < len(cons) else [cons]):
            cols = [(dict(g.t), g.c) for g in cs]
            for s in syms:
                if info[s].nonneg:
                    cols.append(({s: 1}, 0))
            lam = _simplex(sorted(syms), cols, dict(goal.t), goal.c)
            if lam is not None and self._confirm(cols, lam, goal):
                return True
        return False

    @staticmethod
    def _confirm(cols, lam, goal):
        # exact confirmation of the certificate
        tot, acc = Fraction(0), {}
        for i, x in lam:
            a, c = cols[i]
            f = Fraction(x).limit_denominator(24)
            tot += f * c
            for s, k in a.items():
                acc[s] = acc.get(s, 0) + f * k
        gt = dict(goal.t)
        for s in set(acc) | set(gt):
            if acc.get(s, 0) != gt.get(s, 0):
                return False
        return tot < goal.c + 1

    def rename(self, m, memo):
        st = self.st
        n = Num(st)
        n.bot = self.bot
        ch = False
        eqs = []
        for p, r in self.eqs.items():
            p2 = st.rename(p, m, memo)
            r2 = r.rename(st, m, memo)
            if p2 != p or r2 != r:
                ch = True
            eqs.append((p2, r2))
        ge = [g.rename(st, m, memo) for g in self.ge]
        ne = [g.rename(st, m, memo) for g in self.ne]
        if not ch and set(ge) == set(self.ge) and set(ne) == set(self.ne):
            return self.copy()
        ids = set()
        for p, r in self.eqs.items():
            ids.add(p)
            ids.update(x for x, _ in r.t)
        for g in self.ge:
            ids.update(x for x, _ in g.t)
        for g in self.ne:
            ids.update(x for x, _ in g.t)
        if len({st.rename(i, m, memo) for i in ids}) == len(ids):
            n.eqs = dict(eqs)
            n.ge = frozenset(ge)
            n.ne = frozenset(-g if g.t[0][1] < 0 else g for g in ne)
            return n
        for p, r in eqs:
            n.add_eq(Lin.sym(p) - r)
        for g in sorted(ge, key=lambda x: (x.t, x.c)):
            n.add_ge(g)
        for g in sorted(ne, key=lambda x: (x.t, x.c)):
            n.add_ne(g)
        return n

    def project(self, keep):
        """Eliminate every symbol for which keep(s) is false."""
        dead = set()
        for p, r in self.eqs.items():
            if not keep(p):
                dead.add(p)
            for s, _ in r.t:
                if not keep(s):
                    dead.add(s)
        for g in self.ge:
            for s, _ in g.t:
                if not keep(s):
                    dead.add(s)
        for g in self.ne:
            for s, _ in g.t:
                if not keep(s):
                    dead.add(s)
        if not dead:
            return self
        info = self.st.info
        n = Num(self.st)
        n.bot = self.bot
        eqs = dict(self.eqs)
        ge = set(self.ge)
        ne = set(self.ne)
        # dead pivots just go away (they occur nowhere else)
        for s in list(eqs):
            if s in dead:
                r = eqs.pop(s)
                if info[s].nonneg and r.t:
                    ge.add(tighten(r))
                dead.discard(s)
        for s in sorted(dead):
            # use an equality containing s
            cand = [(p, r) for p, r in eqs.items() if r.coef(s) != 0]
            if cand:
                p, r = cand[0]
                k = r.coef(s)
                # p = r  ->  s = (p - (r - k s))/k
                rest = Lin(r.c, tuple(x for x in r.t if x[0] != s))
                ex = (Lin.sym(p) - rest).scale(Fraction(1, 1) / k if k not in (1, -1) else k)
                m = {s: ex}
                del eqs[p]
                eqs = {q: x.subst(m) for q, x in eqs.items()}
                # p is no longer a pivot; other rhs may now contain p: fine
                ge = {tighten(g.subst(m)) for g in ge}
                ne = {g.subst(m) for g in ne}
                if info[s].nonneg:
                    ge.add(tighten(ex))
                continue
            pos = [g for g in ge if g.coef(s) > 0]
            neg = [g for g in ge if g.coef(s) < 0]
            if info[s].nonneg:
                pos.append(Lin.sym(s))
            ge = {g for g in ge if g.coef(s) == 0}
            ne = {g for g in ne if g.coef(s) == 0}
            if len(pos) * len(neg) <= 40:
                for a in pos:
                    ka = a.coef(s)
                    for b in neg:
                        kb = -b.coef(s)
                        ge.add(tighten(a.scale(kb) + b.scale(ka)))
        for p, r in sorted(eqs.items()):
            n.add_eq(Lin.sym(p) - r)
        for g in sorted(ge, key=lambda x: (x.t, x.c)):
            n.add_ge(g)
        for g in sorted(ne, key=lambda x: (x.t, x.c)):
            n.add_ne(g)
        return n

    def show(self):
        st = self.st
        out = []
        for p, r in self.eqs.items():
            out.append("%s = %s" % (st.show(p), r.show(st)))
        for g in self.ge:
            out.append("%s >= 0" % g.show(st))
        for g in self.ne:
            out.append("%s != 0" % g.show(st))
        return out


def join_num(a, b, phis):
    """a, b: Num.  phis: list of (id, Lin in a, Lin in b); the ids do not occur
    in b (and occur in a only as their own definition).  Result holds for both."""
    st = a.st
    A = a.copy()
    B = b.copy()
    for p, la, lb in phis:
        s = Lin.sym(p)
        if la != s:
            A.add_eq(s - la)
        B.add_eq(s - lb)
    n = Num(st)
    if A.bot:
        return B
    if B.bot:
        return A
    # equalities: combinations of A's rows that vanish under B (exact intersection)
    basis = {}
    for p, r in sorted(A.eqs.items()):
        comb = Lin.sym(p) - r
        d = B.norm(comb)
        while True:
            pv = d.t[0][0] if d.t else None
            if pv is None and d.c == 0:
                n.add_eq(comb)
                break
            if pv not in basis:
                basis[pv] = (d, comb)
                break
            bd, bc = basis[pv]
            k = d.t[0][1] if pv is not None else d.c
            kk = bd.t[0][1] if pv is not None else bd.c
            f = Fraction(k) / kk
            d = d - bd.scale(f)
            comb = comb - bc.scale(f)
    # inequalities
    cand = set(A.ge) | set(B.ge)
    if phis:
        # what each side implies about the symbols both sides know
        ia, ib = A.ids(), B.ids()
        both = (ia & ib) | {p for p, _, _ in phis}
        for X, ix, j, k in ((A, ia, 1, 2), (B, ib, 2, 1)):
            if not ix - both:
                continue
            gs = X.project(lambda s: s in both).ge
            cand |= gs
            # the same with another phi that differs by a constant on this side
            for ph in phis:
                mine = [g for g in gs if g.coef(ph[0])]
                seen = {ph[k]}
                for o in phis if mine else ():
                    d = ph[j] - o[j]
                    if o[k] not in seen and d.is_const():
                        seen.add(o[k])
                        for g in mine:
                            cand.add(tighten(g.subst({ph[0]: Lin.sym(o[0]) + d})))
    for p, la, lb in phis:
        s = Lin.sym(p)
        for X, l in ((A, la), (B, lb)):
            for q in (s - l, l - s):
                cand.add(tighten(q))
            # a bound whose constant is the value of the phi
            if l.is_const() and l.c != 0:
                for g in X.ge:
                    if g.c == -l.c:
                        cand.add(g + l.c - s)
                    if g.c == l.c:
                        cand.add(g - l.c + s)
            # substitute a symbol of l by the phi
            for sy, k in l.t:
                if k in (1, -1) and sy != p:
                    # s = k*sy + rest -> sy = k*(s-rest)
                    rest = Lin(l.c, tuple(x for x in l.t if x[0] != sy))
                    ex = (s - rest).scale(k)
                    for g in X.ge:
                        if g.coef(sy) != 0:
                            cand.add(tighten(g.subst({sy: ex})))
    # pairwise phi relations suggested by the first side
    for i in range(len(phis)):
        p, la, lb = phis[i]
        if la.is_const() or lb.is_const():
            for c in {la.c if la.is_const() else None, lb.c if lb.is_const() else None}:
                if c is not None:
                    cand.add(Lin.sym(p) - c)
                    cand.add(Lin(c) - Lin.sym(p))
    for g in sorted(cand, key=lambda x: (x.t, x.c)):
        if not g.t or len(g.t) > 4 and (len(g.t) > 8 or g not in A.ge and g not in B.ge):
            continue
        if A.entails_ge(g) and B.entails_ge(g):
            n.add_raw(g)
    nec = set(A.ne) | set(B.ne)
    for g in sorted(nec, key=lambda x: (x.t, x.c)):
        if A.entails_ne(g) and B.entails_ne(g):
            n.add_ne(g)
    n.reduce()
    return n


EPS = 1e-9
BIG = 1 << 50


def _simplex(rows, cols, target, gc):
    """Non-negative combination of cols whose linear part is target and whose
    constant is < gc + 1 (a proof that the goal is non-negative), or None.
    Two-phase simplex; the caller confirms the result exactly."""
    m, n = len(rows), len(cols)
    idx = {s: i for i, s in enumerate(rows)}
    tab = [[0.0] * (n + m + 1) for _ in range(m)]
    for j, (a, c) in enumerate(cols):
        for s, k in a.items():
            tab[idx[s]][j] = float(k)
    for s, k in target.items():
        tab[idx[s]][n + m] = float(k)
    for i in range(m):
        if tab[i][n + m] < 0:
            tab[i] = [-x for x in tab[i]]
        tab[i][n + i] = 1.0
    basis = [n + i for i in range(m)]
    W = n + m + 1
    # phase 1 costs
    z1 = [0.0] * W
    for i in range(m):
        r = tab[i]
        for j in range(n):
            if r[j]:
                z1[j] -= r[j]
        z1[W - 1] -= r[W - 1]
    z2 = [0.0] * W
    for j, (a, c) in enumerate(cols):
        z2[j] = float(c)

    def pivot(pi, pj):
        pr = tab[pi]
        pv = pr[pj]
        if pv != 1.0:
            inv = 1.0 / pv
            pr = tab[pi] = [x * inv for x in pr]
        for r in range(m):
            if r != pi:
                k = tab[r][pj]
                if k:
                    tab[r] = [x - k * y for x, y in zip(tab[r], pr)]
        for z in (z1, z2):
            k = z[pj]
            if k:
                for q in range(W):
                    z[q] -= k * pr[q]
        basis[pi] = pj

    def opt(z, stop):
        for it in range(400):
            if stop(z):
                return True
            pj = -1
            if it < 60:
                bestv = -EPS
                for j in range(n):
                    if z[j] < bestv:
                        bestv, pj = z[j], j
            else:
                for j in range(n):
                    if z[j] < -EPS:
                        pj = j
                        break
            if pj < 0:
                return stop(z)
            pi, br = -1, None
            for r in range(m):
                k = tab[r][pj]
                if k > EPS:
                    q = tab[r][W - 1] / k
                    if br is None or q < br - EPS or (q < br + EPS and basis[r] < basis[pi]):
                        br, pi = q, r
            if pi < 0:
                return None
            pivot(pi, pj)
        return False

    r = opt(z1, lambda z: z[W - 1] > -1e-7)
    if not r:
        return None
    # drive remaining artificials out of the basis
    for i in range(m):
        if basis[i] >= n:
            for j in range(n):
                if abs(tab[i][j]) > EPS:
                    pivot(i, j)
                    break
    lim = gc + 1 - 1e-6
    r = opt(z2, lambda z: -z[W - 1] < lim)
    if r is None:
        # unbounded below: the facts are contradictory
        return None
    if not r:
        return None
    return [(basis[i], tab[i][W - 1]) for i in range(m) if basis[i] < n and abs(tab[i][W - 1]) > EPS]
