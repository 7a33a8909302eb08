"""Normal forms for scalar terms.

A term is a polynomial with rational coefficients over *atoms*.  Atoms are
interned tuples; an atom is either a named symbol (an input of the analysed
code), an indicator ``gt0(p)`` / ``eq0(p)`` of another polynomial, a reciprocal
``inv(p)`` or an uninterpreted application ``fn(name, args)``.

* indicators are idempotent and canonical up to sign and positive scale, so
  ``a < b``, ``b > a`` and ``not a >= b`` have one normal form, and ``min``,
  ``max``, ``abs``, ``sign``, ``where`` and ``clip`` are all written with them;
* ``eq0(p) * q`` is reduced modulo ``p``; ``inv(p) * p`` is reduced to 1.

Two terms with the same normal form are equal for every value of the atoms.
No solver is involved: equality is equality of dictionaries.
"""

from __future__ import annotations

import hashlib
import math
import random
from fractions import Fraction

ATOMS: list[tuple] = []
ATOM_ID: dict[tuple, int] = {}
BOOL: set[int] = set()  # 0/1 valued atoms
POS: set[int] = set()  # strictly positive atoms
NONNEG: set[int] = set()
INT: set[int] = set()

MAXTERMS = 60000
LETCUT = 400  # products beyond this size name their larger operand


class TooBig(Exception):
    """The normal form grew beyond the budget."""


def atom(key: tuple, boolean=False, pos=False, nonneg=False) -> int:
    i = ATOM_ID.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(key)
        ATOM_ID[key] = i
        if boolean:
            BOOL.add(i)
    if pos:
        POS.add(i)
    if nonneg:
        NONNEG.add(i)
    return i


def simp(f):
    return f.numerator if f.denominator == 1 else f


def div(a, b):
    if type(a) is int and type(b) is int:
        if b == 1:
            return a
        if b == -1:
            return -a
    return simp(Fraction(a) / b)


class Poly:
    __slots__ = ("t", "_key", "_id")
    table: dict[tuple, "Poly"] = {}
    count = 0

    def __init__(self, terms: dict):
        self.t = terms
        self._key = None
        self._id = None

    # -- identity -------------------------------------------------------
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def ident(self) -> int:
        if self._id is None:
            k = self.key()
            q = Poly.table.get(k)
            if q is None:
                Poly.count += 1
                self._id = Poly.count
                Poly.table[k] = self
            else:
                self._id = q._id
        return self._id

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self) -> Fraction:
        return Fraction(self.t.get((), 0))

    def is_zero(self):
        return not self.t

    def is_one(self):
        return len(self.t) == 1 and self.t.get(()) == 1

    # -- arithmetic -----------------------------------------------------
    def __add__(self, o):
        o = P(o)
        if len(o.t) > len(self.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if len(self.t) == 1 and () in self.t:
            c = self.t[()]
            return o if c == 1 else Poly({m: c * v for m, v in o.t.items()})
        if len(o.t) == 1 and () in o.t:
            return o * self
        r: dict = {}
        if len(self.t) > 1 and len(o.t) > 1 and len(self.t) * len(o.t) > LETCUT:
            if len(self.t) < len(o.t):
                self, o = o, self
            self = let(self)
            if len(o.t) > LETCUT:
                o = let(o)
        red = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, flag = mono_mul(m1, m2)
                if m is None:
                    continue
                c = c1 * c2
                if flag:
                    red.append((m, c))
                else:
                    v = r.get(m, 0) + c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        if red:
            for m, c in red:
                reduce_into(r, m, c)
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, n: int):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __repr__(self):
        return show(self)


def P(x) -> Poly:
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, Fraction):
        return Poly({(): simp(x)}) if x else ZERO
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return sym("NaN") if math.isnan(x) else infinity() if x > 0 else -infinity()
        f = Fraction(repr(x))
        return Poly({(): simp(f)}) if f else ZERO
    raise TypeError(type(x))


ZERO = Poly({})
ONE = Poly({(): 1})


def apoly(i: int) -> Poly:
    return Poly({((i, 1),): 1})


def sym(*name, boolean=False, pos=False, nonneg=False) -> Poly:
    return apoly(atom(("sym",) + name, boolean, pos, nonneg))


def infinity_atom():
    return next(iter(infinity().t))[0][0]


# rewriting rules keyed by atom: atom -> (divisor monomial, replacement Poly)
# for eq0(p):  lead(p)*eq0 -> (lead - p/lc)*eq0 ; for inv(p): lead*inv -> 1 - rest*inv
RULES: dict[int, tuple] = {}
EXCL: dict[int, int] = {}  # gt0(p) <-> eq0(p) mutually exclusive


def mono_mul(m1, m2):
    """Merge two monomials; the flag says a rewrite rule may apply."""
    if not m1:
        return m2, bool(RULES) and has_rule(m2)
    if not m2:
        return m1, bool(RULES) and has_rule(m1)
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if a in BOOL:
            v = 1
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    for a in d:
        x = EXCL.get(a)
        if x is not None and x in d:
            return None, False
    flag = False
    if RULES:
        for a in d:
            if a in RULES:
                flag = True
                break
    return tuple(sorted(d.items())), flag


def has_rule(m):
    for a, _ in m:
        if a in RULES:
            return True
    return False


def divides(d, m):
    """Does monomial d (as items) divide m (dict)?"""
    for a, e in d:
        v = m.get(a, 0)
        if e > 0 and v < e:
            return False
        if e < 0 and v > e:
            return False
    return True


def reduce_into(r: dict, m, c, depth=0):
    d = dict(m)
    if depth < 60:
        for a in sorted(d):
            rule = RULES.get(a)
            if rule is None:
                continue
            lead, repl, keep = rule
            rest = dict(d)
            e = rest.pop(a)
            if divides(lead, rest):
                for la, le in lead:
                    v = rest.get(la, 0) - le
                    if v:
                        rest[la] = v
                    else:
                        rest.pop(la, None)
                # one factor of ``a`` consumed
                if e > 1:
                    rest[a] = e - 1
                base = tuple(sorted(rest.items()))
                for m2, c2 in repl.t.items():
                    mm, _ = mono_mul(base, m2)
                    if mm is not None:
                        reduce_into(r, mm, c * c2, depth + 1)
                return
    v = r.get(m, 0) + c
    if v:
        r[m] = v
    else:
        r.pop(m, None)


def mono_order(m):
    """Ordering used for leading monomials: most atoms first, newest atoms first."""
    return (sum(abs(e) for a, e in m if a not in BOOL), tuple(sorted(((a, e) for a, e in m), reverse=True)))


def lead(p: Poly):
    return max(p.t, key=mono_order)


def content_positive(p: Poly):
    """Common monomial factor made of positive atoms (may have negative exps)."""
    common = None
    for m in p.t:
        d = {a: e for a, e in m if a in POS}
        if common is None:
            common = d
        else:
            common = {
                a: min(common.get(a, 0), d.get(a, 0)) for a in set(common) | set(d)
            }
            common = {a: e for a, e in common.items() if e}
        if not common:
            return ()
    return tuple(sorted((common or {}).items()))


def mono_inv(m):
    return tuple((a, -e) for a, e in m)


def canon_sign(p: Poly):
    """Return (sign, q) with p = sign * positive * q and q canonical."""
    if p.is_const():
        c = p.const()
        return (0 if c == 0 else (1 if c > 0 else -1)), ONE
    cm = content_positive(p)
    if cm:
        p = p * Poly({mono_inv(cm): 1})
    lm = max(p.t)
    c = p.t[lm]
    s = 1 if c > 0 else -1
    q = Poly({m: div(v, c) for m, v in p.t.items()})  # division by signed lead
    return s, q


def infinity():
    return sym("inf", pos=True)


INFINITE: set = set()


def known_sign(p: Poly):
    """+1/-1/0 if decidable syntactically, '>=0' / '<=0', else None."""
    if not INFINITE:
        INFINITE.add(((infinity_atom(), 1),))
    for m in INFINITE:
        if m in p.t and sum(1 for k in p.t for a, _ in k if a == m[0][0]) == 1:
            return 1 if p.t[m] > 0 else -1
    if p.is_const():
        c = p.const()
        return 0 if c == 0 else (1 if c > 0 else -1)
    signs = set()
    strict = False
    for m, c in p.t.items():
        ok = True
        mstrict = True
        for a, e in m:
            if a in POS:
                continue
            if a in BOOL or a in NONNEG or e % 2 == 0:
                mstrict = False
                continue
            ok = False
            break
        if not ok:
            return None
        signs.add(1 if c > 0 else -1)
        strict = strict or mstrict
    if len(signs) != 1:
        return None
    s = signs.pop()
    if strict:
        return s
    return ">=0" if s > 0 else "<=0"


def gt0(p) -> Poly:
    """Indicator p > 0."""
    p = P(p)
    k = known_sign(p)
    if k in (1, -1, 0):
        return ONE if k == 1 else ZERO
    if k == "<=0":
        return ZERO
    b = as_bool(p)
    if b is not None:
        return b
    s, q = canon_sign(p)
    g, e = ind_atoms(q)
    if s > 0:
        return apoly(g)
    if known_sign(q) == ">=0":
        return ZERO
    return ONE - apoly(g) - apoly(e)


def as_bool(p: Poly):
    """If p is a 0/1 polynomial (syntactically an indicator), p>0 is p itself."""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and m and all(a in BOOL for a, _ in m):
            return Poly({m: 1})
    if is_boolpoly(p):
        return p
    return None


_boolcache: dict = {}


def is_boolpoly(p: Poly) -> bool:
    """p takes only values 0/1 (decided by enumerating its few 0/1 atoms)."""
    k = p.key()
    r = _boolcache.get(k)
    if r is not None:
        return r
    atoms = set()
    r = True
    for m, c in p.t.items():
        for a, e in m:
            if a not in BOOL:
                r = False
                break
            atoms.add(a)
        if not r:
            break
    if r:
        if len(atoms) > 10:
            r = False
        else:
            al = sorted(atoms)
            for bits in range(1 << len(al)):
                on = {a for n, a in enumerate(al) if bits >> n & 1}
                if any(EXCL.get(a) in on for a in on):
                    continue
                v = sum(c for m, c in p.t.items() if all(a in on for a, _ in m))
                if v not in (0, 1):
                    r = False
                    break
    _boolcache[k] = r
    return r


def ind_atoms(q: Poly):
    qi = q.ident()
    g = ATOM_ID.get(("gt0", qi))
    if g is None:
        g = atom(("gt0", qi), boolean=True)
        e = atom(("eq0", qi), boolean=True)
        EXCL[g] = e
        EXCL[e] = g
        lm = lead(q)
        lc = q.t[lm]
        # eq0 * lead -> eq0 * (lead - q/lc)
        if lm:
            rest = Poly({m: div(-v, lc) for m, v in q.t.items() if m != lm})
            RULES[e] = (lm, Poly(_times_atom(rest.t, e)), True)
    else:
        e = ATOM_ID[("eq0", qi)]
    return g, e


def _times_atom(t, a):
    r = {}
    for m, c in t.items():
        mm, _ = mono_mul(m, ((a, 1),))
        if mm is not None:
            r[mm] = r.get(mm, 0) + c
    return r


def eq0(p) -> Poly:
    p = P(p)
    k = known_sign(p)
    if k in (1, -1):
        return ZERO
    if k == 0:
        return ONE
    if is_boolpoly(p):
        return ONE - p
    if is_boolpoly(-p):
        return ONE + p
    _, q = canon_sign(p)
    # a 0/1-valued difference of booleans
    if is_boolpoly(ONE + q) is True and False:
        pass
    _, e = ind_atoms(q)
    if known_sign(q) == ">=0":
        g = ATOM_ID[("gt0", q.ident())]
        return ONE - apoly(g)
    return apoly(e)


def ge0(p):
    p = P(p)
    return ONE - gt0(-p)


def lt(a, b):
    return gt0(P(b) - P(a))


def le(a, b):
    return ONE - gt0(P(a) - P(b))


def eq(a, b):
    return eq0(P(a) - P(b))


def pmax(a, b):
    a, b = P(a), P(b)
    d = a - b
    k = known_sign(d)
    if k in (1, ">=0", 0):
        return a
    if k in (-1, "<=0"):
        return b
    g = gt0_pos(d)
    r = b + d * g[1] if g[0] > 0 else a + (-d) * g[1]
    return r


def gt0_pos(d):
    """(s, atom poly) where the atom is gt0 of the canonical direction."""
    s, q = canon_sign(d)
    bq = as_bool(q)
    if bq is not None:
        return s, bq
    g, _ = ind_atoms(q)
    return s, apoly(g)


def pmin(a, b):
    a, b = P(a), P(b)
    return a + b - pmax(a, b)


def pabs(p):
    p = P(p)
    k = known_sign(p)
    if k in (1, ">=0", 0):
        return p
    if k in (-1, "<=0"):
        return -p
    s, g = gt0_pos(p)
    d = p if s > 0 else -p
    return 2 * d * g - d


def psign(p):
    p = P(p)
    return gt0(p) - gt0(-p)


def where(c, a, b):
    c, a, b = P(c), P(a), P(b)
    if c.is_one():
        return a
    if c.is_zero():
        return b
    if a == b:
        return a
    return b + c * (a - b)


def inv(p) -> Poly:
    p = P(p)
    if p.is_zero():
        return sym("NaN")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not any(a in BOOL for a, _ in m):
            out = {}
            for a, e in m:
                k = ATOMS[a]
                if k[0] == "inv":
                    # 1/inv(q) = q
                    base = Poly({tuple(sorted(mono_inv(x for x in m if x[0] != a))): div(1, c)})
                    return base * (POLY_BY_ID(k[1]) ** e)
                out[a] = -e
            return Poly({tuple(sorted(out.items())): div(1, c)})
    cm = content_positive(p)
    pref = ONE
    if cm:
        im = Poly({mono_inv(cm): 1})
        p = p * im
        pref = im
        if len(p.t) == 1 and not any(a in BOOL for m in p.t for a, _ in m):
            return pref * inv(p)
    lm0 = max(p.t)
    c = p.t[lm0]
    q = Poly({m: div(v, c) for m, v in p.t.items()})
    qi = q.ident()
    key = ("inv", qi)
    a = ATOM_ID.get(key)
    if a is None:
        ks = known_sign(q)
        a = atom(key, pos=(ks == 1), nonneg=(ks == ">=0"))
        lm = lead(q)
        lc = q.t[lm]
        rest = Poly({m: div(-v, lc) for m, v in q.t.items() if m != lm})
        repl = Poly({(): div(1, lc)}) + Poly(_times_atom(rest.t, a))
        if lm:
            RULES[a] = (lm, repl, False)
    return pref * apoly(a) * P(div(1, c))


def let(p) -> Poly:
    """Name a large term: an atom standing for (and defined as) the term.

    Purely an abbreviation: valuations evaluate it through its definition and
    two equal terms always get the same name.
    """
    p = P(p)
    if len(p.t) < 2:
        return p
    pref = ONE
    lm0 = max(p.t)
    c = p.t[lm0]
    if is_boolpoly(p):
        a = atom(("let", p.ident()), boolean=True)
        return pref * apoly(a)
    q = Poly({m: div(v, c) for m, v in p.t.items()})
    ks = known_sign(q)
    a = atom(("let", q.ident()), pos=(ks == 1), nonneg=(ks in (1, ">=0")))
    return pref * apoly(a) * P(c)


def unlet(p, rounds=12) -> Poly:
    """Expand names at the top level (not inside indicators or reciprocals)."""
    p = P(p)
    for _ in range(rounds):
        ids = {a for m in p.t for a, _ in m if ATOMS[a][0] == "let"}
        if not ids:
            return p
        top = max(ids)
        q = POLY_BY_ID(ATOMS[top][1])
        r = ZERO
        keep = {}
        for m, c in p.t.items():
            e = dict(m).get(top)
            if e is None:
                keep[m] = c
            elif e < 0:
                keep[m] = c
            else:
                rest = Poly({tuple(x for x in m if x[0] != top): c})
                r = r + mul_full(rest, q, e)
        r = r + Poly(keep)
        if r == p:
            return p
        p = r
    return p


def mul_full(a, q, e):
    global LETCUT
    save, LETCUT = LETCUT, 10**9
    try:
        for _ in range(e):
            a = a * q
    finally:
        LETCUT = save
    return a


def POLY_BY_ID(i: int) -> Poly:
    global _byid
    p = _byid.get(i)
    if p is None:
        _byid = {q._id: q for q in Poly.table.values()}
        p = _byid[i]
    return p


_byid: dict = {}


def fn(name, *args, boolean=False, pos=False, nonneg=False) -> Poly:
    """Uninterpreted application; args are Polys or hashable keys."""
    if name == "floor" and len(args) == 1 and isinstance(args[0], Poly) and args[0].is_const():
        return P(math.floor(args[0].const()))
    key = ("fn", name) + tuple(
        ("p", a.ident()) if isinstance(a, Poly) else ("k", a) for a in args
    )
    return apoly(atom(key, boolean, pos, nonneg))


def atoms_of(p: Poly) -> set[int]:
    return {a for m in p.t for a, _ in m}


def all_atoms(p: Poly, seen=None) -> set[int]:
    """Atoms of p including those inside indicators, reciprocals and arguments."""
    if seen is None:
        seen = set()
    for a in atoms_of(p):
        if a in seen:
            continue
        seen.add(a)
        for q in sub_polys(a):
            all_atoms(q, seen)
    return seen


def sub_polys(a: int):
    k = ATOMS[a]
    if k[0] in ("gt0", "eq0", "inv", "let"):
        return [POLY_BY_ID(k[1])]
    if k[0] == "fn":
        return [POLY_BY_ID(x[1]) for x in k[2:] if x[0] == "p"]
    if k[0] == "sum":
        return [POLY_BY_ID(k[2])]
    return []


def sym_names(p: Poly) -> set:
    return {ATOMS[a][1] for a in all_atoms(p) if ATOMS[a][0] == "sym"}


def subst(p: Poly, mapping: dict, memo=None) -> Poly:
    """Substitute atoms (id -> Poly), rebuilding compound atoms."""
    if memo is None:
        memo = {}
    pid = p.ident()
    if pid in memo:
        return memo[pid]
    r = ZERO
    for m, c in p.t.items():
        term = P(c)
        for a, e in m:
            term = term * (subst_atom(a, mapping, memo) ** e)
        r = r + term
    memo[pid] = r
    return r


def subst_atom(a: int, mapping, memo) -> Poly:
    if a in mapping:
        return mapping[a]
    k = ATOMS[a]
    if k[0] in ("gt0", "eq0", "inv", "let"):
        q = POLY_BY_ID(k[1])
        q2 = subst(q, mapping, memo)
        if q2 == q:
            return apoly(a)
        return {"gt0": gt0, "eq0": eq0, "inv": inv, "let": let}[k[0]](q2)
    if k[0] == "fn":
        args = []
        ch = False
        for x in k[2:]:
            if x[0] == "p":
                q = POLY_BY_ID(x[1])
                q2 = subst(q, mapping, memo)
                ch = ch or q2 != q
                args.append(q2)
            else:
                args.append(x[1])
        if not ch:
            return apoly(a)
        return fn(k[1], *args, boolean=a in BOOL, pos=a in POS, nonneg=a in NONNEG)
    if k[0] == "sum":
        q = POLY_BY_ID(k[2])
        q2 = subst(q, mapping, memo)
        if q2 == q:
            return apoly(a)
        return psum(k[1], q2, k[3] if len(k) > 3 else 0)
    return apoly(a)


# --- sums over an abstract axis -------------------------------------------
def depends_axis(a: int, axis: str) -> bool:
    k = ATOMS[a]
    if k[0] == "sym":
        return any(isinstance(x, tuple) and x and x[0] == axis for x in k[2:])
    if k[0] == "fn":
        for x in k[2:]:
            if x[0] == "k" and isinstance(x[1], tuple) and x[1] and x[1][0] == axis:
                return True
    return any(
        depends_axis(b, axis) for q in sub_polys(a) for b in atoms_of(q)
    )


def psum(axis: str, p: Poly, c0: int = 0) -> Poly:
    """Sum of a term given at the generic index over an axis of extent
    size + c0 (c0 != 0: a window of the axis): linear."""
    r = ZERO
    for m, c in p.t.items():
        outer = tuple(x for x in m if not depends_axis(x[0], axis))
        inner = tuple(x for x in m if depends_axis(x[0], axis))
        if not inner:
            a = atom(("sym", "size", axis), pos=True)
            r = r + Poly({outer: c}) * (apoly(a) + c0)
            continue
        ip = Poly({inner: 1})
        pos = all(x[0] in POS for x in inner)
        nn = all(x[0] in POS or x[0] in BOOL or x[0] in NONNEG for x in inner)
        key = ("sum", axis, ip.ident()) + ((c0,) if c0 else ())
        a = atom(key, pos=pos, nonneg=nn)
        r = r + Poly({outer: c}) * apoly(a)
    return r


# --- display ----------------------------------------------------------------
def show_atom(a: int, depth=0) -> str:
    k = ATOMS[a]
    if k[0] == "sym":
        n = str(k[1])
        if len(k) > 2:
            n += "[" + ",".join(show_ix(x) for x in k[2:]) + "]"
        return n
    if depth > 3:
        return f"{k[0]}#{a}"
    if k[0] == "gt0":
        return f"[{show(POLY_BY_ID(k[1]), depth + 1)} > 0]"
    if k[0] == "eq0":
        return f"[{show(POLY_BY_ID(k[1]), depth + 1)} == 0]"
    if k[0] == "inv":
        return f"1/({show(POLY_BY_ID(k[1]), depth + 1)})"
    if k[0] == "fn":
        return f"{k[1]}(" + ", ".join(
            show(POLY_BY_ID(x[1]), depth + 1) if x[0] == "p" else show_ix(x[1]) for x in k[2:]
        ) + ")"
    if k[0] == "sum":
        return f"sum_{k[1]}({show(POLY_BY_ID(k[2]), depth + 1)})"
    return str(k)


def show_ix(x):
    if isinstance(x, tuple) and len(x) == 3 and x[1] in ("L", "G", "H"):
        ax, b, d = x
        n = {"latitude": "j", "longitude": "i", "level": "l"}.get(ax, str(ax))
        if b == "G":
            return n + (f"{d:+d}" if d else "")
        if b == "L":
            return str(d)
        return f"{-1 - d}"
    return str(x)


def show(p: Poly, depth=0, limit=8) -> str:
    if not p.t:
        return "0"
    out = []
    items = sorted(p.t.items(), key=lambda x: (len(x[0]), x[0]))
    for n, (m, c) in enumerate(items):
        if n >= limit:
            out.append(f"... ({len(items)} terms)")
            break
        s = "*".join(
            show_atom(a, depth) + (f"^{e}" if e != 1 else "") for a, e in m
        )
        if c == 1 and s:
            out.append(s)
        elif c == -1 and s:
            out.append("-" + s)
        else:
            cs = str(c) if c.denominator < 10**6 else f"{float(c):.6g}"
            out.append(cs + ("*" + s if s else ""))
    return " + ".join(out)


# --- valuations ---------------------------------------------------------------
class Rnd:
    """Small deterministic generator (splitmix64)."""

    __slots__ = ("s",)
    M = (1 << 64) - 1

    def __init__(self, s):
        self.s = s & self.M

    def random(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & self.M
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & self.M
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & self.M
        z ^= z >> 31
        return (z >> 11) / float(1 << 53)

    def choice(self, xs):
        return xs[int(self.random() * len(xs))]

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randint(self, a, b):
        return a + int(self.random() * (b - a + 1))


EPS = 2.3e-16
_keyhash: dict = {}


class Valuation:
    """A deterministic pseudo-random assignment of the atoms.

    Every value carries a bound on its rounding error, so that equality and
    sign are decided up to that bound.
    """

    def __init__(self, seed: int, chooser=None, style="mixed"):
        self.seed = seed
        self.v: dict[int, tuple] = {}
        self.chooser = chooser
        self.style = style
        self.pc: dict[int, tuple] = {}

    def rnd(self, key) -> Rnd:
        return Rnd(hash((self.seed, key)) * 0xD1342543DE82EF95 + self.seed)

    def atom(self, a: int) -> float:
        return self.atom_e(a)[0]

    def atom_e(self, a: int) -> tuple:
        v = self.v.get(a)
        if v is None:
            v = self.v[a] = self._atom(a)
        return v

    def _atom(self, a):
        k = ATOMS[a]
        if k[0] == "gt0":
            x, e = self.poly_e(POLY_BY_ID(k[1]))
            return (1.0 if x > 8 * e + 1e-13 else 0.0), 0.0
        if k[0] == "eq0":
            x, e = self.poly_e(POLY_BY_ID(k[1]))
            return (1.0 if abs(x) <= 8 * e + 1e-13 else 0.0), 0.0
        if k[0] == "inv":
            x, e = self.poly_e(POLY_BY_ID(k[1]))
            if abs(x) <= 8 * e + 1e-300:
                return 0.0, 0.0
            return 1.0 / x, e / (x * x) + EPS / abs(x)
        if k[0] == "let":
            return self.poly_e(POLY_BY_ID(k[1]))
        if k[0] == "fn":
            v = self.special(k)
            if v is not None:
                return v
            key = ("fn", k[1]) + tuple(
                round(self.poly(POLY_BY_ID(x[1])), 6) if x[0] == "p" else x[1] for x in k[2:])
        elif k[0] == "sum":  # linear: as if every cell had the value of the generic one
            n = self.atom(atom(("sym", "size", k[1]), pos=True)) + 8 + (k[3] if len(k) > 3 else 0)
            x, e = self.poly_e(POLY_BY_ID(k[2]))
            return n * x, n * e + EPS * abs(n * x)
        else:
            key = k
        r = self.rnd(key)
        v = None
        if self.chooser:
            v = self.chooser(k, r)
            if v is not None and k[0] == "sym" and getattr(self.chooser, "scale", None) is not None:
                v *= self.chooser.scale(k, self.seed)
        if v is None:
            if a in BOOL:
                v = float(r.random() < 0.5)
            elif a in POS:
                v = float(r.choice([1, 2, 3, 4])) if r.random() < 0.5 else r.uniform(0.2, 4)
            elif a in NONNEG:
                v = float(r.choice([0, 1, 2, 3])) if r.random() < 0.5 else r.uniform(0, 4)
            else:
                v = float(r.choice([-2, -1, 0, 1, 2])) if r.random() < 0.5 else r.uniform(-3, 3)
        return float(v), 0.0

    def special(self, k):
        name = k[1]
        if name == "sum_nonuniform":  # linear: each kind of cell once
            t = u = 0.0
            for x in k[2:]:
                y, e = self.poly_e(POLY_BY_ID(x[1]))
                t, u = t + y, u + e + EPS * abs(y)
            return t, u
        if name in ("argsort", "pick", "argmin", "argmax"):
            return self.select(name, k)
        if name == "anyzero":
            for n in range(2, len(k), 2):
                x, e = self.poly_e(POLY_BY_ID(k[n + 1][1]))
                if abs(x) <= 8 * e + 1e-13 and self.poly(POLY_BY_ID(k[n][1])):
                    return 1.0, 0.0
            return 0.0, 0.0
        if name in CLOCK and k[2][0] == "p" or name == "treplace":
            return self.clock(name, k)
        if name in MATHFN and len(k) == 3 and k[2][0] == "p":
            try:
                x, e = self.poly_e(POLY_BY_ID(k[2][1]))
                if name in ("floor", "trunc") and abs(x - round(x)) <= 8 * e:
                    x = round(x)
                elif name == "round" and abs(2 * x - round(2 * x)) <= 16 * e:
                    x = round(2 * x) / 2
                y = MATHFN[name](x)
                return float(y), (0.0 if name in ("floor", "trunc", "round") else e * (abs(y) + 1) + EPS * abs(y))
            except (ValueError, OverflowError):
                return 0.0, 0.0
        return None

    def clock(self, name, k):
        """Time of day, times in seconds since some midnight."""
        x, e = self.poly_e(POLY_BY_ID(k[2][1]))
        if abs(x * 1e6 - round(x * 1e6)) <= 8e6 * e + 1e-3:
            x = round(x * 1e6) / 1e6
        if name != "treplace":
            return float(CLOCK[name](x)), 0.0
        new = {y[1][0]: clock_value(y[1][1]) for y in k[3:]}
        if not all(n in CLOCK and v is not None for n, v in new.items()):
            return None
        x = x - sum(CLOCK[n](x) * CLOCK_UNIT[n] for n in new) + sum(v * CLOCK_UNIT[n] for n, v in new.items())
        return x, e

    def select(self, name, k):
        """Order and selection over an axis of known length."""
        ps = [POLY_BY_ID(x[1]) for x in k[2:] if x[0] == "p"]
        if name == "pick":
            n = self.poly(ps[0])
            m = int(round(n))
            if abs(n - m) > 1e-6:
                return 0.0, 0.0
            if m < 0:
                m += len(ps) - 1
            return self.poly_e(ps[1 + m]) if 0 <= m < len(ps) - 1 else (0.0, 0.0)
        xs = [self.poly(p) for p in ps]
        if name == "argsort":
            n = next(x[1] for x in k[2:] if x[0] == "k")
            return float(sorted(range(len(xs)), key=lambda i: (xs[i], i))[n]), 0.0
        return float(xs.index(min(xs) if name == "argmin" else max(xs))), 0.0

    def poly(self, p: Poly) -> float:
        return self.poly_e(p)[0]

    def poly_e(self, p: Poly) -> tuple:
        pid = p.ident()
        r = self.pc.get(pid)
        if r is not None:
            return r
        fl = _floats.get(pid)
        if fl is None:
            fl = _floats[pid] = [(float(c), m) for m, c in p.t.items()]
        tot = err = 0.0
        av = self.v
        for x, m in fl:
            rel = EPS
            for a, e in m:
                w = av.get(a)
                if w is None:
                    w = self.atom_e(a)
                v, de = w
                if v == 0.0:
                    if e > 0 and de:
                        err += abs(x) * de
                    x = 0.0
                    break
                if e == 1:
                    x *= v
                else:
                    try:
                        x *= v ** e
                    except OverflowError:
                        x = 0.0
                        break
                rel += EPS
                if de:
                    rel += abs(e) * de / abs(v)
            if x:
                tot += x
                err += abs(x) * rel + EPS * abs(tot)
        self.pc[pid] = r = (tot, err)
        return r


_floats: dict = {}


MATHFN = {"sin": math.sin, "cos": math.cos, "exp": math.exp, "floor": math.floor, "tan": math.tan, "log": math.log, "log10": math.log10,
          "log2": math.log2, "sqrt": math.sqrt, "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan, "sinh": math.sinh,
          "cosh": math.cosh, "tanh": math.tanh, "expm1": math.expm1, "log1p": math.log1p, "trunc": math.trunc, "round": round}


CLOCK_UNIT = {"hour": 3600, "minute": 60, "second": 1, "microsecond": 1e-6}
CLOCK = {"hour": lambda x: x // 3600 % 24, "minute": lambda x: x // 60 % 60, "second": lambda x: x // 1 % 60, "microsecond": lambda x: round(x % 1 * 1e6),
         "td_days": lambda x: x // 86400, "td_seconds": lambda x: x // 1 % 86400, "td_microseconds": lambda x: round(x % 1 * 1e6),
         "td_nanoseconds": lambda x: 0, "td_c_hours": lambda x: x // 3600 % 24, "td_c_minutes": lambda x: x // 60 % 60,
         "td_c_seconds": lambda x: x // 1 % 60, "td_c_milliseconds": lambda x: round(x % 1 * 1000), "td_c_microseconds": lambda x: 0,
         "td_c_nanoseconds": lambda x: 0}


def clock_value(f):
    return f if isinstance(f, int) else f[1] if isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], int) else None


def clock_known(k):
    """Has an operation on times a meaning?"""
    return k[1] in CLOCK or k[1] == "treplace" and all(x[0] == "k" and x[1][0] in CLOCK_UNIT and clock_value(x[1][1]) is not None for x in k[3:])


def apart(v: Valuation, a: Poly, b: Poly, tol=1e-7) -> bool:
    """Do the two terms differ under v, beyond rounding?"""
    (x, ex), (y, ey) = v.poly_e(a), v.poly_e(b)
    return abs(x - y) > tol * max(abs(x), abs(y)) + 32 * (ex + ey) + 1e-12


def exceeds(v: Valuation, a: Poly, b: Poly, tol=1e-7) -> bool:
    """Is a > b under v, beyond rounding?"""
    (x, ex), (y, ey) = v.poly_e(a), v.poly_e(b)
    return x - y > tol * max(abs(x), abs(y)) + 32 * (ex + ey) + 1e-12


def differ(a, b, chooser=None, tries=300, seed=1, assume=None):
    """A valuation on which the two terms differ, or None."""
    a, b = P(a), P(b)
    for n in range(tries):
        v = Valuation(seed * 100003 + n, chooser)
        if assume is not None and not assume(v):
            continue
        if apart(v, a, b):
            return v, v.poly(a), v.poly(b)
    return None
