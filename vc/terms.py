"""Terms of the verifier: hash-consed polynomials over atoms, with a normal form for finite sums.

A Poly is a map monomial -> Fraction.  A monomial is a tuple of (atom, integer exponent) sorted by atom id.
Atoms: variables, applications of uninterpreted functions, sums over 0 <= #h < hi, exp/ln/sqrt/abs/floor, indicators of
literals ([c]^2 = [c]), parenthesised denominators, max/min folds.  Conditions (class B) are a boolean layer over
p <= 0, p < 0, p = 0.  Equality of normal forms is identity of objects.
"""
from fractions import Fraction
import itertools

F0, F1 = Fraction(0), Fraction(1)

# permutations of 0..n-1 introduced by sorting and shuffling: name -> n (identity outside the range)
perms = {}
# definitional unfolding of function symbols: name -> fn(args) giving a Poly, or None when the context does not decide it
lazy = {}


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("kind", "data", "sort", "id", "fv", "height", "_hash")

    def __repr__(self):
        return show_atom(self)


_atoms = {}
_polys = {}
_bs = {}
_ctr = itertools.count(1)
# hook: (B) -> True / False / None  decides a condition in the current context (set by the prover)
decide_hook = None
# identity of the current context; part of every cache key, because some rewrites ask decide_hook
ctx_id = [0]


def decide(b):
    if b is TRUE: return True
    if b is FALSE: return False
    if decide_hook is None: return None
    return decide_hook(b)


def _children_info(xs):
    fv = frozenset(); h = 0
    for x in xs:
        if isinstance(x, (Poly, B, Atom)):
            fv |= x.fv
            if x.height > h: h = x.height
    return fv, h


def mk_atom(kind, data, sort):
    key = (kind, data, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data, a.sort = kind, data, sort
        a.id = len(_atoms)
        if kind == "var":
            a.fv = frozenset([a]); a.height = 0
        elif kind == "sum":
            his, body, base = data  # bound variables #base+1 .. #base+len(his)
            fv, h = _children_info(list(his) + [body])
            bound = frozenset(bvar(base + i + 1) for i in range(len(his)))
            a.fv = fv - bound
            a.height = base + len(his)
        elif kind == "fold":
            op, hi, body, init, base = data
            fv, h = _children_info([hi, init] + list(body))
            a.fv = fv - frozenset([bvar(base + 1)])
            a.height = base + 1
        else:
            flat = []
            for x in data:
                if isinstance(x, tuple): flat.extend(x)
                else: flat.append(x)
            a.fv, a.height = _children_info(flat)
        a._hash = hash(key)
        _atoms[key] = a
    return a


_bvars = {}


def bvar(i):
    a = _bvars.get(i)
    if a is None:
        a = _bvars[i] = None
        key = ("var", ("#%d" % i,), "I")
        a = Atom(); a.kind, a.data, a.sort = "var", ("#%d" % i,), "I"
        a.id = len(_atoms); a.fv = frozenset([a]); a.height = 0; a._hash = hash(key)
        _atoms[key] = a
        _bvars[i] = a
    return a


def fresh(prefix="k", sort="I"):
    return mk_atom("var", ("%s!%d" % (prefix, next(_ctr)),), sort)


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ("t", "fv", "height", "_key")

    def __repr__(self):
        return show(self)

    def __add__(self, o): return add(self, P(o))
    def __radd__(self, o): return add(P(o), self)
    def __sub__(self, o): return add(self, scale(P(o), -F1))
    def __rsub__(self, o): return add(P(o), scale(self, -F1))
    def __neg__(self): return scale(self, -F1)
    def __mul__(self, o): return mul(self, P(o))
    def __rmul__(self, o): return mul(P(o), self)
    def __truediv__(self, o): return mul(self, inv(P(o)))
    def __rtruediv__(self, o): return mul(P(o), inv(self))
    def __pow__(self, n): return power(self, n)


def mkpoly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=_mkey))
    p = _polys.get(items)
    if p is None:
        p = Poly()
        p.t = dict(items)
        fv = frozenset(); h = 0
        for m, _ in items:
            for a, _e in m:
                fv |= a.fv
                if a.height > h: h = a.height
        p.fv, p.height = fv, h
        p._key = len(_polys)
        _polys[items] = p
    return p


def _mkey(mc):
    return tuple((a.id, e) for a, e in mc[0])


def const(c):
    return mkpoly({(): Fraction(c)})


def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return mkpoly({((x, 1),): F1})
    if isinstance(x, (int, Fraction)): return const(x)
    if isinstance(x, float): return const(Fraction(repr(x)) if "e" not in repr(x) else Fraction(x).limit_denominator(10**30))
    raise TypeError("not a term: %r" % (x,))


def var(name, sort="R"):
    return P(mk_atom("var", (name,), sort))


def is_const(p):
    if not p.t: return F0
    if len(p.t) == 1 and () in p.t: return p.t[()]
    return None


def add(p, q):
    if not p.t: return q
    if not q.t: return p
    d = dict(p.t)
    for m, c in q.t.items():
        d[m] = d.get(m, F0) + c
    return mkpoly(d)


def scale(p, c):
    if c == 1: return p
    return mkpoly({m: k * c for m, k in p.t.items()})


_mulcache = {}


def mul(p, q):
    if not p.t or not q.t: return ZERO
    c = is_const(p)
    if c is not None: return scale(q, c)
    c = is_const(q)
    if c is not None: return scale(p, c)
    key = (p, q, ctx_id[0])
    r = _mulcache.get(key)
    if r is not None: return r
    # p * par(p)^-1 with proportional parts cancels
    d = {}
    extra = []
    for A, Bp in ((p, q), (q, p)):
        if len(A.t) == 1 and len(Bp.t) > 1:
            (m, c), = A.t.items()
            for a, e in m:
                if a.kind == "par" and e < 0:
                    ratio = proportional(Bp, a.data[0])
                    if ratio is not None:
                        m2 = _mono_mul(m, ((a, 1),))[0]
                        r = scale(mkpoly({m2[0]: c * m2[1]}) if isinstance(m2, tuple) and len(m2) == 2 and isinstance(m2[1], Fraction) else mkpoly({m2: c}), ratio)
                        _mulcache[key] = r
                        return r
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            res = _mono_mul(m1, m2)
            if len(res) == 1:
                m, c = res[0]
                d[m] = d.get(m, F0) + c * c1 * c2
            else:
                # the product of two monomials was itself a polynomial
                for m, c in res:
                    d[m] = d.get(m, F0) + c * c1 * c2
    r = mkpoly(d)
    _mulcache[key] = r
    return r


def proportional(p, q):
    """c with p == c*q, or None"""
    if len(p.t) != len(q.t): return None
    r = None
    for m, c in p.t.items():
        k = q.t.get(m)
        if k is None: return None
        if r is None: r = c / k
        elif c / k != r: return None
    return r


def _mono_mul(m1, m2):
    """product of monomials as a list [(monomial, coef)] with numeric coefs"""
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    exps = None; poly_extra = []
    out = []
    zero = False
    for a, e in d.items():
        if e == 0: continue
        k = a.kind
        if k == "ind":
            e = 1
        elif k == "exp":
            arg = scale(a.data[0], Fraction(e))
            exps = arg if exps is None else add(exps, arg)
            continue
        elif k == "sqrt" and (e >= 2 or e <= -2):
            h = int(e / 2)
            poly_extra.append(power(a.data[0], h))
            e -= 2 * h
            if e == 0: continue
        elif k == "abs" and e >= 2:
            h = e // 2
            poly_extra.append(power(a.data[0], 2 * h))
            e -= 2 * h
            if e == 0: continue
        elif k == "par" and e > 0:
            poly_extra.append(power(a.data[0], e))
            continue
        out.append((a, e))
    # contradictory / implied indicators
    inds = [a for a, _ in out if a.kind == "ind"]
    if len(inds) > 1:
        keep = _simplify_inds(inds)
        if keep is None: return [((), F0)]
        if len(keep) != len(inds):
            ks = set(keep)
            out = [(a, e) for a, e in out if a.kind != "ind" or a in ks]
    if inds:
        # f(i) * [p(i)] is f(i) for functions that vanish where p does not hold
        for l in inds:
            b = l.data[0]
            if b.kind == "bapp" and any(e > 0 and a.kind == "app" and absent.get(a.data[0]) == b.data[0] and a.data[1] == b.data[1] for a, e in out):
                out = [x for x in out if x[0] is not l]
    if inds:
        # x * [x = c] is c * [x = c]
        co = F1; hit = False
        for l in inds:
            b = l.data[0]
            if b.kind != "eq": continue
            q = b.data[0]
            if len(q.t) == 1:
                (mm, cc), = q.t.items()
                if any(e > 0 and a.kind == "abs" and a.data[0] is q or (a.kind == "abs" and a.data[0] is scale(q, -F1)) for a, e in out): return [((), F0)]
            val = _single_eq(q)
            if val is None: continue
            xa, c0 = val
            for i, (a, e) in enumerate(out):
                if a is xa and (c0 != 0 or e > 0):
                    co *= c0 ** e; out = out[:i] + out[i + 1:]; hit = True
                    break
        if hit:
            if co == 0: return [((), F0)]
            poly_extra.append(const(co))
    if exps is not None:
        ep = exp(exps)
        if len(ep.t) == 1:
            (m, c), = ep.t.items()
            has_exp_only = all(a.kind == "exp" for a, _ in m)
            if has_exp_only:
                out.extend(m)
                base = [(tuple(sorted(out, key=lambda x: x[0].id)), c)]
            else:
                poly_extra.append(mkpoly({tuple((a, e) for a, e in m): c}))
                base = [(tuple(sorted(out, key=lambda x: x[0].id)), F1)]
        else:
            poly_extra.append(ep)
            base = [(tuple(sorted(out, key=lambda x: x[0].id)), F1)]
    else:
        base = [(tuple(sorted(out, key=lambda x: x[0].id)), F1)]
    if poly_extra:
        r = mkpoly(dict(base))
        for x in poly_extra: r = mul(r, x)
        return list(r.t.items()) or [((), F0)]
    return base


# functions f (by name) that are zero wherever the predicate does not hold: f(i) != 0 implies p(i); the contract that
# uses these names assumes it
absent = {"wt_in": "has_in"}


def _single_eq(q):
    """(a, c) when q = 0 says a = c for one atom a"""
    xa = None; c0 = F0; co = None
    if len(q.t) > 2: return None
    for m, c in q.t.items():
        if m == (): c0 = c
        elif len(m) == 1 and m[0][1] == 1 and xa is None: xa = m[0][0]; co = c
        else: return None
    if xa is None or xa.sort not in ("R", "I"): return None
    return xa, -c0 / co


_indcache = {}


def _simplify_inds(inds):
    """None if the literals contradict each other syntactically; drops implied ones."""
    key = frozenset(inds)
    r = _indcache.get(key, 0)
    if r != 0: return r
    keep = list(inds)
    res = keep
    lits = [a.data[0] for a in inds]
    for i, x in enumerate(lits):
        for j, y in enumerate(lits):
            if i < j:
                rel = lit_rel(x, y)
                if rel == "contra":
                    _indcache[key] = None
                    return None
    drop = set()
    for i, x in enumerate(lits):
        for j, y in enumerate(lits):
            if i != j and i not in drop and j not in drop and lit_implies(x, y):
                drop.add(j)
    res = [a for i, a in enumerate(keep) if i not in drop]
    _indcache[key] = res
    return res


def lit_implies(x, y):
    """cheap syntactic: x => y"""
    if x is y: return True
    if x.kind in ("le", "lt", "eq") and y.kind in ("le", "lt"):
        d = add(y.data[0], scale(x.data[0], -F1))  # y = x + d
        c = is_const(d)
        if c is not None:
            # x: px <= 0 (or <, =);  y: px + c <= 0
            if c < 0: return True
            if c == 0: return not (x.kind in ("le", "eq") and y.kind == "lt")
        if x.kind == "eq":
            d = add(y.data[0], x.data[0]); c = is_const(d)
            if c is not None and (c < 0 or (c == 0 and y.kind == "le")): return True
    return False


def lit_rel(x, y):
    if x.kind in ("le", "lt", "eq") and y.kind in ("le", "lt", "eq"):
        # sum of the two: px + py <= 0 must be possible
        if x.kind == "eq" or y.kind == "eq":
            cands = []
            if x.kind == "eq" and y.kind == "eq":
                for s in (1, -1):
                    c = is_const(add(x.data[0], scale(y.data[0], Fraction(s))))
                    if c is not None and c != 0: return "contra"
                return None
            e, o = (x, y) if x.kind == "eq" else (y, x)
            for s in (1, -1):
                c = is_const(add(o.data[0], scale(e.data[0], Fraction(s))))
                if c is not None and (c > 0 or (c == 0 and o.kind == "lt")): return "contra"
            return None
        c = is_const(add(x.data[0], y.data[0]))
        if c is not None and (c > 0 or (c == 0 and (x.kind == "lt" or y.kind == "lt"))): return "contra"
    return None


def power(p, n):
    if n == 0: return ONE
    if n < 0: return power(inv(p), -n)
    r = p; 
    for _ in range(n - 1): r = mul(r, p)
    return r


def content(p):
    """leading coefficient (of the first monomial in order)"""
    for m in p.t: return p.t[m]


def inv(p):
    c = is_const(p)
    if c is not None:
        if c == 0: raise Unsupported("division by the constant zero")
        return const(1 / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if any(a.kind == "ind" for a, _ in m):
            raise Unsupported("division by a conditional zero")
        r = const(1 / c)
        for a, e in m:
            if a.kind == "exp": r = mul(r, exp(scale(a.data[0], Fraction(-e))))
            else: r = mul(r, mkpoly({((a, -e),): F1}))
        return r
    # lift conditionals out of a denominator
    lits = top_inds(p)
    if lits and len(lits) <= 6:
        return lift1(p, lits, inv)
    # common monomial factor
    g = common_monomial(p)
    if g:
        gm = mkpoly({g: F1})
        return mul(inv(gm), inv(mul(p, inv(gm))))
    lc = content(p)
    q = scale(p, 1 / lc)
    return mkpoly({((mk_atom("par", (q,), "R"), -1),): 1 / lc})


def common_monomial(p):
    it = iter(p.t)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(first):
            e = d.get(a, 0)
            f = first[a]
            # common power: the smaller exponent towards the sign
            if f > 0 and e > 0: first[a] = min(f, e)
            elif f < 0 or e < 0:
                first[a] = min(f, e)
            else: del first[a]
        for a, e in d.items():
            if e < 0 and a not in first: first[a] = e
    first = {a: e for a, e in first.items() if e != 0 and a.kind != "ind"}
    # atoms with negative exponents in only some monomials
    return tuple(sorted(first.items(), key=lambda x: x[0].id))


# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ("kind", "data", "id", "fv", "height")

    def __repr__(self):
        return show_b(self)


def mk_b(kind, data):
    key = (kind, data)
    b = _bs.get(key)
    if b is None:
        b = B(); b.kind, b.data, b.id = kind, data, len(_bs)
        if kind in ("forall", "exists"):
            hi, body, base = data
            fv, h = _children_info([hi, body])
            b.fv = fv - frozenset([bvar(base + 1)])
            b.height = base + 1
        else:
            flat = []
            for x in data:
                if isinstance(x, tuple): flat.extend(x)
                else: flat.append(x)
            b.fv, b.height = _children_info(flat)
        _bs[key] = b
    return b


TRUE = mk_b("true", ())
FALSE = mk_b("false", ())


def bconst(x): return TRUE if x else FALSE


def isint(p):
    """every atom of p is integer sorted (and all coefficients integers)"""
    for m, c in p.t.items():
        if c.denominator != 1: return False
        for a, e in m:
            if e < 0: return False
            if a.kind == "ind": continue
            if a.sort != "I": return False
    return True


def _norm_lit(p):
    """scale to a canonical positive multiple"""
    lc = abs(content(p))
    if isint(p):
        from math import gcd
        g = 0
        for m, c in p.t.items():
            if m != (): g = gcd(g, abs(c.numerator))
        if g > 1: return p, g
        return p, None
    return scale(p, 1 / lc), None


def _clear_denominators(p):
    """multiply by positive denominators; e^(sums of logarithms) becomes a product"""
    if any(e < 0 and a.kind != "exp" for m in p.t for a, e in m):
        n, d = numer_denom(p)
        if d is not ONE and known_pos(d): p = n
    return p


def _unlog(p):
    """for an inequality p <= 0 whose logarithms have integer coefficients: the polynomial e^p - 1"""
    ls = [(m, c) for m, c in p.t.items() if any(a.kind == "ln" for a, _ in m)]
    if not ls: return None
    if not all(len(m) == 1 and m[0][1] == 1 and c.denominator == 1 and abs(c) <= 3 for m, c in ls): return None
    if any(a.kind == "exp" for m in p.t for a, _ in m): return None
    if all(is_const(m[0][0].data[0]) is not None for m, c in ls): return None
    if not all(known_pos(m[0][0].data[0]) for m, c in ls): return None
    try: return exp(p) - ONE
    except Unsupported: return None


def _strip_positive(p):
    """divide by known positive common factors"""
    p = _clear_denominators(p)
    g = common_monomial(p) if len(p.t) > 0 else ()
    fac = tuple((a, e) for a, e in g if a.kind == "exp")
    if fac:
        for a, e in fac:
            p = mul(p, exp(scale(a.data[0], Fraction(-e))))
    return p


def _lift_b(p, f):
    lits = top_inds(p)
    if not lits: return None
    if len(lits) > 8: return None
    c = lits[0]
    return bor(band(c, f(set_ind(p, c, True))), band(bnot(c), f(set_ind(p, c, False))))


def le0(p):
    c = is_const(p)
    if c is not None: return bconst(c <= 0)
    r = _lift_b(p, le0)
    if r is not None: return r
    p = _strip_positive(p)
    c = is_const(p)
    if c is not None: return bconst(c <= 0)
    q = _unlog(p)
    if q is not None: return le0(q)
    p, g = _norm_lit(p)
    if g is not None:  # integer: sum/g + c0 <= 0  ->  sum/g <= floor(-c0/g)
        d = {m: k / g for m, k in p.t.items() if m != ()}
        c0 = p.t.get((), F0)
        import math
        d[()] = -Fraction(math.floor(-c0 / g))
        p = mkpoly(d)
    return mk_b("le", (p,))


def lt0(p):
    c = is_const(p)
    if c is not None: return bconst(c < 0)
    r = _lift_b(p, lt0)
    if r is not None: return r
    if isint(p): return le0(add(p, ONE))
    p = _strip_positive(p)
    c = is_const(p)
    if c is not None: return bconst(c < 0)
    q = _unlog(p)
    if q is not None: return lt0(q)
    p, _ = _norm_lit(p)
    return mk_b("lt", (p,))


def eq0(p):
    c = is_const(p)
    if c is not None: return bconst(c == 0)
    r = _lift_b(p, eq0)
    if r is not None: return r
    p = _strip_positive(p)
    c = is_const(p)
    if c is not None: return bconst(c == 0)
    if isint(p):
        if perms:
            q = _perm_eq(p)
            if q is not None: return eq0(q)
        from math import gcd
        g = 0
        for m, c in p.t.items():
            if m != (): g = gcd(g, abs(c.numerator))
        if g > 1:
            if (p.t.get((), F0) / g).denominator != 1: return FALSE
            p = scale(p, Fraction(1, g))
        lc = content_nonconst(p)
        if lc < 0: p = scale(p, -F1)
    else:
        p = scale(p, 1 / content_nonconst(p))
    return mk_b("eq", (p,))


def _perm_eq(p):
    """a permutation is a bijection of the integers (the identity outside its range):
    perm(a) = perm(b) becomes a = b, perm(a) = t becomes a = inverse(t)"""
    ps = [(m[0][0], c) for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind == "app" and (m[0][0].data[0] in perms or m[0][0].data[0][4:] in perms)]
    for a, c in ps:
        for b, d in ps:
            if a is not b and a.data[0] == b.data[0] and c == -d and len(p.t) == 2: return a.data[1][0] - b.data[1][0]
    for a, c in ps:
        if a.data[0] not in perms: continue
        t = scale(p - scale(P(a), c), -1 / c)
        if any(b.kind == "app" and b.data[0] == a.data[0] for m in t.t for b, _ in m): continue
        return a.data[1][0] - app("inv:" + a.data[0], (t,), "I")
    return None


def content_nonconst(p):
    for m in p.t:
        if m != (): return p.t[m]
    return content(p)


def le(a, b): return le0(P(a) - P(b))
def lt(a, b): return lt0(P(a) - P(b))
def eq(a, b): return eq0(P(a) - P(b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def bnot(b):
    k = b.kind
    if k == "true": return FALSE
    if k == "false": return TRUE
    if k == "not": return b.data[0]
    if k == "le": return lt0(-b.data[0])
    if k == "lt": return le0(-b.data[0])
    if k == "and": return bor(*[bnot(x) for x in b.data])
    if k == "or": return band(*[bnot(x) for x in b.data])
    if k in ("forall", "exists"):
        hi, body, base = b.data
        return mk_b("exists" if k == "forall" else "forall", (hi, bnot(body), base))
    return mk_b("not", (b,))


def band(*xs):
    out = []
    for x in xs:
        if x.kind == "and": out.extend(x.data)
        else: out.append(x)
    s = {}
    for x in out:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        s[x.id] = x
    vs = [s[i] for i in sorted(s)]
    for x in vs:
        n = bnot(x) if x.kind not in ("and", "or") else None
        if n is not None and n.kind not in ("and", "or") and n.id in s: return FALSE
    if not vs: return TRUE
    if len(vs) == 1: return vs[0]
    return mk_b("and", tuple(vs))


def bor(*xs):
    out = []
    for x in xs:
        if x.kind == "or": out.extend(x.data)
        else: out.append(x)
    s = {}
    for x in out:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        s[x.id] = x
    vs = [s[i] for i in sorted(s)]
    for x in vs:
        if x.kind not in ("and", "or"):
            n = bnot(x)
            if n.id in s: return TRUE
    # (c and A) or (not c and A) -> A ; absorb
    if len(vs) == 2:
        A, Bb = [set(v.data) if v.kind == "and" else {v} for v in vs]
        common = A & Bb
        ra, rb = A - common, Bb - common
        if not ra or not rb: return band(*common)
        if len(ra) == 1 and len(rb) == 1:
            x, y = next(iter(ra)), next(iter(rb))
            if bnot(x) is y: return band(*common)
    if not vs: return FALSE
    if len(vs) == 1: return vs[0]
    return mk_b("or", tuple(vs))


def implies(a, b): return bor(bnot(a), b)
def iff(a, b): return band(implies(a, b), implies(b, a))


def eqo(a, b):
    """equality on an opaque sort"""
    a, b = P(a), P(b)
    if a is b: return TRUE
    for p, q in ((a, b), (b, a)):
        lits = top_inds(p)
        if lits:
            c = lits[0]
            return bor(band(c, eqo(set_ind(p, c, True), q)), band(bnot(c), eqo(set_ind(p, c, False), q)))
    if a._key > b._key: a, b = b, a
    return mk_b("eqo", (a, b))


def bvarb(name):
    return mk_b("bvar", (name,))


def bapp(f, args):
    return mk_b("bapp", (f, tuple(args)))


def bquant(kind, v, hi, body):
    """forall/exists 0 <= v < hi: body"""
    hi = P(hi)
    c = is_const(hi)
    if c is not None and c <= 0: return bconst(kind == "forall")
    if body in (TRUE,) and kind == "forall": return TRUE
    if body is FALSE and kind == "exists": return FALSE
    if v not in body.fv:
        if kind == "forall": return bor(body, le0(hi))
        return band(body, lt0(-hi))
    h = max(body.height, hi.height)
    return mk_b(kind, (hi, bsubst(body, {v: P(bvar(h + 1))}), h))


def forall(v, hi, body): return bquant("forall", v, hi, body)
def exists(v, hi, body): return bquant("exists", v, hi, body)


# ------------------------------------------------------------------ indicators
def ind(b):
    k = b.kind
    if k == "true": return ONE
    if k == "false": return ZERO
    if k == "and":
        r = ONE
        for x in b.data: r = mul(r, ind(x))
        return r
    if k == "or":
        r = ONE
        for x in b.data: r = mul(r, sub1(ind(x)))
        return sub1(r)
    if k == "not": return sub1(ind(b.data[0]))
    n = bnot(b)
    if b.kind == "exists": return sub1(ind(n))
    # of a comparison and its negation one is chosen, in a way that does not depend on names
    if n.kind in ("le", "lt") and (b.data[0].t.get((), F0) > 0 if n.kind == b.kind else n.kind == "lt"):
        return sub1(mkpoly({((mk_atom("ind", (n,), "I"), 1),): F1}))
    return mkpoly({((mk_atom("ind", (b,), "I"), 1),): F1})


def sub1(p): return ONE - p


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return b + ind(c) * (a - b)


def top_inds(p):
    s = {}
    for m in p.t:
        for a, _ in m:
            if a.kind == "ind": s[a.id] = a
    return [s[i].data[0] for i in sorted(s)]


def set_ind(p, lit, val):
    """value of p when the literal is known (also through syntactically related literals)"""
    neg = bnot(lit)
    d = {}
    for m, c in p.t.items():
        keep = []; dead = False
        for a, e in m:
            if a.kind == "ind":
                x = a.data[0]
                r = None
                if x is lit: r = val
                elif x is neg: r = not val
                else:
                    known = lit if val else neg
                    if known.kind not in ("and", "or"):
                        if lit_implies(known, x): r = True
                        elif lit_rel(known, x) == "contra": r = False
                if r is True: continue
                if r is False: dead = True; break
            keep.append((a, e))
        if dead: continue
        m2 = tuple(keep)
        d[m2] = d.get(m2, F0) + c
    return mkpoly(d)


def lift1(p, lits, f):
    """f(p) with the conditionals of p lifted out of f"""
    if not lits: return f(p)
    c = lits[0]
    a, b = set_ind(p, c, True), set_ind(p, c, False)
    if a is b: return lift1(a, top_inds(a), f)
    try: A = lift1(a, top_inds(a), f)
    except Unsupported: A = None
    try: Bv = lift1(b, top_inds(b), f)
    except Unsupported: Bv = None
    if A is None and Bv is None: raise Unsupported("undefined in both cases")
    if A is None: return Bv
    if Bv is None: return A
    return ite(c, A, Bv)


# ------------------------------------------------------------------ functions
def app(f, args, sort="R"):
    args = tuple(P(a) if not isinstance(a, B) else a for a in args)
    if len(args) == 1 and isinstance(args[0], Poly) and len(args[0].t) == 1:
        # a permutation and its inverse cancel
        (m, c), = args[0].t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app":
            g = m[0][0].data[0]
            if (g == "inv:" + f and f in perms) or (f == "inv:" + g and g in perms): return m[0][0].data[1][0]
    for i, a in enumerate(args):
        if isinstance(a, Poly):
            lits = top_inds(a)
            if lits and len(lits) <= 6:
                return lift1(a, lits, lambda x, i=i: app(f, args[:i] + (x,) + args[i + 1:], sort))
    if f in lazy:
        r = lazy[f](*args)
        if r is not None: return r
    return P(mk_atom("app", (f, args), sort))


MAXLIFT = 6


def _lifting(name):
    def deco(fn):
        def g(p):
            p = P(p)
            lits = top_inds(p)
            if lits and len(lits) <= MAXLIFT: return lift1(p, lits, g)
            return fn(p)
        return g
    return deco


# every use of exp(ln x) = x, ln(xy) = ln x + ln y, sqrt... asks for x > 0 here
positivity_needed = []


def known_pos(p):
    """is p > 0 (syntactically, or in the current context)"""
    r = syn_sign(p)
    if r == 1: return True
    if r is not None and r != 2: return False
    return decide(lt0(-p)) is True


def syn_sign(p):
    """1: > 0, 2: >= 0, None unknown"""
    strict = False
    if not p.t: return 2
    for m, c in p.t.items():
        if c < 0: return None
        pos = True
        for a, e in m:
            s = atom_sign(a)
            if e % 2 == 0:
                pos = pos and s == 1
            elif s == 1: pass
            elif s == 2 and e > 0: pos = False
            else: return None
        if pos: strict = True
    return 1 if strict else 2


def atom_sign(a):
    k = a.kind
    if k == "exp": return 1
    if k in ("sqrt", "abs", "ind"): return 2
    if k == "par": return syn_sign(a.data[0])
    if k == "sum":
        s = syn_sign(mkpoly({a.data[1]: F1}) if isinstance(a.data[1], tuple) else a.data[1])
        return 2 if s else None
    if k == "var" and a.sort == "I" and not a.data[0].startswith("z:"): return 2 if a.data[0].startswith("#") else None
    return None


@_lifting("exp")
def exp(p):
    if not p.t: return ONE
    # integer multiples of ln(q) come out
    r = ONE; rest = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ln" and (c.denominator == 1 or c.denominator == 2):
            q = m[0][0].data[0]
            if known_pos(q):
                if c.denominator == 1: r = mul(r, power(q, int(c)))
                else: r = mul(r, power(sqrt(q), int(c * 2)))
                continue
        rest[m] = c
    rp = mkpoly(rest)
    if not rp.t: return r
    return mul(r, mkpoly({((mk_atom("exp", (rp,), "R"), 1),): F1})) if r is not ONE else mkpoly({((mk_atom("exp", (rp,), "R"), 1),): F1})


@_lifting("ln")
def ln(p):
    c = is_const(p)
    if c is not None:
        if c == 1: return ZERO
        return P(mk_atom("ln", (p,), "R"))
    g = common_monomial(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        rest = []; out = ZERO
        if c > 0:
            allpos = all(a.kind == "exp" or known_pos(P(a)) for a, e in m)
            if allpos:
                for a, e in m:
                    if a.kind == "exp": out = out + scale(a.data[0], Fraction(e))
                    elif a.kind == "par": out = out + scale(ln(a.data[0]), Fraction(e))
                    elif a.kind == "sqrt": out = out + scale(ln(a.data[0]), Fraction(e, 2))
                    else: out = out + scale(P(mk_atom("ln", (P(a),), "R")), Fraction(e))
                if c != 1: out = out + ln(const(c))
                return out
    else:
        # factor out positive common monomial
        if g:
            gm = mkpoly({g: F1})
            q = mul(p, inv(gm))
            if all(a.kind == "exp" or known_pos(P(a)) for a, e in g) and known_pos(q):
                return ln(gm) + ln(q)
        n, d = numer_denom(p)
        if d is not ONE and known_pos(d) and known_pos(n):
            return ln(n) - ln(d)
        # content
        lc = abs(content(p))
        if lc != 1:
            return ln(scale(p, 1 / lc)) + ln(const(lc))
    return P(mk_atom("ln", (p,), "R"))


@_lifting("sqrt")
def sqrt(p):
    c = is_const(p)
    if c is not None and c >= 0:
        from math import isqrt
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator: return const(Fraction(a, b))
    return P(mk_atom("sqrt", (p,), "R"))


@_lifting("abs")
def absv(p):
    c = is_const(p)
    if c is not None: return const(abs(c))
    s = syn_sign(p)
    if s: return p
    s = syn_sign(-p)
    if s: return -p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) > 1 or abs(c) != 1 or m[0][1] != 1:
            r = const(abs(c))
            for a, e in m:
                if a.kind == "exp": r = mul(r, mkpoly({((a, e),): F1}))
                elif a.kind == "par": r = r * power(absv(a.data[0]), e) if e > 0 else r * inv(power(absv(a.data[0]), -e))
                else: r = r * power(absv(P(a)), e)
            return r
    if content(p) < 0: p = -p
    return P(mk_atom("abs", (p,), "R"))


@_lifting("floor")
def floor(p):
    c = is_const(p)
    if c is not None: return const(c.numerator // c.denominator)
    if isint(p): return p
    # integer parts come out
    ip = {}; rp = {}
    for m, c in p.t.items():
        if c.denominator == 1 and all(a.sort == "I" and e > 0 for a, e in m): ip[m] = c
        else: rp[m] = c
    q = mkpoly(rp)
    return mkpoly(ip) + P(mk_atom("floor", (q,), "I"))


def ceil(p): return -floor(-P(p))


def trunc(p):
    p = P(p)
    return ite(le0(-p), floor(p), ceil(p))


def signum(p):
    p = P(p)
    return ite(le0(-p), ONE, -ONE)   # f64::signum(+0.0) = 1


def vmax(a, b):
    a, b = P(a), P(b)
    if a._key > b._key: a, b = b, a
    return ite(lt(a, b), b, a)


def vmin(a, b): return P(a) + P(b) - vmax(a, b)


def powf(x, y):
    c = is_const(P(y))
    if c is not None and c.denominator == 1 and abs(c) < 20: return power(x, int(c))
    x = P(x)
    if known_pos(x): return exp(P(y) * ln(x))
    return app("powf", (x, y))


# ------------------------------------------------------------------ sums
def ssum(v, hi, body):
    """sum of body over 0 <= v < hi"""
    hi = P(hi)
    c = is_const(hi)
    if c is not None:
        if c <= 0: return ZERO
        if c <= 12:
            r = ZERO
            for i in range(int(c)): r = r + subst(body, {v: const(i)})
            return r
    hl = top_inds(hi)
    if hl and len(hl) <= 4:
        return lift1(hi, hl, lambda h: ssum(v, h, body))
    if not body.t: return ZERO
    # constant offset of the bound
    off = hi.t.get((), F0)
    if off != 0 and off.denominator == 1 and abs(off) <= 4:
        base = hi - off
        off = int(off)
        if off > 0 and decide(le0(-base)) is True:
            r = ssum(v, base, body)
            for i in range(off): r = r + subst(body, {v: base + i})
            return r
        if off < 0 and decide(le0(-hi)) is True:
            r = ssum(v, base, body)
            for i in range(-off): r = r - subst(body, {v: base - (i + 1)})
            return r
    r = ZERO
    for m, c in body.t.items():
        r = r + scale(_sum_mono([(v, hi)], m), c)
    return r


def _open_sum(a):
    """(binders [(var, hi)], factor monomial) with fresh variables"""
    his, body, base = a.data
    vs = [fresh("s") for _ in his]
    s = {bvar(base + i + 1): P(v) for i, v in enumerate(vs)}
    m = subst(mkpoly({body: F1}) if isinstance(body, tuple) else body, s)
    return [(v, subst(h, s)) for v, h in zip(vs, his)], m


def _sum_mono(binders, m):
    """sum over the binders of the monomial m (poly result)"""
    # merge inner sums that depend on a binder
    bvs = {v for v, _ in binders}
    for a, e in m:
        if a.kind == "sum" and e == 1 and a.fv & bvs:
            nb, body = _open_sum(a)
            rest = mkpoly({tuple((x, k) for x, k in m if x is not a): F1})
            p = mul(rest, body)
            r = ZERO
            for m2, c in p.t.items():
                r = r + scale(_sum_mono(binders + nb, m2), c)
            return r
    # split exp factors
    fac = []
    out = ONE
    for a, e in m:
        if a.kind == "exp" and a.fv & bvs:
            dep = {}; ind_ = {}
            for mm, c in a.data[0].t.items():
                if any(x.fv & bvs for x, _ in mm): dep[mm] = c
                else: ind_[mm] = c
            if ind_:
                out = mul(out, exp(mkpoly(ind_)))
                a2 = exp(mkpoly(dep))
                (m3, c3), = a2.t.items()
                fac.extend(m3); out = scale(out, c3)
                continue
            fac.append((a, e))
        else:
            fac.append((a, e))
    # bound-dependent upper limits tie binders together
    # connected components
    comps = []  # (set of vars, factors)
    free = []
    groups = {v: {v} for v, _ in binders}
    def union(a, b):
        g = groups[a] | groups[b]
        for x in g: groups[x] = g
    for v, h in binders:
        for w in h.fv & bvs: union(v, w)
    for a, e in fac:
        s = [v for v in a.fv if v in bvs]
        for w in s[1:]: union(s[0], w)
    for a, e in fac:
        if not (a.fv & bvs): free.append((a, e))
    r = out
    for a, e in free: r = mul(r, mkpoly({((a, e),): F1}))
    seen = set()
    for v, h in binders:
        if v in seen: continue
        g = groups[v]
        seen |= g
        bs = [(x, hh) for x, hh in binders if x in g]
        fs = [(a, e) for a, e in fac if a.fv & g]
        r = mul(r, _sum_component(bs, fs))
        if not r.t: return r
    return r


def _linear_in(p, v):
    """(coef, rest) if p = coef*v + rest with numeric coef and v not in rest, else None"""
    c = None; rest = {}
    for m, k in p.t.items():
        has = [(a, e) for a, e in m if v in a.fv]
        if not has: rest[m] = k; continue
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1: c = k
        else: return None
    if c is None: return None
    return c, mkpoly(rest)


def _sum_component(bs, fs):
    if len(bs) == 1 and not fs: 
        v, h = bs[0]
        return ite(le0(-h), h, ZERO) if decide(le0(-h)) is not True else h
    # a sum over positions of a permuted sequence: j = perm(p)
    if perms:
        for v, h in bs:
            if any(v in hh.fv for x, hh in bs if x is not v): continue
            nm = _inv_of(v, h, fs)
            if nm is None: continue
            w = fresh("p")
            body = subst(mkpoly({tuple(sorted(fs, key=lambda x: x[0].id)): F1}), {v: app(nm, (P(w),), "I")})
            nb = [(w if x is v else x, hh) for x, hh in bs]
            r = ZERO
            for m2, c in body.t.items(): r = r + scale(_sum_mono(nb, m2), c)
            return r
    # delta and range rules
    for v, h in bs:
        others = {x for x, _ in bs if x is not v}
        if any(v in hh.fv for x, hh in bs if x is not v): continue
        for i, (a, e) in enumerate(fs):
            if a.kind != "ind" or v not in a.fv: continue
            lit = a.data[0]
            if lit.kind == "eq":
                li = _linear_in(lit.data[0], v)
                if li is None:
                    iv = _perm_solve(lit.data[0], v, h)
                    if iv is None: continue
                    rest = mkpoly({tuple(x for j, x in enumerate(fs) if j != i): F1})
                    val, cond = iv
                    body = mul(subst(rest, {v: val}), ind(cond))
                    ob = [(x, hh) for x, hh in bs if x is not v]
                    if not ob: return body
                    r = ZERO
                    for m2, c in body.t.items(): r = r + scale(_sum_mono(ob, m2), c)
                    return r
                if abs(li[0]) != 1: continue
                val = scale(li[1], -1 / li[0])
                rest = mkpoly({tuple(x for j, x in enumerate(fs) if j != i): F1})
                body = mul(subst(rest, {v: val}), ind(band(le0(-val), lt0(val - h))))
                body = simp_bounds(body, [(x, hh) for x, hh in bs if x is not v])
                r = ZERO
                ob = [(x, hh) for x, hh in bs if x is not v]
                if not ob: return body
                for m2, c in body.t.items(): r = r + scale(_sum_mono(ob, m2), c)
                return r
            if lit.kind in ("le", "lt") and isint(lit.data[0]):
                li = _linear_in(lit.data[0], v)
                if li is None or abs(li[0]) != 1: continue
                # v + rest <= 0  ->  v < 1 - rest ;  -v + rest <= 0 -> v >= rest
                rest = mkpoly({tuple(x for j, x in enumerate(fs) if j != i): F1})
                ob = [(x, hh) for x, hh in bs if x is not v]
                def total(hh):
                    r = ZERO
                    for m2, c in rest.t.items(): r = r + scale(_sum_mono([(v, hh)] + ob, m2), c)
                    return r
                if li[0] == 1:
                    e2 = ONE - li[1]
                    if decide_in(band(le0(-e2), le0(e2 - h)), ob): return total(e2)
                    if decide_in(le0(h - e2), ob): return total(h)
                    if decide_in(le0(e2), ob): return ZERO
                else:
                    e2 = li[1]
                    if decide_in(band(le0(-e2), le0(e2 - h)), ob): return total(h) - total(e2)
                    if decide_in(le0(e2), ob): return total(h)
                    if decide_in(le0(h - e2), ob): return ZERO
    # bounds of a single binder with a constant offset, e.g. after the rules above
    if len(bs) == 1:
        v, h = bs[0]
        off = h.t.get((), F0)
        c = is_const(h)
        if (c is not None and c <= 12) or top_inds(h):
            return ssum(v, h, mkpoly({tuple(sorted(fs, key=lambda x: x[0].id)): F1}))
        if off != 0 and off.denominator == 1 and abs(off) <= 4:
            base = h - off
            if (off > 0 and decide(le0(-base)) is True) or (off < 0 and decide(le0(-h)) is True):
                return ssum(v, h, mkpoly({tuple(sorted(fs, key=lambda x: x[0].id)): F1}))
        body = mkpoly({tuple(sorted(fs, key=lambda x: x[0].id)): F1})
        pa = _perm_rule(v, h, body)
        if pa is not None:
            return ssum(v, h, replace_app(body, pa, P(v)))
        sh = _shift_of(v, body)
        if sh:
            c = min(sh)
            if c > 0 and c <= 4 and decide(le0(-h)) is True:
                b0 = subst(body, {v: P(v) - c})
                return ssum(v, h + c, b0) - ssum(v, const(c), b0)
            if c < 0 and c >= -4 and decide(le0(-h - c)) is True:
                b0 = subst(body, {v: P(v) - c})
                r = ssum(v, h + c, b0)
                for t in range(int(-c)): r = r + subst(body, {v: const(t)})
                return r
    if len(bs) > 1:
        # constant bounds and offsets of bounds, as for a single binder
        for v, h in bs:
            c = is_const(h); off = h.t.get((), F0)
            if c is None and (off == 0 or off.denominator != 1 or abs(off) > 4): continue
            if c is not None and c > 12: continue
            ob = [(x, hh) for x, hh in bs if x is not v]
            body = mkpoly({tuple(sorted(fs, key=lambda x: x[0].id)): F1})
            def at(t):
                s = {v: P(t)}
                bb = [(x, subst(hh, s)) for x, hh in ob]
                r = ZERO
                for m2, k in subst(body, s).t.items(): r = r + scale(_sum_mono(bb, m2), k)
                return r
            if c is not None:
                r = ZERO
                for i in range(max(0, int(c))): r = r + at(const(i))
                return r
            base = h - off; off = int(off)
            outer = [(x, hh) for x, hh in ob if v not in hh.fv]
            if any((hh.fv & {x for x, _ in ob}) - {x for x, _ in outer} for _, hh in outer): continue
            if not decide_in(le0(-base) if off > 0 else le0(-h), outer): continue
            r = _sum_component([(x, base if x is v else hh) for x, hh in bs], fs)
            for i in range(abs(off)): r = r + at(base + i) if off > 0 else r - at(base - (i + 1))
            return r
    # canonical order of binders
    m = tuple(sorted(fs, key=lambda x: x[0].id))
    body = mkpoly({m: F1})
    best = None
    orders = itertools.permutations(bs) if len(bs) <= 4 else [tuple(bs)]
    for perm in orders:
        # an upper limit may only mention earlier binders
        ok = True; seen = set()
        for v, h in perm:
            if (h.fv & {x for x, _ in bs}) - seen: ok = False; break
            seen.add(v)
        if not ok: continue
        base = max([body.height] + [h.height for _, h in perm])
        s = {v: P(bvar(base + i + 1)) for i, (v, _) in enumerate(perm)}
        b2 = subst(body, s)
        his = tuple(subst(h, s) for _, h in perm)
        (m2, c2), = b2.t.items() if len(b2.t) == 1 else ((None, None),)
        if m2 is None: raise Unsupported("sum body changed shape")
        key = (tuple(h._key for h in his), b2._key)
        if best is None or key < best[0]: best = (key, his, m2, base, c2)
    if best is None: raise Unsupported("sum bounds")
    _, his, m2, base, c2 = best
    return mkpoly({((mk_atom("sum", (his, mkpoly({m2: F1}), base), "R"), 1),): c2})


def _inv_of(v, h, fs):
    """the permutation of 0..h-1 whose inverse is applied to v in the factors"""
    found = []
    def walk(x):
        if found: return
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m: atom(a)
        elif isinstance(x, B):
            for y in x.data:
                if isinstance(y, (Poly, B)) and v in y.fv: walk(y)
    def atom(a):
        if v not in a.fv or found: return
        if a.kind == "app" and a.data[0][:4] == "inv:" and perms.get(a.data[0][4:]) is h and a.data[1][0] is P(v):
            found.append(a.data[0][4:]); return
        for y in a.data:
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, (Poly, B)) and v in z.fv: walk(z)
    for a, _ in fs: atom(a)
    return found[0] if found else None


def _perm_solve(p, v, h):
    """perm(v) = t  ->  v = inverse(t), for a permutation of 0..h-1"""
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            if a.kind == "app" and a.data[0] in perms and perms[a.data[0]] is h and a.data[1][0] is P(v):
                rest = mkpoly({mm: k for mm, k in p.t.items() if mm != m})
                if v in rest.fv: return None
                t = scale(rest, -1 / c)
                return app("inv:" + a.data[0], (t,), "I"), band(le0(-t), lt0(t - h))
    return None


def decide_in(b, binders):
    """decide b for all values of the binders"""
    if b is TRUE: return True
    if b is FALSE: return False
    if decide_hook is None: return False
    g = [band(le0(-P(v)), lt0(P(v) - h)) for v, h in binders]
    return decide_hook(implies(band(*g), b)) is True


def simp_bounds(p, binders):
    """drop indicators that always hold inside the binders"""
    changed = True
    while changed:
        changed = False
        for lit in top_inds(p):
            if decide_in(lit, binders): p = set_ind(p, lit, True); changed = True; break
            if decide_in(bnot(lit), binders): p = set_ind(p, lit, False); changed = True; break
    return p


def fold(op, v, hi, bodies, init):
    """op 'max'/'min': max(init, max over 0 <= v < hi of body); 'argmax' ...: an index in [0,hi) or -1.
    bodies: tuple of polys; init: poly"""
    hi = P(hi)
    if not isinstance(bodies, tuple): bodies = (bodies,)
    init = P(init)
    c = is_const(hi)
    if c is not None and op in ("max", "min"):
        if c <= 0: return init
        if c <= 8:
            r = init
            for i in range(int(c)):
                x = subst(bodies[0], {v: const(i)})
                r = vmax(r, x) if op == "max" else vmin(r, x)
            return r
    if op in ("max", "min"):
        off = hi.t.get((), F0)
        if off > 0 and off.denominator == 1 and off <= 4 and decide(le0(-(hi - off))) is True:
            base = hi - off
            r = fold(op, v, base, bodies, init)
            for i in range(int(off)):
                x = subst(bodies[0], {v: base + i})
                r = vmax(r, x) if op == "max" else vmin(r, x)
            return r
        ci = is_const(init)
        if ci is not None and ci != 0 and decide(lt0(-hi)) is True:
            # an initial value below (above) every element is irrelevant
            if op == "max" and ci < 0 and decide_in(le0(-bodies[0]), [(v, hi)]) is True: init = ZERO
    h = max([x.height for x in bodies] + [hi.height, init.height])
    s = {v: P(bvar(h + 1))}
    sort = "I" if op.startswith("arg") else ("I" if isint(init) and all(isint(b) for b in bodies) else "R")
    return P(mk_atom("fold", (op, hi, tuple(subst(x, s) for x in bodies), init, h), sort))


def fold_open(a):
    op, hi, body, init, base = a.data
    v = fresh("m")
    return op, v, hi, tuple(subst(x, {bvar(base + 1): P(v)}) for x in body), init




def _perm_rule(v, h, m):
    """sum over a whole permutation: sum_k g(perm(k)) = sum_i g(i)"""
    name = None
    def walk(x):
        nonlocal name
        if isinstance(x, Poly):
            for mm in x.t:
                for a, _ in mm:
                    if v not in a.fv: continue
                    if a.kind == "app" and a.data[0] in perms and a.data[1][0] is P(v) and perms[a.data[0]] is h:
                        if name is None: name = a
                        elif name is not a: return False
                        continue
                    if a is v: return False
                    for y in a.data:
                        for z in (y if isinstance(y, tuple) else (y,)):
                            if isinstance(z, (Poly, B)) and v in z.fv:
                                if walk(z) is False: return False
        else:
            for y in x.data:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, (Poly, B)) and v in z.fv:
                        if walk(z) is False: return False
        return True
    if walk(m) is False or name is None: return None
    return name


def replace_app(x, a, val):
    """replace the atom a everywhere"""
    if isinstance(x, B):
        k = x.kind
        if k == "le": return le0(replace_app(x.data[0], a, val))
        if k == "lt": return lt0(replace_app(x.data[0], a, val))
        if k == "eq": return eq0(replace_app(x.data[0], a, val))
        if k == "not": return bnot(replace_app(x.data[0], a, val))
        if k == "and": return band(*[replace_app(y, a, val) for y in x.data])
        if k == "or": return bor(*[replace_app(y, a, val) for y in x.data])
        if k == "eqo": return eqo(replace_app(x.data[0], a, val), replace_app(x.data[1], a, val))
        if k == "bapp": return bapp(x.data[0], [replace_app(y, a, val) for y in x.data[1]])
        if k in ("forall", "exists"):
            v, hi, body = bopen(x)
            return bquant(k, v, replace_app(hi, a, val), replace_app(body, a, val))
        return x
    r = ZERO
    for m, c in x.t.items():
        t = const(c)
        for b, e in m:
            if b is a: t = mul(t, power(val, e))
            elif a.id in atoms_of(P(b)): t = mul(t, power(_replace_in(b, a, val), e))
            else: t = mul(t, mkpoly({((b, e),): F1}))
        r = r + t
    return r


def _replace_in(x, a, val):
    k = x.kind
    R = lambda p: replace_app(p, a, val)
    if k == "app": return app(x.data[0], [R(y) for y in x.data[1]], x.sort)
    if k == "exp": return exp(R(x.data[0]))
    if k == "ln": return ln(R(x.data[0]))
    if k == "sqrt": return sqrt(R(x.data[0]))
    if k == "abs": return absv(R(x.data[0]))
    if k == "floor": return floor(R(x.data[0]))
    if k == "par": return R(x.data[0])
    if k == "ind": return ind(R(x.data[0]))
    if k == "sum":
        bs, body = _open_sum(x)
        body2 = R(body)
        r = ZERO
        for m, c in body2.t.items(): r = r + scale(_sum_mono([(v, R(h)) for v, h in bs], m), c)
        return r
    if k == "fold":
        op, v, hi, bodies, init = fold_open(x)
        return fold(op, v, R(hi), tuple(R(b) for b in bodies), R(init))
    return P(x)


def _shift_of(v, x):
    """all constant offsets c in arguments v + c; None if v occurs otherwise"""
    out = set()
    def poly(p):
        if v not in p.fv: return True
        li = _linear_in(p, v)
        if li is not None and li[0] == 1 and is_const(li[1]) is not None:
            out.add(is_const(li[1])); return True
        for m in p.t:
            for a, _ in m:
                if v in a.fv:
                    if a is v: return False
                    if not atom(a): return False
        return True
    def atom(a):
        for y in a.data:
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, Poly):
                    if a.kind == "app" or a.kind == "sum":
                        if not poly(z): return False
                    else:
                        # inside exp(...), ln(...): offsets only within applications
                        for m in z.t:
                            for b, _ in m:
                                if v in b.fv and (b is v or not atom(b)): return False
                elif isinstance(z, B):
                    if v in z.fv and not bb(z): return False
        return True
    def bb(b):
        for y in b.data:
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, Poly):
                    for m in z.t:
                        for a, _ in m:
                            if v in a.fv and (a is v or not atom(a)): return False
                elif isinstance(z, B):
                    if v in z.fv and not bb(z): return False
        return True
    for m in x.t:
        for a, _ in m:
            if v in a.fv:
                if a is v: return None
                if not atom(a): return None
    return out


def anyb(v, hi, b): return exists(v, hi, b)


# ------------------------------------------------------------------ substitution
_substcache = {}


def subst(p, s):
    if isinstance(p, B): return bsubst(p, s)
    s = {v: P(x) for v, x in s.items() if v in p.fv}
    if not s: return p
    key = (p, ctx_id[0], tuple(sorted(((v.id, x._key) for v, x in s.items()))))
    r = _substcache.get(key)
    if r is not None: return r
    r = ZERO
    for m, c in p.t.items():
        t = const(c)
        for a, e in m:
            t = mul(t, power(asubst(a, s), e)) if not a.fv.isdisjoint(s) else mul(t, mkpoly({((a, e),): F1}))
            if not t.t: break
        r = r + t
    _substcache[key] = r
    return r


def rebuild(p):
    """the same term, normalised again in the current context"""
    if isinstance(p, B): return brebuild(p)
    key = (p, ctx_id[0], "rb")
    r = _substcache.get(key)
    if r is not None: return r
    r = ZERO
    for m, c in p.t.items():
        t = const(c)
        for a, e in m:
            t = mul(t, power(arebuild(a), e))
            if not t.t: break
        r = r + t
    _substcache[key] = r
    return r


def arebuild(a):
    k = a.kind
    if k == "var": return P(a)
    if k == "app": return app(a.data[0], [rebuild(x) for x in a.data[1]], a.sort)
    if k == "exp": return exp(rebuild(a.data[0]))
    if k == "ln": return ln(rebuild(a.data[0]))
    if k == "sqrt": return sqrt(rebuild(a.data[0]))
    if k == "abs": return absv(rebuild(a.data[0]))
    if k == "floor": return floor(rebuild(a.data[0]))
    if k == "par": return rebuild(a.data[0])
    if k == "ind":
        b = brebuild(a.data[0])
        d = decide(b)
        return ind(b) if d is None else ONE if d else ZERO
    if k == "sum":
        bs, body = _open_sum(a)
        body = with_range(bs, lambda: rebuild(body))
        r = ZERO
        for m, c in body.t.items():
            if len(bs) == 1: r = r + scale(ssum(bs[0][0], bs[0][1], mkpoly({m: F1})), c)
            else: r = r + scale(_sum_mono(bs, m), c)
        return r
    if k == "fold":
        op, v, hi, bodies, init = fold_open(a)
        return fold(op, v, rebuild(hi), tuple(rebuild(x) for x in bodies), rebuild(init))
    return P(a)


# hook: run a thunk in the context extended by conditions
assume_hook = None


def with_range(bs, f):
    if assume_hook is None: return f()
    return assume_hook([band(le0(-P(v)), lt0(P(v) - h)) for v, h in bs], f)


def brebuild(b):
    k = b.kind
    if k == "le": return le0(rebuild(b.data[0]))
    if k == "lt": return lt0(rebuild(b.data[0]))
    if k == "eq": return eq0(rebuild(b.data[0]))
    if k == "not": return bnot(brebuild(b.data[0]))
    if k == "and": return band(*[brebuild(x) for x in b.data])
    if k == "or": return bor(*[brebuild(x) for x in b.data])
    return b


def clear_caches():
    _substcache.clear()


def asubst(a, s):
    if a.fv.isdisjoint(s): return P(a)
    k = a.kind
    if k == "var":
        return s.get(a, P(a))
    if k == "app":
        return app(a.data[0], [subst(x, s) for x in a.data[1]], a.sort)
    if k == "exp": return exp(subst(a.data[0], s))
    if k == "ln": return ln(subst(a.data[0], s))
    if k == "sqrt": return sqrt(subst(a.data[0], s))
    if k == "abs": return absv(subst(a.data[0], s))
    if k == "floor": return floor(subst(a.data[0], s))
    if k == "par": return subst(a.data[0], s)
    if k == "ind": return ind(bsubst(a.data[0], s))
    if k == "sum":
        bs, body = _open_sum(a)
        body = subst(body, s)
        bs = [(v, subst(h, s)) for v, h in bs]
        r = ZERO
        # nested from the inside out when bounds depend on earlier binders
        for m, c in body.t.items():
            if len(bs) == 1: r = r + scale(ssum(bs[0][0], bs[0][1], mkpoly({m: F1})), c)
            else: r = r + scale(_sum_mono(bs, m), c)
        return r
    if k == "fold":
        op, v, hi, bodies, init = fold_open(a)
        return fold(op, v, subst(hi, s), tuple(subst(x, s) for x in bodies), subst(init, s))
    raise Unsupported("subst " + k)


def bsubst(b, s):
    s = {v: P(x) for v, x in s.items() if v in b.fv}
    if not s: return b
    k = b.kind
    if k == "le": return le0(subst(b.data[0], s))
    if k == "lt": return lt0(subst(b.data[0], s))
    if k == "eq": return eq0(subst(b.data[0], s))
    if k == "eqo": return eqo(subst(b.data[0], s), subst(b.data[1], s))
    if k == "not": return bnot(bsubst(b.data[0], s))
    if k == "and": return band(*[bsubst(x, s) for x in b.data])
    if k == "or": return bor(*[bsubst(x, s) for x in b.data])
    if k == "bapp": return bapp(b.data[0], [subst(x, s) for x in b.data[1]])
    if k in ("forall", "exists"):
        v, hi, body = bopen(b)
        return bquant(k, v, subst(hi, s), bsubst(body, s))
    return b


def bopen(b):
    hi, body, base = b.data
    v = fresh("q")
    return v, hi, bsubst(body, {bvar(base + 1): P(v)})


# ------------------------------------------------------------------ rational normal form
def numer_denom(p):
    """(n, d) polynomials without negative exponents at top level, p = n/d"""
    need = {}
    for m in p.t:
        for a, e in m:
            if e < 0: need[a] = max(need.get(a, 0), -e)
    if not need: return p, ONE
    d = ONE
    for a, e in need.items():
        d = mul(d, power(a.data[0] if a.kind == "par" else P(a), e))
    n = {}
    r = ZERO
    for m, c in p.t.items():
        have = dict(m)
        t = const(c)
        pos = [(a, e) for a, e in m if e > 0]
        t = mul(t, mkpoly({tuple(pos): F1}))
        for a, e in need.items():
            k = e + min(have.get(a, 0), 0)
            if k > 0: t = mul(t, power(a.data[0] if a.kind == "par" else P(a), k))
        r = r + t
    n2, d2 = numer_denom(r)
    if d2 is not ONE: return n2, mul(d, d2)
    return r, d


# ------------------------------------------------------------------ walking
def atoms_of(x, acc=None, deep=True):
    """all atoms occurring in a Poly/B (deep: inside arguments as well, bound bodies included)"""
    if acc is None: acc = {}
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                if a.id in acc: continue
                acc[a.id] = a
                if deep:
                    for y in a.data:
                        if isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, (Poly, B)): atoms_of(z, acc)
                        elif isinstance(y, (Poly, B)): atoms_of(y, acc)
    elif isinstance(x, B):
        for y in x.data:
            if isinstance(y, tuple):
                for z in y:
                    if isinstance(z, (Poly, B)): atoms_of(z, acc)
            elif isinstance(y, (Poly, B)): atoms_of(y, acc)
    return acc


# ------------------------------------------------------------------ printing
def show_atom(a):
    k = a.kind
    if k == "var": return a.data[0]
    if k == "app": return "%s(%s)" % (a.data[0], ", ".join(map(repr, a.data[1])))
    if k == "sum":
        his, body, base = a.data
        return "Σ{%s}(%s)" % (", ".join("#%d<%r" % (base + i + 1, h) for i, h in enumerate(his)), show(body))
    if k == "fold": return "%s{#%d<%r}(%r; %s)" % (a.data[0], a.data[4] + 1, a.data[1], a.data[3], ", ".join(map(repr, a.data[2])))
    if k == "ind": return "[%r]" % (a.data[0],)
    if k == "par": return "(%r)" % (a.data[0],)
    return "%s(%s)" % (k, ", ".join(map(repr, a.data)))


def show(p):
    if not p.t: return "0"
    out = []
    for m, c in p.t.items():
        s = "*".join(show_atom(a) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not s: s = str(c)
        elif c == -1: s = "-" + s
        elif c != 1: s = "%s*%s" % (c, s)
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")


def show_b(b):
    k = b.kind
    if k == "le": return "%r<=0" % (b.data[0],)
    if k == "lt": return "%r<0" % (b.data[0],)
    if k == "eq": return "%r=0" % (b.data[0],)
    if k == "eqo": return "%r==%r" % b.data
    if k == "not": return "!(%r)" % (b.data[0],)
    if k in ("and", "or"): return "(" + (" & " if k == "and" else " | ").join(map(repr, b.data)) + ")"
    if k in ("forall", "exists"): return "%s #%d<%r. %r" % (k, b.data[2] + 1, b.data[0], b.data[1])
    if k == "bvar": return b.data[0]
    if k == "bapp": return "%s(%s)" % (b.data[0], ", ".join(map(repr, b.data[1])))
    return k


ZERO = mkpoly({})
ONE = const(1)


# ------------------------------------------------------------------ generic rewriting
def transform(x, f, _memo=None, fb=None):
    """rebuild x, with atoms a for which f(a) is a Poly replaced by it (f sees atoms whose arguments are not yet rewritten)"""
    memo = {} if _memo is None else _memo
    def tp(p):
        r = memo.get(p)
        if r is not None: return r
        r = ZERO
        for m, c in p.t.items():
            t = const(c)
            for a, e in m:
                t = mul(t, power(ta(a), e))
                if not t.t: break
            r = r + t
        memo[p] = r
        return r
    def tb(b):
        r = memo.get(b)
        if r is not None: return r
        k = b.kind
        if k == "le": r = le0(tp(b.data[0]))
        elif k == "lt": r = lt0(tp(b.data[0]))
        elif k == "eq": r = eq0(tp(b.data[0]))
        elif k == "eqo": r = eqo(tp(b.data[0]), tp(b.data[1]))
        elif k == "not": r = bnot(tb(b.data[0]))
        elif k == "and": r = band(*[tb(y) for y in b.data])
        elif k == "or": r = bor(*[tb(y) for y in b.data])
        elif k == "bapp":
            r = fb(b, tp) if fb is not None else None
            if r is None: r = bapp(b.data[0], [tp(y) for y in b.data[1]])
        elif k in ("forall", "exists"):
            v, hi, body = bopen(b)
            r = bquant(k, v, tp(hi), tb(body))
        else: r = b
        memo[b] = r
        return r
    def ta(a):
        r = memo.get(a)
        if r is not None: return r
        r = f(a, tp)
        if r is None:
            k = a.kind
            if k == "var": r = P(a)
            elif k == "app": r = app(a.data[0], [tp(y) if isinstance(y, Poly) else tb(y) for y in a.data[1]], a.sort)
            elif k == "exp": r = exp(tp(a.data[0]))
            elif k == "ln": r = ln(tp(a.data[0]))
            elif k == "sqrt": r = sqrt(tp(a.data[0]))
            elif k == "abs": r = absv(tp(a.data[0]))
            elif k == "floor": r = floor(tp(a.data[0]))
            elif k == "par": r = tp(a.data[0])
            elif k == "ind": r = ind(tb(a.data[0]))
            elif k == "sum":
                bs, body = _open_sum(a)
                body2 = tp(body)
                bs = [(v, tp(h)) for v, h in bs]
                r = ZERO
                for m, c in body2.t.items():
                    if len(bs) == 1: r = r + scale(ssum(bs[0][0], bs[0][1], mkpoly({m: F1})), c)
                    else: r = r + scale(_sum_mono(bs, m), c)
            elif k == "fold":
                op, v, hi, bodies, init = fold_open(a)
                r = fold(op, v, tp(hi), tuple(tp(y) for y in bodies), tp(init))
            else: r = P(a)
        memo[a] = r
        return r
    return tp(x) if isinstance(x, Poly) else tb(x)


def apps_in(x):
    """names of applied function symbols in a term (values and conditions)"""
    bs = []
    r = {a.data[0] for a in all_atoms(x, bs) if a.kind == "app"}
    r.update(b.data[0] for b in bs)
    return r


def all_atoms(x, bapps=None):
    """all atoms, also inside indicators, quantifiers and folds"""
    seen = {}; seenp = set()
    def wp(p):
        if p in seenp: return
        seenp.add(p)
        for m in p.t:
            for a, _ in m: wa(a)
    def wb(b):
        if b in seenp: return
        seenp.add(b)
        if b.kind == "bapp" and bapps is not None: bapps.append(b)
        for y in b.data: wx(y)
    def wx(y):
        if isinstance(y, Poly): wp(y)
        elif isinstance(y, B): wb(y)
        elif isinstance(y, Atom): wa(y)
        elif isinstance(y, tuple):
            for z in y: wx(z)
    def wa(a):
        if a.id in seen: return
        seen[a.id] = a
        for y in a.data: wx(y)
    wx(x)
    return list(seen.values())


def solve_eq(p, j):
    """t with p = 0 exactly when j = t (also through a permutation)"""
    t = solve_for(p, j)
    if t is not None: return t
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            if a.kind == "app" and a.data[0][:4] == "inv:" and a.data[0][4:] in perms and a.data[1][0] is P(j):
                rest = scale(p - scale(P(a), c), -1 / c)
                if j not in rest.fv: return app(a.data[0][4:], (rest,), "I")
    return None


def solve_for(p, j):
    """t with p = +-(j - t)"""
    r = _linear_in(p, j)
    if r is None or abs(r[0]) != 1: return None
    return scale(r[1], -1 / r[0])

