"""Symbolic values of the evaluator."""
import itertools
import terms as T
from terms import *
from prover import decide

_c = itertools.count(1)


class V: __slots__ = ()


class Num(V):
    __slots__ = ("p", "ty")     # ty: 'f' real, 'u' unsigned, 'i' signed, None: integer literal
    def __init__(self, p, ty): self.p = P(p); self.ty = ty
    def __repr__(self): return "%s%r" % (self.ty or "", self.p)


class Boo(V):
    __slots__ = ("b",)
    def __init__(self, b): self.b = b
    def __repr__(self): return repr(self.b)


class Str(V):
    __slots__ = ("p",)
    def __init__(self, p): self.p = P(p)
    def __repr__(self): return "str:%r" % (self.p,)


class Unit(V):
    def __repr__(self): return "()"


UNIT = Unit()


class Undef(V):
    def __repr__(self): return "undef"


UNDEF = Undef()


class Poison(V):
    """the value of an expression outside the supported subset: any use of it is unsupported"""
    def __init__(self, why): object.__setattr__(self, "why", why)
    def __getattr__(self, n): raise Unsupported(object.__getattribute__(self, "why"))
    def __repr__(self): return "poison"


class Tup(V):
    __slots__ = ("xs",)
    def __init__(self, xs): self.xs = tuple(xs)
    def __repr__(self): return "(%s)" % ", ".join(map(repr, self.xs))


class Struct(V):
    __slots__ = ("name", "fs")   # name: (type name, file)
    def __init__(self, name, fs): self.name = name; self.fs = fs
    def __repr__(self): return "%s{%s}" % (self.name[0], ", ".join("%s: %r" % x for x in self.fs.items()))


class Enum(V):
    __slots__ = ("name", "var", "xs")
    def __init__(self, name, var, xs=()): self.name = name; self.var = var; self.xs = tuple(xs)
    def __repr__(self): return "%s::%s%r" % (self.name[0] if isinstance(self.name, tuple) else self.name, self.var, self.xs)


class Opt(V):
    __slots__ = ("c", "v")
    def __init__(self, c, v): self.c = c; self.v = v
    def __repr__(self): return "Opt(%r, %r)" % (self.c, self.v)


NONE = Opt(FALSE, None)


class Cases(V):
    __slots__ = ("alts",)
    def __init__(self, alts): self.alts = tuple(alts)
    def __repr__(self): return "Cases" + repr(self.alts)


class Seg:
    __slots__ = ("n", "k", "g", "e", "flat")
    def __init__(self, n, k, e, g=TRUE, flat=False): self.n = n; self.k = k; self.g = g; self.e = e; self.flat = flat
    def __repr__(self): return "[%s%r | %r < %r%s]" % ("*" if self.flat else "", self.e, self.k, self.n, "" if self.g is TRUE else " if %r" % (self.g,))


class Seq(V):
    __slots__ = ("segs", "total")
    def __init__(self, segs): self.segs = tuple(segs)
    def __repr__(self): return "Seq" + repr(list(self.segs))


class Clo(V):
    def __init__(self, ps, body, env, fn): self.ps = ps; self.body = body; self.env = env; self.fn = fn
    def __repr__(self): return "closure"


class FnV(V):
    """a function used as a value"""
    def __init__(self, f): self.f = f      # python callable on a list of values
    def __repr__(self): return "fn"


class Ref(V):
    __slots__ = ("cell", "path")
    def __init__(self, cell, path=()): self.cell = cell; self.path = tuple(path)
    def __repr__(self): return "&%s%r" % (self.cell, self.path)


class Opq(V):
    __slots__ = ("sort", "p")
    def __init__(self, sort, p): self.sort = sort; self.p = P(p)
    def __repr__(self): return "%s:%r" % (self.sort, self.p)


class Rng(V):
    __slots__ = ("lo", "hi", "incl")
    def __init__(self, lo, hi, incl): self.lo = lo; self.hi = hi; self.incl = incl
    def __repr__(self): return "Rng(%r, %r)" % (self.lo, self.hi)


class OrdV(V):
    __slots__ = ("lt", "eq")
    def __init__(self, lt_, eq_): self.lt = lt_; self.eq = eq_
    def __repr__(self): return "Ord(%r, %r)" % (self.lt, self.eq)


class MapV(V):
    """a map with a finite or symbolic key domain: keys i32/strings; pres(key atom) and val(key atom) templates"""
    __slots__ = ("k", "pres", "val", "src", "zero")
    def __init__(self, k, pres, val, src=None, zero=False):
        # src: the elements a set was collected from; zero: the value template is 0 at absent keys (an invariant of numeric maps)
        self.k = k; self.pres = pres; self.val = val; self.src = src; self.zero = zero
    def __repr__(self): return "Map{%r -> %r: %r}" % (self.k, self.pres, self.val)


def N(p, ty="f"): return Num(p, ty)


def bsub(b, s): return T.bsubst(b, s)


def vmap(v, fp, fb):
    """rebuild v with fp on every Poly and fb on every condition"""
    if isinstance(v, Num): return Num(fp(v.p), v.ty)
    if isinstance(v, Boo): return Boo(fb(v.b))
    if isinstance(v, Str): return Str(fp(v.p))
    if isinstance(v, Tup): return Tup([vmap(x, fp, fb) for x in v.xs])
    if isinstance(v, Struct): return Struct(v.name, {n: vmap(x, fp, fb) for n, x in v.fs.items()})
    if isinstance(v, Enum): return Enum(v.name, v.var, [vmap(x, fp, fb) for x in v.xs])
    if isinstance(v, Opt): return Opt(fb(v.c), None if v.v is None else vmap(v.v, fp, fb))
    if isinstance(v, Cases): return Cases([(fb(c), vmap(x, fp, fb)) for c, x in v.alts])
    if isinstance(v, Seq): return Seq([Seg(None if s.n is None else fp(s.n), s.k, vmap(s.e, fp, fb), fb(s.g), s.flat) for s in v.segs])
    if isinstance(v, Ref): return Ref(v.cell, [tuple(fp(y) if isinstance(y, Poly) else y for y in st) for st in v.path])
    if isinstance(v, Opq): return Opq(v.sort, fp(v.p))
    if isinstance(v, Rng): return Rng(v.lo and vmap(v.lo, fp, fb), v.hi and vmap(v.hi, fp, fb), v.incl)
    if isinstance(v, OrdV): return OrdV(fb(v.lt), fb(v.eq))
    if isinstance(v, MapV): return MapV(v.k, fb(v.pres), vmap(v.val, fp, fb), None if v.src is None else vmap(v.src, fp, fb), v.zero)
    if isinstance(v, Poison): return v
    if isinstance(v, (Unit, Undef, Clo, FnV)): return v
    if hasattr(v, "vmap"): return v.vmap(fp, fb)
    raise Unsupported("vmap %s" % type(v).__name__)


def vsubst(v, s):
    if isinstance(v, Seq):
        # the template variable is bound
        out = []
        for sg in v.segs:
            out.append(Seg(None if sg.n is None else subst(sg.n, s), sg.k, vsubst(sg.e, s), bsub(sg.g, s), sg.flat))
        return Seq(out)
    return vmap(v, lambda p: subst(p, s), lambda b: bsub(b, s))


def vtransform(v, f, fb=None, memo=None):
    if memo is None: memo = {}
    return vmap(v, lambda p: T.transform(p, f, memo, fb), lambda b: T.transform(b, f, memo, fb))


def polys(v):
    """all Polys and conditions inside a value"""
    out = []
    def fp(p): out.append(p); return p
    def fb(b): out.append(b); return b
    vmap(v, fp, fb)
    return out


def fv(v):
    r = frozenset()
    for x in polys(v): r |= x.fv
    return r


def same(a, b):
    """syntactic identity of values"""
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, Num): return a.p is b.p
    if isinstance(a, Boo): return a.b is b.b
    if isinstance(a, (Str,)): return a.p is b.p
    if isinstance(a, Opq): return a.p is b.p and a.sort == b.sort
    if isinstance(a, Tup): return len(a.xs) == len(b.xs) and all(same(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Struct): return a.name == b.name and set(a.fs) == set(b.fs) and all(same(a.fs[n], b.fs[n]) for n in a.fs)
    if isinstance(a, Enum): return a.name == b.name and a.var == b.var and len(a.xs) == len(b.xs) and all(same(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Opt): return a.c is b.c and ((a.v is None and b.v is None) or (a.v is not None and b.v is not None and same(a.v, b.v)))
    if isinstance(a, Cases): return len(a.alts) == len(b.alts) and all(c is d and same(x, y) for (c, x), (d, y) in zip(a.alts, b.alts))
    if isinstance(a, Seq):
        if len(a.segs) != len(b.segs): return False
        for s, t in zip(a.segs, b.segs):
            if s is t: continue
            if s.n is not t.n or s.flat != t.flat: return False
            if s.k is t.k:
                if s.g is not t.g or not same(s.e, t.e): return False
            else:
                r = {t.k: P(s.k)}
                if bsub(t.g, r) is not s.g or not same(s.e, vsubst(t.e, r)): return False
        return True
    if isinstance(a, Ref): return a.cell == b.cell and a.path == b.path
    if isinstance(a, (Unit, Undef)): return True
    if isinstance(a, Clo): return a.body is b.body and a.env is b.env
    if isinstance(a, OrdV): return a.lt is b.lt and a.eq is b.eq
    if isinstance(a, Rng):
        return a.incl == b.incl and all((x is None and y is None) or (x is not None and y is not None and same(x, y)) for x, y in ((a.lo, b.lo), (a.hi, b.hi)))
    return False


def vite(c, a, b):
    """if c then a else b"""
    if c is TRUE: return a
    if c is FALSE: return b
    if same(a, b): return a
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if isinstance(a, Num) and isinstance(b, Num): return Num(T.ite(c, a.p, b.p), a.ty or b.ty)
    if isinstance(a, Boo) and isinstance(b, Boo): return Boo(bor(band(c, a.b), band(bnot(c), b.b)))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs): return Tup([vite(c, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name: return Struct(a.name, {n: vite(c, a.fs[n], b.fs[n]) for n in a.fs})
    if isinstance(a, Opt) and isinstance(b, Opt):
        v = b.v if a.v is None else a.v if b.v is None else vite(c, a.v, b.v)
        return Opt(bor(band(c, a.c), band(bnot(c), b.c)), v)
    if isinstance(a, Enum) and isinstance(b, Enum) and a.name == b.name and a.var == b.var and len(a.xs) == len(b.xs):
        return Enum(a.name, a.var, [vite(c, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, Opq) and isinstance(b, Opq) and a.sort == b.sort: return Opq(a.sort, T.ite(c, a.p, b.p))
    if isinstance(a, Str) and isinstance(b, Str): return Str(T.ite(c, a.p, b.p))
    if isinstance(a, OrdV) and isinstance(b, OrdV):
        f = lambda x, y: bor(band(c, x), band(bnot(c), y))
        return OrdV(f(a.lt, b.lt), f(a.eq, b.eq))
    if isinstance(a, MapV) and isinstance(b, MapV):
        k = fresh("key"); r1 = {a.k: P(k)}; r2 = {b.k: P(k)}
        return MapV(k, bor(band(c, bsub(a.pres, r1)), band(bnot(c), bsub(b.pres, r2))), vite(c, vsubst(a.val, r1), vsubst(b.val, r2)), zero=a.zero and b.zero)
    if isinstance(a, Rng) and isinstance(b, Rng) and a.incl == b.incl and (a.lo is None) == (b.lo is None) and (a.hi is None) == (b.hi is None):
        return Rng(None if a.lo is None else vite(c, a.lo, b.lo), None if a.hi is None else vite(c, a.hi, b.hi), a.incl)
    if isinstance(a, Seq) and isinstance(b, Seq): return vite_seq(c, a, b)
    if isinstance(a, (Enum, Cases)) and isinstance(b, (Enum, Cases)):
        alts = []
        for g, v in ([(c, a)] if not isinstance(a, Cases) else [(band(c, x), y) for x, y in a.alts]) + \
                    ([(bnot(c), b)] if not isinstance(b, Cases) else [(band(bnot(c), x), y) for x, y in b.alts]):
            if g is FALSE: continue
            for i, (g2, v2) in enumerate(alts):
                if same(v, v2): alts[i] = (bor(g, g2), v); break
            else: alts.append((g, v))
        return alts[0][1] if len(alts) == 1 else Cases(alts)
    raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))


def vite_seq(c, a, b):
    # the same lengths: element by element
    if len(a.segs) == len(b.segs) and all(s.n is t.n and s.flat == t.flat and not s.flat for s, t in zip(a.segs, b.segs)):
        out = []
        try:
            for s, t in zip(a.segs, b.segs):
                k = fresh("k"); r1 = {s.k: P(k)}; r2 = {t.k: P(k)}
                g1, g2 = bsub(s.g, r1), bsub(t.g, r2)
                g = g1 if g1 is g2 else bor(band(c, g1), band(bnot(c), g2))
                out.append(Seg(s.n, k, vite(c, vsubst(s.e, r1), vsubst(t.e, r2)), g))
            return Seq(out)
        except Unsupported: pass
    # one extends the other
    for x, y, cc in ((a, b, bnot(c)), (b, a, c)):
        if len(x.segs) < len(y.segs) and same(Seq(x.segs), Seq(y.segs[:len(x.segs)])):
            if all(not s.flat for s in y.segs[len(x.segs):]):
                return Seq(list(x.segs) + [Seg(s.n, s.k, s.e, band(cc, s.g), s.flat) for s in y.segs[len(x.segs):]])
    na, nb = seq_len(a), seq_len(b)
    if len(a.segs) == 0 and len(b.segs) > 0: a = Seq([Seg(ZERO, fresh("k"), vsubst(b.segs[0].e, {}))])
    if len(b.segs) == 0 and len(a.segs) > 0: b = Seq([Seg(ZERO, fresh("k"), vsubst(a.segs[0].e, {}))])
    k = fresh("k")
    return Seq([Seg(T.ite(c, na, nb), k, vite(c, seq_get(a, P(k)), seq_get(b, P(k))))])


# ------------------------------------------------------------------ sequences
def empty(): return Seq([])


def single(v): return Seq([Seg(ONE, fresh("k"), v)])


def mkseq(n, f, sort="k"):
    k = fresh(sort)
    return Seq([Seg(P(n), k, f(P(k)))])


def seg_len(s):
    if s.n is None: raise Unsupported("length of an infinite iterator")
    if s.flat:
        k = fresh("k")
        body = seq_len(vsubst(s.e, {s.k: P(k)})) * T.ind(bsub(s.g, {s.k: P(k)}))
        return T.ssum(k, s.n, body)
    if s.g is TRUE: return s.n
    k = fresh("k")
    return T.ssum(k, s.n, T.ind(bsub(s.g, {s.k: P(k)})))


def seq_len(q):
    r = ZERO
    for s in q.segs: r = r + seg_len(s)
    return r


def norm(q):
    """drop empty segments"""
    segs = [s for s in q.segs if not (s.n is ZERO or s.g is FALSE)]
    return q if len(segs) == len(q.segs) else Seq(segs)


def seq_get(q, i):
    """element i (in range)"""
    i = P(i)
    if not q.segs: raise Unsupported("element of an empty sequence")
    off = ZERO; pieces = []
    for s in q.segs:
        if s.flat:
            inner = vsubst(s.e, {})
            m = None
            if len(inner.segs) == 1 and inner.segs[0].g is TRUE and not inner.segs[0].flat and s.k not in inner.segs[0].n.fv and s.g is TRUE:
                m = inner.segs[0].n
            if m is None: raise Unsupported("index into a ragged concatenation")
            c = is_const(m)
            if c == 1: j, r = i - off, ZERO
            else:
                j = T.floor((i - off) * T.inv(m)); r = (i - off) - m * j
            e = vsubst(vsubst(inner.segs[0].e, {inner.segs[0].k: r}), {s.k: j})
            pieces.append((off, s.n * m, e))
            off = off + s.n * m
            continue
        if s.g is not TRUE:
            c = is_const(s.n)
            if c == 1:
                # an optional last element
                pieces.append((off, seg_len(s), vsubst(s.e, {s.k: ZERO})))
                off = off + seg_len(s); continue
            raise Unsupported("index into a filtered sequence")
        pieces.append((off, s.n, vsubst(s.e, {s.k: i - off})))
        if s.n is not None: off = off + s.n
    r = pieces[-1][2]
    for o, n, e in reversed(pieces[:-1]):
        c = lt(i, o + n)
        d = decide(c)
        r = e if d is True else r if d is False else vite(c, e, r)
    return r


def as_single(q):
    """one unguarded segment"""
    q = norm(q)
    if len(q.segs) == 1 and q.segs[0].g is TRUE and not q.segs[0].flat:
        s = q.segs[0]
        k = fresh("k")
        return Seg(s.n, k, vsubst(s.e, {s.k: P(k)}))
    if not q.segs: return None
    n = seq_len(q); k = fresh("k")
    return Seg(n, k, seq_get(q, P(k)))


def seq_set(q, i, v):
    out = []; off = ZERO
    for s in q.segs:
        if s.flat or s.g is not TRUE: raise Unsupported("assignment into a filtered or nested sequence")
        k = fresh("k"); one = s.n is ONE
        e = vsubst(s.e, {s.k: ZERO if one else P(k)})
        out.append(Seg(s.n, k, vite(eq(off if one else P(k) + off, i), v, e)))
        off = off + s.n
    return Seq(out)


def subseq(q, lo, n):
    if lo is ZERO and n is seq_len(q): return q
    s = as_single(q)
    if s is None: return q
    k = fresh("k")
    return Seq([Seg(n, k, vsubst(s.e, {s.k: P(k) + lo}))])


def open_seg(s):
    """(k, guard, element) with a fresh template variable"""
    k = fresh("k"); r = {s.k: P(k)}
    return k, bsub(s.g, r), vsubst(s.e, r)
