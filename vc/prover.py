"""Contexts (hypotheses), deciding conditions, proving goals and refuting them numerically."""
import math, random, time
from fractions import Fraction
import z3
import terms as T
from terms import *

_nest = [0]      # calls of the solver within calls of the solver are counted once
stats = {"z3": 0, "z3_time": 0.0, "nf": 0, "cvc5": 0}


class Ctx:
    """a set of hypotheses; extended functionally"""
    _n = 0
    _intern = {}

    def __init__(self, hyps=()):
        fl = []
        for h in hyps:
            if h.kind == "and": fl.extend(h.data)
            elif h is TRUE: continue
            else: fl.append(h)
        seen = {}
        for h in fl: seen[h.id] = h
        self.hyps = list(seen.values())
        self.idset = frozenset(seen)
        k = Ctx._intern.get(self.idset)
        if k is None:
            Ctx._n += 1
            k = Ctx._intern[self.idset] = Ctx._n
        self.id = k
        self.cache = _ctxcaches.setdefault(k, {})

    def plus(self, *bs):
        return Ctx(self.hyps + list(bs))


_ctxcaches = {}
cur = [Ctx()]


class use:
    def __init__(self, ctx): self.ctx = ctx
    def __enter__(self):
        self.old = cur[0]; cur[0] = self.ctx; T.ctx_id[0] = self.ctx.id
        return self.ctx
    def __exit__(self, *a):
        cur[0] = self.old; T.ctx_id[0] = self.old.id


def assume(bs, f):
    with use(cur[0].plus(*bs)): return f()


_depth = [0]


_quiet = [0]


def sign_index(ctx):
    """function symbol -> universally quantified sign facts about it"""
    r = getattr(ctx, "_signs", None)
    if r is None:
        r = {}
        for h in ctx.hyps:
            if h.kind == "forall" and h.data[1].kind in ("lt", "le"):
                p = h.data[1].data[0]
                if len(p.t) == 1:
                    (m, c), = p.t.items()
                    if len(m) == 1 and m[0][0].kind == "app" and c < 0:
                        a = m[0][0]
                        bv = bvar(h.data[2] + 1)
                        pos = [i for i, x in enumerate(a.data[1]) if x is P(bv)]
                        if len(pos) == 1: r.setdefault(a.data[0], []).append((a, pos[0], h, h.data[1].kind))
        ctx._signs = r
    return r


def quick_sign(ctx, b):
    """0 < f(t), 0 <= f(t) from a quantified fact about f, when t is in range"""
    if b.kind not in ("lt", "le") or len(b.data[0].t) != 1: return None
    (m, c), = b.data[0].t.items()
    if c > 0 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "app": return None
    a = m[0][0]
    for pat, pos, h, kind in sign_index(ctx).get(a.data[0], ()):
        if kind == "le" and b.kind == "lt": continue
        if len(pat.data[1]) != len(a.data[1]): continue
        if any(x is not y for i, (x, y) in enumerate(zip(pat.data[1], a.data[1])) if i != pos): continue
        t = a.data[1][pos]
        if isinstance(t, B): continue
        hi = h.data[0]
        if decide(le0(-t)) is True and decide(lt0(t - hi)) is True: return True
    return None


_hsyms = {}
_tight = {}


def hsyms(h):
    r = _hsyms.get(h)
    if r is None:
        r = _hsyms[h] = frozenset(T.apps_in(h)) | frozenset(v.data[0] for v in h.fv if v.sort != "I")
    return r


def tight(ctx, b):
    """the context reduced to the facts about nothing but what occurs in b, if that is considerably smaller"""
    s = hsyms(b)
    hs = [h for h in ctx.hyps if hsyms(h) <= s]
    if len(hs) == len(ctx.hyps): return None
    key = tuple(h.id for h in hs)
    if key not in _tight: _tight[key] = Ctx(hs)
    return _tight[key]


def intfact(b):
    if b.kind == "forall": return intfact(b.data[1])
    if b.kind in ("and", "or", "not"): return all(intfact(x) for x in b.data)
    return linear_int(b)


def int_ctx(ctx):
    """the integer facts of the context"""
    r = getattr(ctx, "_ints", None)
    if r is None:
        hs = [h for h in ctx.hyps if intfact(h)]
        r = ctx if len(hs) == len(ctx.hyps) else _tight.setdefault(tuple(h.id for h in hs), Ctx(hs))
        ctx._ints = r
    return r


def settled(b):
    """b without the comparisons that the current facts decide"""
    if b.kind in ("and", "or"):
        xs = [settled(x) for x in b.data]
        return band(*xs) if b.kind == "and" else bor(*xs)
    if b.kind == "not": return bnot(settled(b.data[0]))
    if b.kind in ("le", "lt", "eq"):
        d = decide(b)
        if d is not None: return bconst(d)
    return b


def decide(b):
    ctx = cur[0]
    if b.kind in ("forall", "exists"): return None
    if b.id in ctx.idset: return True
    n = bnot(b)
    if n.id in ctx.idset: return False
    if b in ctx.cache: return ctx.cache[b]
    if b.kind == "and":
        rs = [decide(x) for x in b.data]
        if all(r is True for r in rs): return True
        if any(r is False for r in rs): return False
        return None
    for h in ctx.hyps:
        if h.kind in ("le", "lt", "eq") and b.kind in ("le", "lt", "eq"):
            if lit_implies(h, b): return True
            if lit_rel(h, b) == "contra": return False
    if b.kind == "or" and len(b.data) <= 6 and all(x.kind in ("le", "lt", "eq", "and", "not", "bvar", "bapp", "eqo", "or") for x in b.data):
        pass
    q = quick_sign(ctx, b)
    if q is not None:
        ctx.cache[b] = q
        return q
    if _depth[0] > 2 or _quiet[0]: return None
    _depth[0] += 1
    ctx.cache[b] = None
    try:
        r = None
        sums = not linear_int(b)
        tc = tight(ctx, b) if sums else int_ctx(ctx)
        if tc is not None and z3_valid(tc, b, timeout=200, sums=sums): r = True
        elif z3_valid(ctx, b, timeout=400, sums=sums): r = True
        elif z3_valid(ctx, n, timeout=300, sums=sums): r = False
    finally:
        _depth[0] -= 1
    ctx.cache[b] = r
    return r


T.decide_hook = decide
T.assume_hook = assume


# ------------------------------------------------------------------ z3
SPECIAL = ("exp", "ln", "sqrt", "floor", "fold")


class Enc:
    """terms as z3 expressions (one global instance; remembers which atoms need axioms)"""
    def __init__(self):
        self.c = {}         # atom -> z3
        self.pc = {}        # (poly, want) -> z3
        self.bc = {}
        self.sorts = {}
        self.ax = {}        # special atom -> axioms
        self.sp = {}        # poly / condition -> special atoms inside

    def sort(self, s):
        if s == "I": return z3.IntSort()
        if s == "R": return z3.RealSort()
        if s not in self.sorts: self.sorts[s] = z3.DeclareSort(s)
        return self.sorts[s]

    def poly(self, p, want=None):
        r = self.pc.get((p, want))
        if r is None: r = self.pc[(p, want)] = self._poly(p, want)
        return r

    def _poly(self, p, want=None):
        """z3 term and whether it is Int"""
        asint = isint(p) and want != "R"
        ts = []
        for m, c in p.t.items():
            t = None
            num = z3.IntVal(c.numerator) if asint else z3.RealVal(c)
            if not m: ts.append(num); continue
            if c != 1: t = num
            for a, e in m:
                x = self.atom(a)
                if x.sort() == z3.IntSort() and not asint: x = z3.ToReal(x)
                if e < 0: x = z3.RealVal(1) / (x ** 1)
                for _ in range(abs(e)):
                    t = x if t is None else t * x
            ts.append(t)
        if not ts: return z3.IntVal(0) if asint else z3.RealVal(0)
        if len(ts) == 1: return ts[0]
        return z3.Sum(ts)

    def opq(self, p):
        # opaque sorted term
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and c == 1: return self.atom(m[0][0])
        raise Unsupported("opaque term")

    def atom(self, a):
        x = self.c.get(a)
        if x is not None: return x
        k = a.kind
        if k == "var":
            x = z3.Const(a.data[0], self.sort(a.sort))
        elif k == "app":
            args = []
            for q in a.data[1]:
                if isinstance(q, B): args.append(self.b(q)); continue
                so = opaque_sort(q)
                if so: args.append(self.opq(q))
                else: args.append(self.poly(q))
            f = z3.Function(a.data[0] + "/" + "_".join(str(t.sort()) for t in args), *([t.sort() for t in args] + [self.sort(a.sort)]))
            x = f(*args) if args else z3.Const(a.data[0], self.sort(a.sort))
        elif k == "ind":
            x = z3.If(self.b(a.data[0]), z3.IntVal(1), z3.IntVal(0))
        elif k == "par":
            x = self.poly(a.data[0], "R")
        elif k == "abs":
            y = self.poly(a.data[0], "R")
            x = z3.If(y >= 0, y, -y)
        else:
            x = z3.Const("%s@%d" % (k, a.id), z3.IntSort() if a.sort == "I" else z3.RealSort())
        self.c[a] = x
        return x

    def axioms(self, a):
        r = self.ax.get(a)
        if r is not None: return r
        k = a.kind; x = self.atom(a)
        r = []
        if k == "exp":
            y = self.poly(a.data[0], "R")
            r = [x > 0, x >= 1 + y, z3.Implies(y <= 0, x <= 1), z3.Implies(y == 0, x == 1), z3.Implies(y > 0, x > 1), z3.Implies(y < 0, x < 1)]
        elif k == "ln":
            y = self.poly(a.data[0], "R")
            r = [z3.Implies(y > 1, x > 0), z3.Implies(z3.And(y > 0, y < 1), x < 0), z3.Implies(y == 1, x == 0), z3.Implies(y > 0, x <= y - 1)]
        elif k == "sqrt":
            y = self.poly(a.data[0], "R")
            r = [x >= 0, z3.Implies(y >= 0, x * x == y), z3.Implies(y > 0, x > 0)]
        elif k == "floor":
            y = self.poly(a.data[0], "R")
            r = [z3.ToReal(x) <= y, y < z3.ToReal(x) + 1]
        elif k == "fold" and a.data[0] in ("max", "min"):
            y = self.poly(a.data[3], "I" if a.sort == "I" else "R")
            r = [x >= y if a.data[0] == "max" else x <= y]
        elif k == "fold":
            r = [x >= -1, x < self.poly(a.data[1])]
        self.ax[a] = r
        return r

    def specials(self, x):
        """atoms with axioms that are visible to z3 in x (not under a sum or a fold)"""
        r = self.sp.get(x)
        if r is not None: return r
        acc = set()
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    if a.kind in SPECIAL: acc.add(a)
                    if a.kind in ("app", "ind", "par", "abs", "exp", "ln", "sqrt", "floor"):
                        for y in a.data:
                            for z in (y if isinstance(y, tuple) else (y,)):
                                if isinstance(z, (Poly, B)): acc |= self.specials(z)
                    elif a.kind == "fold":
                        acc |= self.specials(a.data[3]) | self.specials(a.data[1])
        elif x.kind not in ("forall", "exists"):
            for y in x.data:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, (Poly, B)): acc |= self.specials(z)
        r = self.sp[x] = frozenset(acc)
        return r

    def b(self, b):
        r = self.bc.get(b)
        if r is None: r = self.bc[b] = self._b(b)
        return r

    def _b(self, b):
        k = b.kind
        if k == "true": return z3.BoolVal(True)
        if k == "false": return z3.BoolVal(False)
        if k == "le": p = self.poly(b.data[0]); return p <= 0
        if k == "lt": p = self.poly(b.data[0]); return p < 0
        if k == "eq": p = self.poly(b.data[0]); return p == 0
        if k == "eqo": return self.opq(b.data[0]) == self.opq(b.data[1])
        if k == "not": return z3.Not(self.b(b.data[0]))
        if k == "and": return z3.And([self.b(x) for x in b.data])
        if k == "or": return z3.Or([self.b(x) for x in b.data])
        if k == "bvar": return z3.Bool(b.data[0])
        if k == "bapp":
            args = [self.opq(q) if opaque_sort(q) else self.poly(q) for q in b.data[1]]
            f = z3.Function("B" + b.data[0], *([t.sort() for t in args] + [z3.BoolSort()]))
            return f(*args) if args else z3.Bool(b.data[0])
        if k == "exists": return z3.Not(self.b(bnot(b)))
        return z3.Bool("%s@%d" % (k, b.id))


ENC = Enc()


def opaque_sort(p):
    for m in p.t:
        for a, _ in m:
            if a.sort not in ("I", "R"): return a.sort
    return None


def ground_apps(bs):
    acc = {}
    for b in bs: atoms_of(b, acc)
    return [a for a in acc.values() if not any(v.data[0].startswith("#") for v in a.fv)]


class Either:
    def __init__(self, data, id): self.data = data; self.id = id


_nex = {}


def nested_exists(bs):
    """the closed existential statements in the boolean structure of the given facts"""
    out = {}
    def walk(b):
        if b.kind == "exists":
            if not any(v.data[0].startswith("#") for v in b.fv): out[b.id] = b
        elif b.kind in ("and", "or", "not"):
            for x in b.data: walk(x)
    for b in bs:
        if b not in _nex:
            out = {}; walk(b); _nex[b] = list(out.values())
    r = {}
    for b in bs:
        for x in _nex[b]: r[x.id] = x
    return list(r.values())[:6]


_nq = {}


def stepped(bs):
    """(for every v < h + 1: p) is (for every v < h: p) and p(h)"""
    def walk(b, out):
        if b.kind in ("exists", "forall"):
            if not any(v.data[0].startswith("#") for v in b.fv):
                q = b if b.kind == "forall" else bnot(b)
                if q.kind == "forall": out[q.id] = q
        elif b.kind in ("and", "or", "not"):
            for x in b.data: walk(x, out)
    qs = {}
    for b in bs:
        if b.kind not in ("and", "or", "not", "exists", "forall"): continue
        if b not in _nq:
            out = {}; walk(b, out); _nq[b] = list(out.values())
        for x in _nq[b]: qs[x.id] = x
    r = []
    by = {}
    for q in qs.values(): by.setdefault((q.data[1].id, q.data[2]), []).append(q)
    for l in by.values():
        if len(l) < 2: continue
        for x in l:
            for y in l:
                if x is not y and is_const(x.data[0] - y.data[0]) == 1:
                    h = y.data[0]
                    v, _, body = bopen(y)
                    r.append(T.implies(le0(-h), T.iff(x, band(y, bsubst(body, {v: h})))))
        if len(r) > 8: break
    return r


def instances(ctx, bs, rounds=2):
    """instances of the universally quantified hypotheses at the index terms of the query"""
    foralls = [h for h in ctx.hyps if h.kind == "forall"]
    for h in ctx.hyps:
        # (guard or forall ..) is kept with its guard
        if h.kind == "or":
            fs = [x for x in h.data if x.kind == "forall"]
            if len(fs) == 1: foralls.append((h, fs[0]))
    # an existential statement holds or every instance of it fails
    for x in nested_exists(list(ctx.hyps) + list(bs)):
        v, hi, body = bopen(x)
        q = T.forall(v, hi, bnot(body))
        if q.kind == "forall": foralls.append((Either((x, q), -x.id), q))
    out = {}
    folds = {}
    def fold_facts(bs):
        """a running maximum bounds every element and is one of them (the first that attains it) or the initial value"""
        for b in bs:
            for a in atoms_of(b).values():
                if a.kind != "fold" or a.data[0] not in ("max", "min") or a.id in folds or any(v.data[0].startswith("#") for v in a.fv): continue
                if len(folds) > 12: return
                folds[a.id] = a
                op, v, hi, body, init = T.fold_open(a)
                sg = 1 if op == "max" else -1
                q = T.forall(v, hi, le0(scale(body[0] - P(a), sg)))
                if q.kind == "forall": foralls.append(q)
                w = P(T.mk_atom("var", ("wit!%d" % a.id,), "I"))
                f = bor(eq0(P(a) - init), band(le0(-w), lt0(w - hi), eq0(P(a) - subst(body[0], {v: w})), lt0(scale(init - P(a), sg))))
                out[f.id] = f
                q = bor(eq0(P(a) - init), T.forall(v, w, lt0(scale(body[0] - P(a), sg))))
                fs = [x for x in q.data if x.kind == "forall"] if q.kind == "or" else []
                if len(fs) == 1: foralls.append((q, fs[0]))
    fold_facts(bs)
    for x in stepped(list(ctx.hyps) + list(bs)): out[x.id] = x
    if not foralls: return list(out.values())
    todo = list(bs)
    if folds: rounds += 1
    done = set()
    for rnd in range(5):
        if rnd >= rounds: break
        if rnd:
            n0 = len(folds); fold_facts(list(out.values()))
            if len(folds) > n0: rounds = min(5, max(rounds, rnd + 3))
        apps = [a for a in ground_apps(todo + list(out.values())) if a.kind == "app"]
        bapps = ground_bapps(todo + list(out.values()))
        new = False
        for f in list(foralls):
            h, q = f if isinstance(f, tuple) else (None, f)
            hi, body, base = q.data
            bv = bvar(base + 1)
            pats = patterns(q, bv)
            top = {}
            for p, pos, off in pats: top[(p.data[0], pos)] = max(top.get((p.data[0], pos), off), off)
            cands = set()
            for p, pos, off in pats:
                if rnd and off < top[(p.data[0], pos)]: continue      # a recurrence is unrolled backwards only
                for a in apps:
                    if a.data[0] == p.data[0] and len(a.data[1]) == len(p.data[1]): cands.add(a.data[1][pos] - off)
                    elif a.data[0][:4] == "inv:" and a.data[0][4:] == p.data[0]: cands.add(P(a) - off)
            for p in body_bapps(body):
                for i, x in enumerate(p.data[1]):
                    if x is P(bv):
                        for a in bapps:
                            if a.data[0] == p.data[0]: cands.add(a.data[1][i])
            if not pats and not body_bapps(body): cands = {hi - 1, ZERO}
            for c in cands:
                if opaque_sort(c): continue
                key = (q.id, c, h.id if h is not None else 0)
                if key in done: continue
                done.add(key)
                if len(done) > 150: break
                inst = implies(band(le0(-c), lt0(c - hi)), bsubst(body, {bv: c}))
                if h is not None: inst = bor(inst, *[x for x in h.data if x is not q])
                out[inst.id] = inst
                new = True
                # a nested quantifier becomes available
                if inst.kind == "forall": foralls.append(inst)
                elif inst.kind == "or":
                    fs = [x for x in inst.data if x.kind == "forall"]
                    if len(fs) == 1: foralls.append((inst, fs[0]))
        if not new: break
    return list(out.values())


_patterns = {}


def patterns(q, bv):
    """(atom, position, offset): the applications f(.., # + offset, ..) in the body of a quantifier"""
    r = _patterns.get(q)
    if r is None:
        r = []
        v = P(bv)
        for a in atoms_of(q.data[1]).values():
            if a.kind != "app": continue
            for i, x in enumerate(a.data[1]):
                if not isinstance(x, Poly): continue
                off = x - v
                c = is_const(off)
                if c is not None: r.append((a, i, c)); break
        _patterns[q] = r
    return r


def ground_bapps(bs):
    r = []
    def walk(b):
        if b.kind == "bapp": r.append(b)
        for x in b.data:
            if isinstance(x, B): walk(x)
            elif isinstance(x, Poly):
                for a in atoms_of(x).values():
                    if a.kind == "ind": walk(a.data[0])
    for b in bs: walk(b)
    return [b for b in r if not any(v.data[0].startswith("#") for v in b.fv)]


def body_bapps(b):
    r = []
    def walk(b):
        if b.kind == "bapp": r.append(b)
        for x in b.data:
            if isinstance(x, B): walk(x)
    walk(b)
    return r


_signcache = {}


def sum_facts(ctx, atoms):
    """sign facts for Sum atoms (a sum of non-negative terms is non-negative, ...) and bounds of folds"""
    out = []
    for a in atoms:
        if a.kind == "sum":
            key = (a, ctx.id)
            if key not in _signcache:
                _signcache[key] = []
                r = []
                bs, body = T._open_sum(a)
                rng = [band(le0(-P(v)), lt0(P(v) - h)) for v, h in bs]
                c2 = ctx.plus(*rng)
                c2 = tight(c2, le0(body)) or c2
                with use(c2):
                    if _depth[0] < 4:
                        _depth[0] += 1
                        try:
                            sg = T.syn_sign(body)
                            sums = not (_depth[0] > 1 and all(x.kind != 'sum' for x in T.all_atoms(body, [])))
                            if sg is not None or z3_valid(c2, le0(-body), timeout=300, sums=sums):
                                r.append(le0(-P(a)))
                                if sg == 1 or z3_valid(c2, lt0(-body), timeout=300, sums=sums):
                                    # strictly positive when non-empty (independent limits only)
                                    if all(not (h.fv & {x for x, _ in bs}) for _, h in bs):
                                        r.append(bor(lt0(-P(a)), *[le0(h) for _, h in bs]))
                            elif z3_valid(c2, le0(body), timeout=300, sums=sums):
                                r.append(le0(P(a)))
                        finally:
                            _depth[0] -= 1
                _signcache[key] = r
            out += _signcache[key]
    # initial segments of one sequence of non-negative terms
    groups = {}
    for a in atoms:
        if a.kind == "sum" and len(a.data[0]) == 1: groups.setdefault((a.data[1], a.data[2]), []).append(a)
    for g in groups.values():
        if not 2 <= len(g) <= 5: continue
        for a in g:
            for b in g:
                if a is b or not all(any(f is le0(-P(x)) for f in _signcache.get((x, ctx.id), ())) for x in (a, b)): continue
                la, lb = a.data[0][0], b.data[0][0]
                bs, body = T._open_sum(a)
                out.append(bor(lt0(lb - la), le0(P(a) - P(b))))
                if any(x.kind in ("exp", "ln", "sqrt") for x in T.all_atoms(body, [])): continue    # no further special terms
                out.append(bor(lt0(la), le0(lb - la), le0(P(a) + subst(body, {bs[0][0]: la}) - P(b))))
    return out


def query(qs, timeout):
    """satisfiability of the conjunction, with the axioms of the special functions in it"""
    e = ENC
    zs = [e.b(b) for b in qs if b is not TRUE]
    sp = set()
    for b in qs: sp |= e.specials(b)
    side = []
    for a in sp: side += e.axioms(a)
    # monotonicity between exp / ln atoms
    for kind in ("exp", "ln", "sqrt"):
        at = [a for a in sp if a.kind == kind and not any(v.data[0].startswith("#") for v in a.fv)]
        if 2 <= len(at) <= 5:
            for i in range(len(at)):
                for j in range(i):
                    p, q = e.poly(at[i].data[0], "R"), e.poly(at[j].data[0], "R")
                    x, y = e.atom(at[i]), e.atom(at[j])
                    dom = z3.And(p > 0, q > 0) if kind != "exp" else z3.BoolVal(True)
                    side += [z3.Implies(z3.And(dom, p < q), x < y), z3.Implies(z3.And(dom, q < p), y < x), z3.Implies(p == q, x == y)]
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(zs); s.add(side)
    return s.check()


def many(qs):
    """too many special functions for their pairwise monotonicity"""
    sp = set()
    for b in qs: sp |= ENC.specials(b)
    return any(sum(a.kind == k for a in sp) > 5 for k in ("exp", "ln", "sqrt"))


def real_atoms(b):
    """real-valued atoms other than plain variables"""
    return frozenset(a for a in atoms_of(b).values() if a.kind in ("app", "exp", "ln", "sum", "fold", "sqrt", "abs") and a.sort == "R")


def slim(facts, neg):
    """the facts about the real quantities of the goal and of the facts next to it; their integer guards are
    settled beforehand"""
    ints = z3.Solver(); ints.set("timeout", 200)
    for h in facts:
        if linear_int(h): ints.add(ENC.b(h))
    memo = {}
    def holds(l):
        if l not in memo:
            ints.push(); ints.add(ENC.b(bnot(l))); memo[l] = ints.check() == z3.unsat; ints.pop()
        return memo[l]
    def strip(h):
        if h.kind == "or":
            xs = []
            for x in h.data:
                if linear_int(x):
                    if holds(x): return TRUE
                    if holds(bnot(x)): continue
                xs.append(x)
            return bor(*xs)
        if h.kind == "and": return band(*[strip(x) for x in h.data])
        return h
    out = []; reals = []
    A = real_atoms(neg)
    if not A: return None
    for h in facts:
        h = strip(h)
        if h is TRUE or h.kind == "forall" or "forall" in [x.kind for x in (h.data if h.kind in ("or", "and") else ())]: continue
        if h.kind == "and": hs = h.data
        else: hs = [h]
        for x in hs:
            if linear_int(x): out.append(x)
            else: reals.append((x, real_atoms(x)))
    A2 = set(A)
    for x, r in reals:
        if x.kind in ("le", "lt", "eq") and r & A and len(r - A) <= 3: A2 |= r
    out += [x for x, r in reals if r <= A2]
    return out


def z3_valid(ctx, goal, timeout=2000, sums=True):
    """hyps => goal"""
    if goal is TRUE: return True
    if deadline[0] and time.time() > deadline[0]: return False
    stats["z3"] += 1
    t0 = time.time()
    _nest[0] += 1
    try:
        neg = bnot(goal)
        base = [h for h in ctx.hyps if h.kind not in ("forall",)]
        # only hypotheses sharing symbols (transitively) with the goal
        rel = relevant(base, neg)
        _quiet[0] += 1
        try: inst = instances(ctx, rel + [neg])
        finally: _quiet[0] -= 1
        if inst and len(rel) < len(base): rel = relevant(base, neg, inst)
        qs = rel + inst + [neg]
        if sums:
            acc = {}
            for b in qs: atoms_of(b, acc)
            tops = [a for a in acc.values() if a.kind == "sum" and not any(v.data[0].startswith("#") for v in a.fv)]
            if _depth[0] < 4: qs += sum_facts(ctx, tops)
        if timeout > 900:
            r = query(qs, 700)
            if r == z3.unsat: return True
            if r == z3.sat and not many(qs): return False
            sl = slim(rel + inst, neg)
            if sl is not None and sums and _depth[0] < 4:
                acc = {}
                for b in sl + [neg]: atoms_of(b, acc)
                sl += sum_facts(ctx, [a for a in acc.values() if a.kind == "sum" and not any(v.data[0].startswith("#") for v in a.fv)])
            if sl is not None and query(sl + [neg], 1500) == z3.unsat: return True
        return query(qs, timeout) == z3.unsat
    except (Unsupported, z3.Z3Exception):
        return False
    finally:
        _nest[0] -= 1
        if not _nest[0]: stats["z3_time"] += time.time() - t0


def relevant(hyps, goal, more=()):
    if len(hyps) < 12: return hyps
    def syms(b): return set(a.id for a in atoms_of(b).values() if a.kind in ("var", "app"))
    S = syms(goal)
    for b in more: S |= syms(b)
    hs = [(h, syms(h)) for h in hyps]
    chosen = set(); changed = True
    rounds = 0
    while changed and rounds < 4:
        changed = False; rounds += 1
        add = set()
        for i, (h, s) in enumerate(hs):
            if i not in chosen and (s & S or not s): chosen.add(i); add |= s; changed = True
        S |= add
    return [hs[i][0] for i in sorted(chosen)]


# ------------------------------------------------------------------ proving
def prove(goal, ctx=None, depth=0, timeout=4000):
    """True if the goal follows from the context"""
    ctx = ctx or cur[0]
    with use(ctx):
        return _prove(goal, ctx, depth, timeout)


def direct(goal, ctx, timeout=4000):
    """the whole context and its instances in one query per conjunct (for goals whose pieces hang together)"""
    with use(ctx):
        for g in (goal.data if goal.kind == "and" else [goal]):
            if g is TRUE or g.id in ctx.idset: continue
            n = bnot(g)
            try:
                if query([h for h in ctx.hyps if h.kind != "forall"] + instances(ctx, [n]) + [n], timeout) != z3.unsat and not prove(g, ctx): return False
            except (Unsupported, z3.Z3Exception): return False
    return True


deadline = [0]       # the prover gives up at this time


def _prove(goal, ctx, depth, timeout):
    if goal is TRUE: stats["nf"] += 1; return True
    if deadline[0] and time.time() > deadline[0]: return False
    if goal is FALSE: return inconsistent(ctx)
    if goal.id in ctx.idset: return True
    k = goal.kind
    if k == "and":
        return all(prove(x, ctx, depth, timeout) for x in goal.data)
    if k == "forall":
        v, hi, body = bopen(goal)
        return prove(body, ctx.plus(le0(-P(v)), lt0(P(v) - hi)), depth, timeout)
    if k == "or":
        xs = [x for x in goal.data if x.kind in ("forall", "eq", "and")] or list(goal.data)
        # prove one disjunct under the negation of the others
        for x in sorted(xs, key=lambda x: {"forall": 0, "eq": 1, "and": 2}.get(x.kind, 3)):
            others = [bnot(y) for y in goal.data if y is not x]
            c2 = ctx.plus(*others)
            if prove(x, c2, depth + 1, timeout): return True
            if depth > 3: break
        if _split[0] == 0 and depth <= 2: return split_prove(goal, ctx, timeout)
        return False
    if depth > 12: return False
    if k == "exists":
        hi, body, base = goal.data
        bv = bvar(base + 1)
        pats = patterns(goal, bv)
        apps = [a for a in ground_apps([goal] + list(ctx.hyps)) if a.kind == "app"]
        cands = []
        for p, pos, off in pats:
            for a in apps:
                if a.data[0] == p.data[0] and len(a.data[1]) == len(p.data[1]):
                    c = a.data[1][pos] - off
                    if c not in cands: cands.append(c)
        for p in body_bapps(body):
            for i, x in enumerate(p.data[1]):
                if x is P(bv):
                    for a in ground_bapps(list(ctx.hyps)):
                        if a.data[0] == p.data[0] and a.data[1][i] not in cands: cands.append(a.data[1][i])
        for c in [ZERO, hi - 1]:
            if c not in cands: cands.append(c)
        alts = [band(le0(-c), lt0(c - hi), bsubst(body, {bv: c})) for c in cands[:10]]
        for x in alts:
            if x is not FALSE and prove(x, ctx, depth + 2, min(timeout, 800)): return True
        return z3_valid(ctx, bor(goal, *alts), timeout=timeout)
    if k in ("le", "lt", "eq"):
        p = goal.data[0]
        q = rebuild(p)
        g = {"le": le0, "lt": lt0, "eq": eq0}[k](q)
        if g is TRUE: stats["nf"] += 1; return True
        if g is not goal and g.kind not in ("le", "lt", "eq"): return prove(g, ctx, depth + 1, timeout)
        if g.kind in ("le", "lt", "eq"):
            goal = g; p = g.data[0]; k = g.kind
        n, d = numer_denom(p)
        if d is not ONE:
            if k == "eq":
                if n is ZERO: stats["nf"] += 1; return True
                g2 = eq0(n)
                if g2 is TRUE: stats["nf"] += 1; return True
                if g2 is not goal and prove(g2, ctx, depth + 1, timeout): return True
            else:
                if z3_valid(ctx, lt0(-d), timeout=500):
                    return prove((le0 if k == "le" else lt0)(n), ctx, depth + 1, timeout)
                if z3_valid(ctx, lt0(d), timeout=500):
                    return prove((le0 if k == "le" else lt0)(-n), ctx, depth + 1, timeout)
        # use equations of the context: atom = poly
        q = rewrite_eqs(p, ctx)
        if q is not p:
            g = {"le": le0, "lt": lt0, "eq": eq0}[k](q)
            if prove(g, ctx, depth + 1, timeout): return True
        if k == "eq":
            m = match_args(p, ctx, timeout)
            if m is not p: return prove(eq0(m), ctx, depth + 1, timeout)
            # c ln A + .. = 0  <=>  A exp(../c) = 1
            lns = [(a, mkpoly({tuple(x for x in mm if x[0] is not a): cc})) for mm, cc in p.t.items() for a, e in mm if a.kind == "ln" and e == 1 and len(a.data[0].t) > 1]
            lns = [(a, is_const(c)) for a, c in lns if is_const(c) is not None]
            if lns and depth < 10:
                try:
                    q = exp(scale(p, 1 / abs(lns[0][1])))
                    if not (len(q.t) == 1 and all(a.kind == "exp" for m in q.t for a, _ in m)):
                        n2, d2 = numer_denom(q - 1)
                        if prove(eq0(n2), ctx, depth + 3, timeout): return True
                except Unsupported: pass
    if linear_int(goal):
        ic = int_ctx(ctx)
        if ic is not ctx and z3_valid(ic, goal, timeout=500, sums=False): return True
    if z3_valid(ctx, goal, timeout=timeout): return True
    if k in ("le", "lt"):
        if sums_pointwise(p, k, ctx, timeout): return True
    if k == "eq" and depth < 8 and any(a.kind == "sum" and e == 1 and len(mm) > 1 or a.kind == "sum" for mm in p.t for a, e in mm):
        if sums_pointwise(p, k, ctx, min(timeout, 1000)): return True
    if _split[0] == 0 and depth <= 2 and k in ("le", "lt", "eq") and len(T.top_inds(p)) >= 2:
        return split_prove(goal, ctx, timeout)
    # split on a condition inside the goal
    lits = inner_inds(goal)
    if lits and depth < 8:
        c = lits[0]
        return prove(goal, ctx.plus(c), depth + 1, timeout) and prove(goal, ctx.plus(bnot(c)), depth + 1, timeout)
    return False


_split = [0]


def assign(b, l, val):
    """b when the literal l has the given truth value"""
    nl = bnot(l)
    def walk(b):
        if b is l: return T.bconst(val)
        if b is nl: return T.bconst(not val)
        k = b.kind
        if k == "and": return band(*[walk(x) for x in b.data])
        if k == "or": return bor(*[walk(x) for x in b.data])
        if k == "not": return bnot(walk(b.data[0]))
        if k in ("le", "lt", "eq"):
            p = b.data[0]
            q = T.set_ind(T.set_ind(p, l, val), nl, not val)
            if q is not p: return {"le": le0, "lt": lt0, "eq": eq0}[k](q)
        return b
    return walk(b)


def case_lits(g):
    out = []
    def walk(b):
        if b.kind in ("and", "or", "not"):
            for x in b.data: walk(x)
        elif b.kind in ("le", "lt", "eq"):
            if b not in out and bnot(b) not in out: out.append(b)
            for l in T.top_inds(b.data[0]):
                if l not in out and bnot(l) not in out: out.append(l)
    walk(g)
    return out


def linear_int(b):
    if b.kind in ("and", "or", "not"): return all(linear_int(x) for x in b.data)
    if b.kind in ("le", "eq"): return isint(b.data[0]) and all(len(m) <= 1 and all(e == 1 and a.kind in ("var", "app") for a, e in m) for m in b.data[0].t)
    return False


def split_prove(goal, ctx, timeout, budget=60, seconds=12):
    """case analysis over the integer conditions of the goal; each case is proved on its own"""
    t0 = time.time()
    left = [budget]
    s = z3.Solver(); s.set("timeout", 300)
    for h in ctx.hyps:
        if h.kind != "forall" and linear_int(h): s.add(ENC.b(h))
    for h in instances(ctx, [goal]):
        if linear_int(h): s.add(ENC.b(h))
    _split[0] += 1
    def rec(g, trail, subs=()):
        if g is TRUE: return True
        if time.time() - t0 > seconds: return False
        lits = case_lits(g)
        ints = [l for l in lits if linear_int(l)]
        if ints and not (len(lits) == 1 and g is ints[0]):
            l = ints[0]
            for x, val in ((l, True), (bnot(l), False)):
                s.push()
                try:
                    s.add(ENC.b(x))
                    if s.check() == z3.unsat: continue
                    g2 = assign(g, l, val); s2 = subs
                    if x.kind == "eq":
                        vs = [v for v in x.fv if v.kind == "var" and v.sort == "I" and not v.data[0].startswith("#")]
                        # youngest first; variables under an inverse permutation before all others
                        for v in sorted(vs, key=lambda v: (T.solve_for(x.data[0], v) is not None, -v.id)):
                            t = T.solve_eq(x.data[0], v)
                            if t is not None and v not in t.fv: g2 = T.bsubst(g2, {v: t}); s2 = subs + ((v, t),); break
                    if not rec(g2, trail + [x], s2): return False
                finally: s.pop()
            return True
        left[0] -= 1
        if left[0] < 0: return False
        hs = ctx.hyps + trail
        for v, t in subs: hs = [T.bsubst(h, {v: t}) if v in h.fv else h for h in hs]
        c2 = Ctx(hs)
        if g is FALSE: return inconsistent(c2)
        r = prove(g, c2, 1, min(timeout, 3000))
        if not r and TRACE_LEAF: print("LEAF", trail, "\n   GOAL", repr(g)[:1500])
        return r
    try: return rec(goal, [])
    finally: _split[0] -= 1


import os
TRACE_LEAF = os.environ.get("VC_LEAF")


def inner_inds(goal):
    """indicator literals inside the goal that the context does not decide (closed ones only)"""
    out = []
    for a in atoms_of(goal).values():
        if a.kind == "ind" and not any(v.data[0].startswith("#") for v in a.fv):
            if decide(a.data[0]) is None: out.append(a.data[0])
    return out


def inconsistent(ctx):
    return z3_valid(ctx, FALSE, timeout=2000)


def rewrite_eqs(p, ctx):
    """replace atoms that the context equates with something else"""
    for h in ctx.hyps:
        if h.kind == "eq":
            q = h.data[0]
            cand = None
            for m, c in q.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("sum", "app", "var", "ln", "exp", "fold", "floor"):
                    a = m[0][0]
                    rest = mkpoly({mm: k for mm, k in q.t.items() if mm != m})
                    if a in [x for mm in rest.t for x, _ in mm] or a.id in atoms_of(rest): continue
                    if cand is None or _rank(a) > _rank(cand[0]): cand = (a, scale(rest, -1 / c))
            if cand and cand[0].id in atoms_of(p):
                q2 = replace_atom(p, cand[0], cand[1])
                if q2 is not p: p = q2
    return p


def _rank(a):
    return (3 if a.kind in ("sum", "fold") else 2 if a.kind in ("ln", "exp", "floor") else 1 if a.kind == "app" else 0, a.id)


def replace_atom(p, a, val):
    return T.replace_app(p, a, val)


def match_args(p, ctx, timeout):
    """f(s) - f(t): when s = t is provable, identify the two atoms (f = exp, ln, sqrt, sum, fold, app ...)"""
    ats = {}
    for m in p.t:
        for a, _ in m: ats[a.id] = a
    ats = list(ats.values())
    for i in range(len(ats)):
        for j in range(i):
            a, b = ats[i], ats[j]
            if a.kind != b.kind or a.kind not in ("exp", "ln", "sqrt", "abs", "sum", "par", "floor", "fold", "app"): continue
            if _same(a, b, ctx):
                return replace_atom(p, a, P(b)) if a.kind != "par" else _replace_par(p, a, b)
    return p


def _replace_par(p, a, b):
    return mkpoly_sum([(tuple((b if x is a else x, e) for x, e in m), c) for m, c in p.t.items()])


def mkpoly_sum(items):
    d = {}
    for m, c in items:
        m = tuple(sorted(m, key=lambda x: x[0].id))
        d[m] = d.get(m, F0) + c
    return mkpoly(d)


_samecache = {}


def _same(a, b, ctx):
    key = (a, b, ctx.id)
    if key in _samecache: return _samecache[key]
    _samecache[key] = False
    r = False
    if a.kind in ("exp", "ln", "sqrt", "abs", "par", "floor"):
        r = prove(eq0(a.data[0] - b.data[0]), ctx, 6, 1500)
    elif a.kind == "app":
        if a.data[0] == b.data[0] and len(a.data[1]) == len(b.data[1]):
            r = all(x is y or (isinstance(x, Poly) and isinstance(y, Poly) and not opaque_sort(x) and not opaque_sort(y) and prove(eq0(x - y), ctx, 6, 1000)) for x, y in zip(a.data[1], b.data[1]))
    elif a.kind == "sum":
        h1, m1, b1 = a.data; h2, m2, b2 = b.data
        if len(h1) == len(h2) == 1:
            if prove(eq0(h1[0] - h2[0]), ctx, 6, 800):
                v = fresh("e")
                x = subst(m1, {bvar(b1 + 1): P(v)}); y = subst(m2, {bvar(b2 + 1): P(v)})
                r = prove(eq0(x - y), ctx.plus(le0(-P(v)), lt0(P(v) - h1[0])), 5, 1500)
    elif a.kind == "fold":
        if a.data[0] == b.data[0] and len(a.data[2]) == len(b.data[2]) and prove(eq0(a.data[1] - b.data[1]), ctx, 6, 800) and prove(eq0(a.data[3] - b.data[3]), ctx, 6, 800):
            v = fresh("e")
            c2 = ctx.plus(le0(-P(v)), lt0(P(v) - a.data[1]))
            r = True
            for x, y in zip(a.data[2], b.data[2]):
                x = subst(x, {bvar(a.data[4] + 1): P(v)}); y = subst(y, {bvar(b.data[4] + 1): P(v)})
                r = r and prove(eq0(x - y), c2, 5, 1500)
    _samecache[key] = r
    return r


def sums_pointwise(p, k, ctx, timeout):
    """sum_i f(i) + c <= 0 when f <= 0 pointwise and c <= 0"""
    groups = {}; rest = {}
    for m, c in p.t.items():
        s = [(a, e) for a, e in m if a.kind == "sum" and e == 1 and len(a.data[0]) == 1]
        if len(s) == 1 and not any(v.data[0].startswith("#") for v in s[0][0].fv):
            a = s[0][0]
            fac = mkpoly({tuple(x for x in m if x[0] is not a): c})
            groups.setdefault(a.data[0][0], []).append((a, fac))
        else: rest[m] = c
    if not groups: return False
    v = fresh("p")
    body = ZERO
    if len(groups) > 1:
        # the largest bound; shorter sums are extended with an indicator
        hi = None
        for h in groups:
            if all(h is g or prove(le0(g - h), ctx, 8, 800) for g in groups): hi = h; break
        if hi is None: return False
    else: hi = next(iter(groups))
    for h, lst in groups.items():
        for a, fac in lst:
            t = fac * subst(a.data[1], {bvar(a.data[2] + 1): P(v)})
            if h is not hi: t = t * ind(lt0(P(v) - h))
            body = body + t
    r = mkpoly(rest)
    c2 = ctx.plus(le0(-P(v)), lt0(P(v) - hi))
    if k == "eq": return prove(eq0(r), ctx, 8, timeout) and prove(eq0(body), c2, 8, timeout)
    if not r.t:
        return prove(le0(body), c2, 6, timeout) if k == "le" else (prove(lt0(body), c2, 6, timeout) and prove(lt0(-hi), ctx, 6, 1000))
    return prove(le0(body), c2, 6, timeout) and prove((le0 if k == "le" else lt0)(r), ctx, 6, timeout)


# ------------------------------------------------------------------ numeric evaluation and refutation
COEF = float


class Undefined(Exception):
    pass


class Model:
    """a random valuation: integers for the size symbols, tables for functions"""
    def __init__(self, rng, gens):
        self.rng = rng; self.gens = gens; self.v = {}; self.t = {}

    def var(self, a):
        n = a.data[0]
        if n not in self.v:
            g = self.gens.get(n)
            if g is not None: self.v[n] = g(self)
            elif a.sort == "I": self.v[n] = self.rng.randint(0, 4)
            elif a.sort == "R": self.v[n] = self.rng.choice([0.0, 1.0, -1.0, 0.5, self.rng.uniform(-2, 2), self.rng.uniform(0, 1)])
            else: self.v[n] = "%s_%d" % (a.sort, self.rng.randint(0, 2))
        return self.v[n]

    def app(self, f, args, sort):
        key = (f,) + tuple(args)
        if key not in self.t:
            g = self.gens.get(f)
            if g is not None: self.t[key] = g(self, *args)
            elif sort == "I": self.t[key] = self.rng.randint(0, 4)
            elif sort == "R": self.t[key] = self.rng.choice([0.0, 1.0, -1.0, self.rng.uniform(-2, 2), self.rng.uniform(0, 1)])
            else: self.t[key] = "%s_%d" % (sort, self.rng.randint(0, 3))
        return self.t[key]


def ev(p, M, env):
    r = 0.0
    exact = True
    for m, c in p.t.items():
        t = COEF(c) if c.denominator != 1 else int(c)
        # indicators first: a false one hides an undefined factor
        for a, e in m:
            if a.kind == "ind" and not evb(a.data[0], M, env): t = 0; break
        else:
            for a, e in m:
                if a.kind == "ind": continue
                x = eva(a, M, env)
                if isinstance(x, str):
                    if len(p.t) == 1 and len(m) == 1: return x
                    if len(m) >= 1: # conditional opaque value
                        return _ev_opq(p, M, env)
                if e < 0 and x == 0: raise Undefined()
                t = t * (x ** e if e != 1 else x)
        r = r + t
    if isinstance(r, complex) or r != r or abs(r) > 1e200: raise Undefined()
    if isinstance(r, float) and r == int(r) and isint(p): r = int(r)
    return r


def _ev_opq(p, M, env):
    lits = top_inds(p)
    if not lits: raise Undefined()
    c = lits[0]
    return ev(set_ind(p, c, evb(c, M, env)), M, env)


def eva(a, M, env):
    k = a.kind
    if k == "var":
        if a in env: return env[a]
        return M.var(a)
    if k == "app":
        args = [evb(x, M, env) if isinstance(x, B) else ev(x, M, env) for x in a.data[1]]
        args = [int(x) if isinstance(x, float) and x == int(x) else x for x in args]
        if a.data[0] == "powf":
            if args[0] <= 0: raise Undefined()
            return args[0] ** args[1]
        return M.app(a.data[0], args, a.sort)
    try:
        if k == "exp":
            return math.exp(ev(a.data[0], M, env))
        if k == "ln": return math.log(ev(a.data[0], M, env))
        if k == "sqrt": return math.sqrt(ev(a.data[0], M, env))
    except (ValueError, OverflowError):
        raise Undefined()
    if k == "abs": return abs(ev(a.data[0], M, env))
    if k == "floor": return math.floor(ev(a.data[0], M, env))
    if k == "par": return ev(a.data[0], M, env)
    if k == "ind": return 1 if evb(a.data[0], M, env) else 0
    if k == "sum":
        his, body, base = a.data
        def go(i, env):
            if i == len(his): return ev(body, M, env)
            h = ev(his[i], M, env); r = 0
            for x in range(int(h)):
                e2 = dict(env); e2[bvar(base + i + 1)] = x
                r += go(i + 1, e2)
            return r
        return go(0, env)
    if k == "fold":
        op, hi, body, init, base = a.data
        h = int(ev(hi, M, env))
        xs = []
        for i in range(h):
            e2 = dict(env); e2[bvar(base + 1)] = i
            xs.append(ev(body[0], M, e2))
        i0 = ev(init, M, env)
        if op == "max": return max([i0] + xs)
        if op == "min": return min([i0] + xs)
        best, arg = i0, -1
        for i, x in enumerate(xs):
            if {"argmax": x > best, "argmaxlast": x >= best, "argmin": x < best, "argminlast": x <= best}[op]: best, arg = x, i
        return arg
    raise Undefined()


EPS = 1e-9


def evb(b, M, env, mode=None):
    """mode None: plain;  'hyp': hold with tolerance;  'viol': clearly false -> returns False only then"""
    k = b.kind
    if k == "true": return True
    if k == "false": return False
    if k in ("le", "lt", "eq"):
        x = ev(b.data[0], M, env)
        tol = 0
        if isinstance(x, float):
            tol = EPS if mode != "viol" else 1e-5
        if k == "le": return x <= tol
        if k == "lt": return x < 0 if mode is None else (x < tol if mode == "viol" else x < 0)
        return abs(x) <= tol
    if k == "not": return not evb(b.data[0], M, env, {"hyp": "viol", "viol": "hyp"}.get(mode))
    if k == "and": return all(evb(x, M, env, mode) for x in b.data)
    if k == "or":
        und = None
        for x in b.data:
            try:
                if evb(x, M, env, mode): return True
            except Undefined as e: und = e
        if und: raise und
        return False
    if k == "eqo": return ev(b.data[0], M, env) == ev(b.data[1], M, env)
    if k == "bvar": 
        n = b.data[0]
        if n not in M.v: M.v[n] = M.rng.random() < 0.5
        return M.v[n]
    if k == "bapp":
        args = tuple(ev(x, M, env) for x in b.data[1])
        key = ("B" + b.data[0],) + args
        if key not in M.t:
            g = M.gens.get(b.data[0])
            M.t[key] = g(M, *args) if g else M.rng.random() < 0.5
        return M.t[key]
    if k in ("forall", "exists"):
        hi, body, base = b.data
        rs = (evb(body, M, {**env, bvar(base + 1): i}, mode) for i in range(int(ev(hi, M, env))))
        return all(rs) if k == "forall" else any(rs)
    raise Undefined()


def refute(goal, hyps, gens, tries=300, seed=7, seconds=4.0):
    """(model description, satisfied) - a valuation with the hypotheses true and the goal clearly false"""
    rng = random.Random(seed)
    sat = 0
    t0 = time.time()
    for t in range(tries):
        if time.time() - t0 > seconds: break
        M = Model(random.Random(rng.random()), gens)
        try:
            if not all(evb(h, M, {}, "hyp") for h in hyps): continue
            sat += 1
            if not evb(goal, M, {}, "viol"):
                d = {n: v for n, v in M.v.items()}
                d.update({"%s(%s)" % (k[0], ",".join(map(str, k[1:]))): v for k, v in M.t.items()})
                return d, sat
        except (Undefined, ZeroDivisionError, OverflowError, ValueError, RecursionError): continue
    return None, sat
