"""Method calls: user methods, and the contracts of the std methods the crate uses (iterators as symbolic sequences)."""
import terms as T
from terms import *
from prover import decide, cur, use, settled
from values import *
from eval import TRANSPARENT, F64FN, INTS, SINTS, Diverge
import loops

MUTATORS = {"push", "push_str", "extend", "append", "clear", "pop", "sort", "sort_by", "sort_unstable_by", "sort_unstable", "sort_by_key", "shuffle", "insert",
            "remove", "swap", "truncate", "resize", "reverse", "iter_mut", "par_iter_mut", "values_mut", "get_mut", "last_mut", "first_mut", "entry",
            "or_insert", "dedup", "next", "fill", "put", "set", "take", "replace", "swap_remove", "retain", "drain", "by_ref", "extend_from_slice",
            "get_or_insert_with", "get_or_insert", "as_mut", "borrow_mut", "set_count", "chunks_mut", "rotate_left"}

LOCKS = {"lock", "read", "write"}


def mcall(ev, e, m, want=None):
    r = e["r"]
    ref = None
    if r["k"] in ("path", "field", "index") or (r["k"] == "un" and r["op"] == "*"):
        ref = ev.place_deref(r)
    elif r["k"] == "mcall" and r["m"] == "borrow_mut": ref = ev.place_deref(r)     # the inside of a RefCell
    if ref is None:
        if m == "collect" and r["k"] == "mcall" and r["m"] == "map":
            # xs.map(f).collect() with an f that changes something: one call of f per item, in order
            st = (dict(ev.st), list(ev.pc), ev.ctx, len(ev.obls))
            try: v = ev.expr(r)
            except Unsupported as x:
                if "side effect" not in str(x): raise
                ev.st, ev.pc, ev.ctx = st[0], st[1], st[2]; del ev.obls[st[3]:]
                v = map_loop(ev, r)
        else: v = ev.expr(r)
        if isinstance(v, Ref): ref = v; v = ev.rd(ref)
    else:
        v = ev.rd(ref)
    if isinstance(v, Undef): raise Unsupported("use of an undefined value (.%s)" % m)
    # user methods
    if isinstance(v, (Struct, Enum, Opq, Cases)):
        if user(ev, v, m):
            args = [ev.expr(a) for a in e["args"]]
            return ev.method_value(ref if ref is not None else v, m, args)
    if isinstance(v, (Clo, FnV)) and m in ("clone",): return v
    if m in TRANSPARENT and not (isinstance(v, Num) and m not in ("clone", "cloned", "copied", "to_owned", "borrow", "as_ref", "into_iter")):
        if m in ("as_mut", "borrow_mut", "by_ref", "as_mut_slice"):
            if ref is not None: return opt_ref(ref, v) if m == "as_mut" else ref
            return v
        if m == "as_ref" or m in ("iter", "into_iter", "par_iter", "into_par_iter"):
            if isinstance(v, Rng): return as_iter(ev, v)
            if isinstance(v, Opt) and m != "as_ref": return as_iter(ev, v)
            # into_iter on a mutable reference yields references
            if m in ("into_iter", "into_par_iter") and isinstance(v, Seq) and ref is not None and r["k"] == "path" and is_mutref(ev, r):
                return iter_mut(ev, ref, v)
            if isinstance(v, MapV) and m != "as_ref": return v
        if m == "cloned" or m == "copied":
            if isinstance(v, Opt) and isinstance(v.v, Ref): return Opt(v.c, ev.rd(v.v))
            if isinstance(v, Seq): return ev.seq_map(v, lambda x: ev.rd(x)) if has_refs(v) else v
        return v
    f = globals().get("m_" + m)
    if f is None and isinstance(v, Num):
        r = ev.num_method(m, [v] + [ev.rd(ev.expr(a)) for a in e["args"]])
        return ev.named(r) if m == "abs" else r
    if f is None:
        st = ev.stubs.get((None, m))
        if st is not None: return st(ev, [ref if ref is not None else v] + [ev.expr(a) for a in e["args"]])
        raise Unsupported("method %s on %s" % (m, type(v).__name__))
    return f(ev, e, ref, v, want)


def map_loop(ev, r):
    out = ev.new(Seq([]))
    q = as_iter(ev, ev.expr(r["r"])); f = ev.expr(r["args"][0])
    def body(x):
        y = deep_rd(ev, ev.call_value(f, [x])); v = ev.st[out]
        ev.st[out] = Seq(list(v.segs) + [Seg(ONE, fresh("k"), y)])
        return UNIT
    ev.collecting.add(out)
    loops.run_for(ev, q, body, None, r)
    return ev.st[out]


def is_mutref(ev, r):
    c = ev.lookup(r["path"][0][0])
    return c is not None and isinstance(ev.st[c], Ref)


def user(ev, v, m):
    if isinstance(v, Cases): return all(user(ev, x, m) for _, x in v.alts)
    if isinstance(v, Opq):
        if (v.sort, m) in ev.stubs: return True
        tr = {"H": "Classifier", "HR": "Regressor", "L": "LossFunction"}.get(v.sort)
        d = ev.prog.traitfns.get(tr, {}).get(m)
        return d is not None
    if not isinstance(v.name, tuple): return False
    if (v.name[0], m) in ev.stubs: return True
    if m in ("clone", "borrow", "borrow_mut", "as_ref", "as_mut", "into_inner") : return False
    return ev.prog.method(v.name, m, ev.pref_trait.get((v.name[0], m))) is not None


def opt_ref(ref, v):
    if isinstance(v, Opt):
        if v.v is None or isinstance(v.v, Ref): return v
        return Opt(v.c, Ref(ref.cell, ref.path + (("some",),)))
    return ref


def has_refs(q):
    def w(v):
        if isinstance(v, Ref): return True
        if isinstance(v, Tup): return any(w(x) for x in v.xs)
        if isinstance(v, Seq): return any(w(s.e) for s in v.segs)
        return False
    return any(w(s.e) for s in q.segs)


def args1(ev, e): return ev.expr(e["args"][0])
def rd1(ev, e): return ev.rd(ev.expr(e["args"][0]))


# ------------------------------------------------------------------ iterators
def as_iter(ev, v):
    """the sequence an IntoIterator value yields"""
    if isinstance(v, Ref):
        w = ev.rd(v)
        if isinstance(w, Seq): return iter_mut(ev, v, w)
        if isinstance(w, Opt): return as_iter(ev, opt_ref(v, w))
        return as_iter(ev, w)
    if isinstance(v, Seq): return v
    if isinstance(v, Rng):
        lo = v.lo.p
        ty = v.lo.ty or (v.hi.ty if v.hi is not None else None) or "u"
        k = fresh("k")
        if v.hi is None: return Seq([Seg(None, k, Num(lo + P(k), ty))])
        n = v.hi.p - lo + (1 if v.incl else 0)
        d = decide(le0(-n))
        if d is not True: n = T.vmax(n, ZERO)
        return Seq([Seg(n, k, Num(lo + P(k), ty))])
    if isinstance(v, Opt):
        if v.v is None: return empty()
        return norm(Seq([Seg(ONE, fresh("k"), v.v, v.c)]))
    if isinstance(v, MapV): return map_iter(ev, v)
    raise Unsupported("iteration over %s" % type(v).__name__)


def map_iter(ev, v, what="items", sum_only=False):
    """the entries of a map (or the elements of a set) whose keys lie in the contract's finite key universe;
    the order is the universe's (sums and other order-free uses only; max_by/min_by choose any entry on ties)"""
    if v.src is not None and what == "items": return as_iter(ev, v.src) if False else map_keys(ev, v)
    keys = getattr(ev, "key_domain", None)
    if keys is None: raise Unsupported("iteration over a map")
    check_domain(ev, v, keys)
    out = []
    for q in keys:
        ks = Num(q, "i"); g = bsub(v.pres, {v.k: q})
        if decide(g) is True: g = TRUE
        if decide(g) is False: continue
        if what == "values" and v.zero and sum_only: g = TRUE
        x = UNIT if isinstance(v.val, (Undef, Unit)) else vsubst(v.val, {v.k: q})
        isset = isinstance(v.val, Unit)
        e = ks if isset or what == "keys" else x if what == "values" else Tup([ks, x])
        out.append(Seg(ONE, fresh("k"), e, g))
    return Seq(out)


def check_domain(ev, v, keys):
    key = ev.skolem("key", "R" if v.k.sort != "I" else "I")
    q = P(key)
    b = implies(bsub(v.pres, {v.k: q}), bor(*[eq(q, k) for k in keys]))
    if b is not TRUE and decide(b) is not True: ev.obl("keys", b, "the keys of the map lie in the declared universe")


def map_keys(ev, v): return map_iter(ev, v, "keys")


def map_best(ev, e, v, mx):
    """max_by / min_by over the entries of a map: any of the best ones"""
    f = args1(ev, e)
    acc = NONE
    for s in map_iter(ev, v).segs:
        x = vsubst(s.e, {s.k: ZERO})
        if acc.v is None: acc = Opt(s.g, x); continue
        o = ev.rd(ev.call_value(f, [acc.v, x]))
        tie = T.bapp("tie!%d" % next(T._ctr), ())
        better = bor(o.lt if mx else bnot(bor(o.lt, o.eq)), band(o.eq, tie))
        take = band(s.g, bor(bnot(acc.c), better))
        acc = Opt(bor(acc.c, s.g), vite(take, x, acc.v))
    return Opt(TRUE, acc.v) if acc.v is not None and decide(acc.c) is True else acc


def iter_mut(ev, ref, q):
    out = []; off = ZERO
    if ref is None: raise Unsupported("iter_mut of a temporary")
    if len(q.segs) == 1 and q.segs[0].g is not TRUE and not q.segs[0].flat and not isinstance(q.segs[0].e, Ref):
        s = q.segs[0]; k = fresh("k")
        return Seq([Seg(s.n, k, Ref(ref.cell, ref.path + (("fi", P(k)),)), bsub(s.g, {s.k: P(k)}))])
    for s in q.segs:
        if s.flat or s.g is not TRUE: raise Unsupported("iter_mut over a filtered sequence")
        k = fresh("k")
        if isinstance(s.e, Ref): out.append(Seg(s.n, k, vsubst(s.e, {s.k: P(k)})))
        else: out.append(Seg(s.n, k, Ref(ref.cell, ref.path + (("i", P(k) + off),))))
        off = off + s.n
    return Seq(out)


def m_iter_mut(ev, e, ref, v, want): return iter_mut(ev, ref, v)
m_par_iter_mut = m_iter_mut


def m_zip(ev, e, ref, v, want):
    b = as_iter(ev, args1(ev, e))
    return zip2(ev, as_iter(ev, v), b)


def zip2(ev, a, b):
    a, b = norm(a), norm(b)
    if not a.segs or not b.segs: return empty()
    # same shape
    if len(a.segs) == len(b.segs) and all(s.n is not None and s.n is t.n and not s.flat and not t.flat for s, t in zip(a.segs, b.segs)):
        out = []
        for s, t in zip(a.segs, b.segs):
            k = fresh("k"); g1 = bsub(s.g, {s.k: P(k)}); g2 = bsub(t.g, {t.k: P(k)})
            if g1 is not g2: out = None; break
            out.append(Seg(s.n, k, Tup([vsubst(s.e, {s.k: P(k)}), vsubst(t.e, {t.k: P(k)})]), g1))
        if out is not None: return Seq(out)
    # a filtered single segment against a plain counter: keep the guard, index by the running count
    if len(a.segs) == 1 and (a.segs[0].g is not TRUE) and not a.segs[0].flat and len(b.segs) == 1 and b.segs[0].n is None:
        s, t = a.segs[0], b.segs[0]
        k = fresh("k"); j = fresh("j")
        cnt = T.ssum(j, P(k), T.ind(bsub(s.g, {s.k: P(j)})))
        return Seq([Seg(s.n, k, Tup([vsubst(s.e, {s.k: P(k)}), vsubst(t.e, {t.k: cnt})]), bsub(s.g, {s.k: P(k)}))])
    if len(b.segs) == 1 and (b.segs[0].g is not TRUE) and not b.segs[0].flat and len(a.segs) == 1 and a.segs[0].n is None:
        q = zip2(ev, b, a)
        s = q.segs[0]
        return Seq([Seg(s.n, s.k, Tup([s.e.xs[1], s.e.xs[0]]), s.g)])
    # one infinite: follow the other one's segments
    if len(b.segs) == 1 and b.segs[0].n is None and all(not s.flat and s.g is TRUE for s in a.segs):
        out = []; off = ZERO
        for s in a.segs:
            k = fresh("k")
            out.append(Seg(s.n, k, Tup([vsubst(s.e, {s.k: P(k)}), vsubst(b.segs[0].e, {b.segs[0].k: P(k) + off})])))
            off = off + s.n if s.n is not None else off
        return Seq(out)
    if len(a.segs) == 1 and a.segs[0].n is None and all(not s.flat and s.g is TRUE for s in b.segs):
        out = []; off = ZERO
        for s in b.segs:
            k = fresh("k")
            out.append(Seg(s.n, k, Tup([vsubst(a.segs[0].e, {a.segs[0].k: P(k) + off}), vsubst(s.e, {s.k: P(k)})])))
            off = off + s.n if s.n is not None else off
        return Seq(out)
    s, t = as_single(a), as_single(b)
    if s.n is t.n: n = s.n
    else:
        d = decide(le(s.n, t.n))
        n = s.n if d is True else t.n if d is False else None
        if n is None:
            d2 = decide(le(t.n, s.n))
            n = t.n if d2 is True else T.vmin(s.n, t.n)
    k = fresh("k")
    return Seq([Seg(n, k, Tup([vsubst(s.e, {s.k: P(k)}), vsubst(t.e, {t.k: P(k)})]))])


def m_enumerate(ev, e, ref, v, want):
    return zip2(ev, Seq([Seg(None, *(lambda k: (k, Num(P(k), "u")))(fresh("k")))]), as_iter(ev, v))


def m_map(ev, e, ref, v, want):
    f = args1(ev, e)
    if isinstance(v, Opt):
        if v.v is None: return NONE
        if v.c is TRUE or decide(v.c) is True: return Opt(TRUE, ev.call_value(f, [v.v]))
        r = ev.branch(v.c, lambda: Opt(TRUE, ev.call_value(f, [v.v])), lambda: NONE)
        return r
    if isinstance(v, Enum) and v.name == "Result":
        return Enum("Result", "Ok", [ev.call_value(f, [v.xs[0]])]) if v.var == "Ok" else v
    return ev.seq_map(as_iter(ev, v), lambda x: ev.call_value(f, [x]))


def m_filter(ev, e, ref, v, want):
    f = args1(ev, e)
    if isinstance(v, Opt):
        if v.v is None: return NONE
        c = ev.rd(ev.call_value(f, [v.v])).b
        return Opt(band(v.c, c), v.v)
    def g(x): return Opt(ev.rd(ev.call_value(f, [x])).b, x)
    return ev.seq_filter_map(as_iter(ev, v), g)


def m_filter_map(ev, e, ref, v, want):
    f = args1(ev, e)
    return ev.seq_filter_map(as_iter(ev, v), lambda x: ev.rd(ev.call_value(f, [x])))


def m_flat_map(ev, e, ref, v, want):
    f = args1(ev, e)
    return flatten(ev, ev.seq_map(as_iter(ev, v), lambda x: as_iter(ev, ev.call_value(f, [x]))))


def m_flatten(ev, e, ref, v, want):
    if isinstance(v, Opt): return v.v if v.c is TRUE else Opt(band(v.c, ev.rd(v.v).c), ev.rd(v.v).v)
    return flatten(ev, as_iter(ev, v))


def flatten(ev, q):
    out = []
    for s in q.segs:
        if is_const(s.n) == 1 and s.g is TRUE and not s.flat:
            out += as_iter(ev, vsubst(s.e, {s.k: ZERO})).segs
            continue
        k, g, x = open_seg(s)
        inner = as_iter(ev, ev.rd(x) if not isinstance(x, (Ref,)) else x)
        inner = norm(inner)
        if len(inner.segs) == 1 and is_const(inner.segs[0].n) == 1 and not inner.segs[0].flat and not s.flat:
            t = inner.segs[0]
            out.append(Seg(s.n, k, vsubst(t.e, {t.k: ZERO}), band(g, bsub(t.g, {t.k: ZERO}))))
        else:
            out.append(Seg(s.n, k, inner, g, True))
    return Seq(out)


def m_inspect(ev, e, ref, v, want): return as_iter(ev, v)


def m_sum(ev, e, ref, v, want):
    q = as_iter(ev, v)
    q = getattr(q, "total", q)
    t = None
    if e.get("tf"): t = ev.tyname(e["tf"][0])
    elif want is not None: t = ev.tyname(want)
    for s in q.segs:
        x = ev.rd(s.e) if not s.flat else None
        if isinstance(x, (Struct, Enum)) or (t and t not in ("f64", "f32") and t not in INTS | SINTS and t != "_"):
            key = ev.tykey(t) if t else (x.name if x is not None else None)
            mm = ev.prog.method(key, "sum") if key else None
            if isinstance(mm, list): mm = mm[0]
            if mm is None: raise Unsupported("sum of %s" % t)
            return ev.call_fn(mm, [q])
    r = ev.seq_sum(q)
    if t in INTS: r = Num(r.p, "u")
    elif t in SINTS: r = Num(r.p, "i")
    elif t == "f64": r = Num(r.p, "f")
    return r


def m_product(ev, e, ref, v, want): raise Unsupported("product")


def m_count(ev, e, ref, v, want): return Num(seq_len(as_iter(ev, v)), "u")


def m_len(ev, e, ref, v, want):
    if isinstance(v, Seq): return Num(seq_len(v), "u")
    if isinstance(v, Rng): return Num(seq_len(as_iter(ev, v)), "u")
    if isinstance(v, Str): return Num(T.app("strlen", (v.p,), "I"), "u")
    if isinstance(v, MapV): return Num(map_len(ev, v), "u")
    raise Unsupported("len of %s" % type(v).__name__)


def m_is_empty(ev, e, ref, v, want):
    if isinstance(v, Str): return Boo(eq(T.app("strlen", (v.p,), "I"), 0))
    if isinstance(v, MapV): return Boo(eq(map_len(ev, v), 0))
    q = norm(v)
    if len(q.segs) == 1 and q.segs[0].g is not TRUE and not q.segs[0].flat and q.segs[0].n is not None:
        s = q.segs[0]
        return Boo(T.forall(s.k, s.n, bnot(s.g)))
    n = seq_len(v)
    if decide(le0(-n)) is True: return Boo(eq(n, 0))
    return Boo(le0(n))


def m_rev(ev, e, ref, v, want):
    out = []
    for s in as_iter(ev, v).segs[::-1]:
        if s.n is None: raise Unsupported("rev of an infinite iterator")
        k = fresh("k"); r = {s.k: s.n - P(k) - 1}
        x = vsubst(s.e, r)
        if s.flat: raise Unsupported("rev of a nested sequence")
        out.append(Seg(s.n, k, x, bsub(s.g, r)))
    return Seq(out)


def m_take(ev, e, ref, v, want):
    if isinstance(v, Opt):
        ev.write(ref, NONE)
        return v
    n = rd1(ev, e).p
    q = norm(as_iter(ev, v))
    if not q.segs: return q
    if len(q.segs) == 1 and q.segs[0].n is None:
        s = q.segs[0]
        return Seq([Seg(n, s.k, s.e, s.g)])
    tot = seq_len(q)
    if decide(le(n, tot)) is True: return subseq(q, ZERO, n)
    if decide(le(tot, n)) is True: return q
    return subseq(q, ZERO, T.vmin(n, tot))


def m_skip(ev, e, ref, v, want):
    n = rd1(ev, e).p
    q = norm(as_iter(ev, v))
    if not q.segs: return q
    if len(q.segs) == 1 and q.segs[0].n is None:
        s = q.segs[0]; k = fresh("k")
        return Seq([Seg(None, k, vsubst(s.e, {s.k: P(k) + n}))])
    if is_const(n) == 1 and is_const(q.segs[0].n) == 1 and q.segs[0].g is TRUE and not q.segs[0].flat: return Seq(q.segs[1:])
    tot = seq_len(q)
    if decide(le(n, tot)) is True: return subseq(q, n, tot - n)
    return subseq(q, n, T.vmax(tot - n, ZERO))


def m_step_by(ev, e, ref, v, want):
    raise Unsupported("step_by")


def m_chain(ev, e, ref, v, want):
    return Seq(list(as_iter(ev, v).segs) + list(as_iter(ev, args1(ev, e)).segs))


def m_peekable(ev, e, ref, v, want): return v


def m_next(ev, e, ref, v, want):
    q = norm(as_iter(ev, v))
    if ref is None: ref = Ref(ev.new(q))
    if not q.segs: return NONE
    s = q.segs[0]
    if s.flat: raise Unsupported("next on a nested iterator")
    if s.g is not TRUE:
        raise Unsupported("next on a filtered iterator")
    first = vsubst(s.e, {s.k: ZERO})
    k = fresh("k")
    if s.n is None:
        ev.write(ref, Seq([Seg(None, k, vsubst(s.e, {s.k: P(k) + 1}))])); return Opt(TRUE, first)
    d = decide(lt0(-s.n))
    if d is True:
        rest = [] if is_const(s.n) == 1 else [Seg(s.n - 1, k, vsubst(s.e, {s.k: P(k) + 1}))]
        ev.write(ref, Seq(rest + list(q.segs[1:])))
        return Opt(TRUE, first)
    if len(q.segs) > 1: raise Unsupported("next on a concatenation")
    ev.write(ref, Seq([Seg(T.vmax(s.n - 1, ZERO), k, vsubst(s.e, {s.k: P(k) + 1}))]))
    return Opt(lt0(-s.n), first)


def m_peek(ev, e, ref, v, want): return first_of(v)


def first_of(q):
    q = norm(q)
    if not q.segs: return NONE
    s = q.segs[0]
    if s.flat or s.g is not TRUE:
        if len(q.segs) == 1 and is_const(s.n) == 1: return Opt(s.g, vsubst(s.e, {s.k: ZERO}))
        raise Unsupported("first element of a filtered sequence")
    n = seq_len(q)
    return Opt(TRUE if decide(lt0(-n)) is True else lt0(-n), vsubst(s.e, {s.k: ZERO}) if len(q.segs) == 1 or is_const(s.n) else seq_get(q, ZERO))


def m_first(ev, e, ref, v, want): return first_of(v)


def m_first_mut(ev, e, ref, v, want):
    n = seq_len(v)
    return Opt(TRUE if decide(lt0(-n)) is True else lt0(-n), Ref(ref.cell, ref.path + (("i", ZERO),)))


def m_last(ev, e, ref, v, want):
    v = norm(as_iter(ev, v))
    if not v.segs: return NONE
    if v.segs[-1].g is not TRUE and is_const(v.segs[-1].n) != 1: raise Unsupported("last of a filtered sequence")
    n = seq_len(v)
    c = TRUE if decide(lt0(-n)) is True else lt0(-n)
    s = v.segs[-1]
    if is_const(s.n) == 1 and s.g is TRUE and not s.flat: return Opt(TRUE, vsubst(s.e, {s.k: ZERO}))
    if getattr(s.e, "last", None) is not None: return Opt(c, s.e.last)
    return Opt(c, seq_get(v, n - 1))


def m_last_mut(ev, e, ref, v, want):
    n = seq_len(v)
    return Opt(TRUE if decide(lt0(-n)) is True else lt0(-n), Ref(ref.cell, ref.path + (("i", n - 1),)))


def m_nth(ev, e, ref, v, want):
    i = rd1(ev, e).p; q = as_iter(ev, v)
    return Opt(lt(i, seq_len(q)), seq_get(q, i))


def m_get(ev, e, ref, v, want):
    i = rd1(ev, e)
    if isinstance(v, MapV):
        kp = i.p
        looked_up(ev, v, kp)
        return Opt(bsub(v.pres, {v.k: kp}), vsubst(v.val, {v.k: kp}))
    if not v.segs: return NONE
    c = lt(i.p, seq_len(v))
    return Opt(TRUE if decide(c) is True else c, seq_get(v, i.p))


def m_get_mut(ev, e, ref, v, want):
    i = rd1(ev, e)
    if isinstance(v, MapV): return Opt(bsub(v.pres, {v.k: i.p}), Ref(ref.cell, ref.path + (("i", i.p),)))
    c = lt(i.p, seq_len(v))
    return Opt(TRUE if decide(c) is True else c, Ref(ref.cell, ref.path + (("i", i.p),)))


def m_for_each(ev, e, ref, v, want):
    f = args1(ev, e)
    q = as_iter(ev, v)
    loops.run_for(ev, q, lambda x: ev.call_value(f, [x]), None, e)
    return UNIT


def m_try_for_each(ev, e, ref, v, want):
    f = args1(ev, e)
    last = [None]
    def body(x):
        r = ev.rd(ev.call_value(f, [x]))
        nm = r.name if isinstance(r, Enum) else r.alts[0][1].name if isinstance(r, Cases) and isinstance(r.alts[0][1], Enum) else None
        if nm == "ControlFlow": stop, go = "Break", Enum("ControlFlow", "Continue", [UNIT])
        elif nm == "Result": stop, go = "Err", Enum("Result", "Ok", [UNIT])
        else: raise Unsupported("try_for_each over %s" % (nm,))
        last[0] = go
        c = v_is(r, stop)
        if isinstance(r, Cases):
            al = [(g, x) for g, x in r.alts if x.var == stop]
            r = al[0][1] if len(al) == 1 else Cases(al) if al else r
        ev.branch(c, lambda: ev.leave(ev.frames[-1], "break", r), lambda: UNIT)
    if isinstance(v, Rng) and v.hi is None:
        lo = v.lo
        L = loops.Loop(ev, None)
        L.symbolic(None, lambda k: (TRUE, Num(lo.p + P(k), lo.ty)), body, None, ())
        return L.finish(None)
    q = as_iter(ev, v)
    L = loops.Loop(ev, None)
    segs = list(norm(q).segs)
    for i, s in enumerate(segs):
        L.segment(s, body, None, segs[i + 1:])
        if L.dead: break
    return L.finish(None, lambda: last[0] if last[0] is not None else Enum("ControlFlow", "Continue", [UNIT]))


def m_fold(ev, e, ref, v, want):
    init = ev.expr(e["args"][0]); f = ev.expr(e["args"][1])
    if isinstance(init, Num) and init.ty is None: init = Num(init.p, "f" if False else None)
    q = as_iter(ev, v)
    if isinstance(f, FnV) and isinstance(ev.rd(init), Num) and getattr(f, "mn", None): pass
    c = ev.new(ev.rd(init))
    loops.run_for(ev, q, lambda x: ev.write(Ref(c), ev.call_value(f, [ev.rd(ev.st[c]), x])), None, e)
    return ev.st[c]


def single_reads(ev, q):
    s = as_single(q)
    if s is None: return None
    return s


def m_reduce(ev, e, ref, v, want):
    f = args1(ev, e)
    q = norm(as_iter(ev, v))
    if not q.segs: return NONE
    if all(x.g is TRUE and not x.flat for x in q.segs): return reduce_segs(ev, e, f, q.segs)
    return opt_fold(ev, q, f)      # a first element exists only under the guards


def reduce_segs(ev, e, f, segs, some=False):
    s = segs[0]
    first = vsubst(s.e, {s.k: ZERO}); k = fresh("k")
    nonempty = TRUE if some else lt0(-s.n)
    if len(segs) > 1 and decide(nonempty) is not True:
        return ev.branch(nonempty, lambda: reduce_segs(ev, e, f, segs, True), lambda: reduce_segs(ev, e, f, segs[1:]))
    c = ev.new(None)
    ev.st[c] = ev.rd(first)
    n1 = s.n - 1 if some or decide(nonempty) is True else T.vmax(s.n - 1, ZERO)
    rest = Seq([Seg(n1, k, vsubst(s.e, {s.k: P(k) + 1}))] + list(segs[1:]))
    loops.run_for(ev, rest, lambda x: ev.write(Ref(c), ev.call_value(f, [ev.rd(ev.st[c]), x])), None, e)
    return Opt(TRUE if decide(nonempty) is True else nonempty, ev.st[c])


def opt_fold(ev, q, f):
    c = ev.new(NONE)
    def body(x):
        o = ev.st[c]
        if o.v is None: ev.write(Ref(c), Opt(TRUE, ev.rd(x)))
        else:
            r = ev.branch(o.c, lambda: ev.rd(ev.call_value(f, [o.v, x])), lambda: ev.rd(x))
            ev.write(Ref(c), Opt(TRUE, r))
    loops.run_for(ev, q, body, None, None)
    return ev.st[c]


def m_max_by(ev, e, ref, v, want): return map_best(ev, e, v, True) if isinstance(v, MapV) else extremum(ev, e, as_iter(ev, v), True)
def m_min_by(ev, e, ref, v, want): return map_best(ev, e, v, False) if isinstance(v, MapV) else extremum(ev, e, as_iter(ev, v), False)


def extremum(ev, e, q, mx, keyf=None):
    """max_by: the last maximum; min_by: the first minimum"""
    f = args1(ev, e) if keyf is None else None
    q = norm(q)
    if not q.segs: return NONE
    if len(q.segs) == 1 and not q.segs[0].flat and q.segs[0].n is not None:
        s = q.segs[0]; n = s.n; g = s.g
        get = lambda i: vsubst(s.e, {s.k: P(i)})
        gi = lambda i: bsub(g, {s.k: P(i)})
    else:
        s = as_single(q); n = s.n
        get = lambda i: vsubst(s.e, {s.k: P(i)})
        gi = lambda i: TRUE
    k = ev.skolem("arg" + ("max" if mx else "min"), "I")
    if q.segs[0].g is TRUE or len(q.segs) > 1:
        ex = lt0(-n)
    else:
        j = fresh("j")
        ex = T.exists(j, n, gi(j))
    ex = TRUE if decide(ex) is True else ex
    j = fresh("j")
    def cmp(a, b):
        if keyf is not None: return ev.compare(keyf(a), keyf(b))
        return ev.rd(ev.call_value(f, [a, b]))
    ctx0 = ev.ctx
    ev.ctx = ctx0.plus(le0(-P(j)), lt(P(j), n), gi(j), le0(-k), lt(k, n), gi(k))
    try:
        o = cmp(get(j), get(k))
    finally: ev.ctx = ctx0
    # max_by keeps the later of two equal maxima, min_by the earlier
    if mx:
        after = o.lt
        before = bor(o.lt, o.eq)
        fact = implies(gi(j), band(bor(le(P(j), k), after), bor(lt(k, P(j)), before)))
    else:
        gtj = bnot(bor(o.lt, o.eq))
        fact = implies(gi(j), band(bor(le(k, P(j)), gtj), bor(lt(P(j), k), bnot(o.lt))))
    ev.assume(implies(ex, band(le0(-k), lt(k, n), gi(k))))
    ev.assume(implies(ex, T.forall(j, n, fact)))
    return Opt(ex, get(k))


def m_max_by_key(ev, e, ref, v, want):
    f = args1(ev, e); return extremum(ev, e, as_iter(ev, v), True, lambda x: ev.call_value(f, [x]))
def m_min_by_key(ev, e, ref, v, want):
    f = args1(ev, e); return extremum(ev, e, as_iter(ev, v), False, lambda x: ev.call_value(f, [x]))


def m_max(ev, e, ref, v, want):
    if isinstance(v, Num): return ev.num_method("max", [v] + [ev.rd(ev.expr(a)) for a in e["args"]])
    return extremum(ev, e, as_iter(ev, v), True, lambda x: x)


def m_min(ev, e, ref, v, want):
    if isinstance(v, Num): return ev.num_method("min", [v] + [ev.rd(ev.expr(a)) for a in e["args"]])
    return extremum(ev, e, as_iter(ev, v), False, lambda x: x)


def m_position(ev, e, ref, v, want):
    f = args1(ev, e)
    q = norm(as_iter(ev, v))
    s = as_single(q)
    if s is None: return NONE
    c = ev.under(s.k, s.n, TRUE, lambda: ev.rd(ev.call_value(f, [s.e])).b)
    return first_index(ev, s.k, s.n, c, lambda i: Num(i, "u"))


def first_index(ev, k, n, c, val):
    """Opt of the least index with c"""
    ex = T.exists(k, n, c)
    if decide(ex) is True: ex = TRUE
    i = ev.skolem("first", "I")
    j = fresh("j")
    ev.assume(implies(ex, band(le0(-i), lt(i, n), bsub(c, {k: i}))))
    ev.assume(implies(ex, T.forall(j, i, bnot(bsub(c, {k: P(j)})))))
    return Opt(ex, val(i))


def m_find(ev, e, ref, v, want):
    f = args1(ev, e)
    s = as_single(norm(as_iter(ev, v)))
    if s is None: return NONE
    c = ev.under(s.k, s.n, TRUE, lambda: ev.rd(ev.call_value(f, [s.e])).b)
    return first_index(ev, s.k, s.n, c, lambda i: vsubst(s.e, {s.k: i}))


def m_find_map(ev, e, ref, v, want):
    f = args1(ev, e)
    s = as_single(norm(as_iter(ev, v)))
    if s is None: return NONE
    o = ev.under(s.k, s.n, TRUE, lambda: ev.rd(ev.call_value(f, [s.e])))
    return first_index(ev, s.k, s.n, o.c, lambda i: vsubst(o.v, {s.k: i}))


def m_any(ev, e, ref, v, want):
    f = args1(ev, e)
    if isinstance(v, MapV) and v.src is not None: v = v.src
    return Boo(ev.seq_quant(as_iter(ev, v), "exists", lambda x: ev.rd(ev.call_value(f, [x])).b))


def m_all(ev, e, ref, v, want):
    f = args1(ev, e)
    if isinstance(v, MapV) and v.src is not None: v = v.src
    return Boo(ev.seq_quant(as_iter(ev, v), "forall", lambda x: ev.rd(ev.call_value(f, [x])).b))


def m_contains(ev, e, ref, v, want):
    x = rd1(ev, e)
    if isinstance(v, Rng):
        c = TRUE
        if v.lo is not None: c = band(c, le(v.lo.p, x.p))
        if v.hi is not None: c = band(c, le(x.p, v.hi.p) if v.incl else lt(x.p, v.hi.p))
        return Boo(c)
    if isinstance(v, Seq):
        # bit sets are sequences of booleans
        if v.segs and all(isinstance(s.e, Boo) for s in v.segs) and isinstance(x, Num):
            return Boo(band(lt(x.p, seq_len(v)), seq_get(v, x.p).b))
        return Boo(ev.seq_quant(v, "exists", lambda y: ev.equal(y, x)))
    if isinstance(v, Str): return Boo(T.bapp("strcontains", (v.p, x.p)))
    if isinstance(v, MapV): return Boo(bsub(v.pres, {v.k: x.p}))
    raise Unsupported("contains on %s" % type(v).__name__)


def m_contains_key(ev, e, ref, v, want): return m_contains(ev, e, ref, v, want)


def m_unzip(ev, e, ref, v, want):
    q = as_iter(ev, v)
    if not q.segs: return Tup([empty(), empty()])
    def half(i):
        out = []
        for s in q.segs:
            if s.flat:
                out.append(Seg(s.n, s.k, Seq([Seg(t.n, t.k, t.e.xs[i], t.g) for t in s.e.segs]), s.g, True))
            else: out.append(Seg(s.n, s.k, ev.rd(s.e).xs[i], s.g))
        return Seq(out)
    return Tup([half(0), half(1)])


def tf_target(ev, e, want):
    t = None
    if e.get("tf"): t = e["tf"][0]
    if t is None or ev.tyname(t) == "_": t = want
    return t


def m_collect(ev, e, ref, v, want):
    t = tf_target(ev, e, want)
    tn = ev.tyname(t) if t else None
    if tn == "String": return Str(P(T.mk_atom("var", ("str!%d" % next(T._ctr),), "S")))
    if isinstance(v, MapV): return v
    q = as_iter(ev, v)
    if tn in ("HashSet", "BTreeSet"):
        if not q.segs: return MapV(fresh("key"), FALSE, UNIT)
        k = fresh("key", "R")
        x = q.segs[0].e
        pres = ev.seq_quant(q, "exists", lambda y: eq(ev.rd(y).p, P(k)))
        return MapV(k, pres, UNIT, q)
    if tn in ("HashMap", "BTreeMap"): return collect_pairs(ev, q)
    if tn == "Option":
        c = ev.seq_quant(q, "forall", lambda y: ev.rd(y).c)
        return Opt(c, ev.seq_map(q, lambda y: ev.rd(y).v))
    if tn == "Result": raise Unsupported("collect into a Result")
    if has_refs(q): q = ev.seq_map(q, lambda y: deep_rd(ev, y))
    return q


def collect_pairs(ev, q):
    """the map made of (key, value) pairs: for equal keys the last one counts. The position of that one is an uninterpreted function of the
    key; what is known about it is assumed where the map is looked up (map_facts)"""
    s = as_single(norm(q))
    if s is None: raise Unsupported("collect into a map")
    x = deep_rd(ev, s.e)
    if not isinstance(x, Tup) or len(x.xs) != 2 or not isinstance(x.xs[0], (Num, Str, Opq)): raise Unsupported("collect into a map")
    key, val = x.xs
    k = fresh("key", "R" if isinstance(key, Num) else "S"); i = fresh("i")
    same = eq if isinstance(key, Num) else T.eqo
    f = "lastat!%d" % next(T._ctr)
    at = T.app(f, (P(k),), "I")
    ki = lambda j: vsubst(key, {s.k: P(j)}).p
    pres = T.exists(i, s.n, same(ki(i), P(k)))
    def facts(kp, there):
        l = T.app(f, (P(kp),), "I"); j = fresh("j")
        return [implies(there, band(T.le(0, l), lt(l, s.n), same(ki(l), P(kp)))), implies(there, T.forall(j, s.n, bor(le(P(j), l), bnot(same(ki(P(j)), P(kp))))))]
    ev.map_facts = dict(getattr(ev, "map_facts", {}), **{f: facts})
    return MapV(k, pres, vsubst(val, {s.k: at}))


def looked_up(ev, v, kp):
    fs = getattr(ev, "map_facts", None)
    if not fs or isinstance(v.val, (Undef, Unit)): return
    out = []
    vmap(v.val, lambda p: out.extend(T.all_atoms(p, [])) or p, lambda b: b)
    for f in {a.data[0] for a in out if a.kind == "app" and a.data[0] in fs}:
        for h in fs[f](kp, bsub(v.pres, {v.k: kp})): ev.assume(h)


def deep_rd(ev, v):
    if isinstance(v, Ref): return deep_rd(ev, ev.rd(v))
    if isinstance(v, Tup): return Tup([deep_rd(ev, x) for x in v.xs])
    return v


# ------------------------------------------------------------------ vectors
def m_push(ev, e, ref, v, want):
    x = args1(ev, e)
    x = deep_rd(ev, x)
    if isinstance(x, Num) and x.ty is None and v.segs and isinstance(v.segs[-1].e, Num): x = Num(x.p, v.segs[-1].e.ty)
    ev.write(ref, Seq(list(v.segs) + [Seg(ONE, fresh("k"), x)]))
    return UNIT


m_push_back = m_push


def m_push_str(ev, e, ref, v, want):
    ev.write(ref, Str(P(T.mk_atom("var", ("str!%d" % next(T._ctr),), "S"))))
    return UNIT


def m_extend(ev, e, ref, v, want):
    q = as_iter(ev, args1(ev, e))
    if has_refs(q): q = ev.seq_map(q, lambda y: deep_rd(ev, y))
    if isinstance(v, MapV):
        k = v.k
        pres = bor(v.pres, ev.seq_quant(q, "exists", lambda y: eq(ev.rd(y).p, P(k))))
        ev.write(ref, MapV(k, pres, v.val)); return UNIT
    ev.write(ref, norm(Seq(list(v.segs) + list(q.segs))))
    return UNIT


m_extend_from_slice = m_extend
def m_append(ev, e, ref, v, want):
    a = args1(ev, e)
    q = ev.rd(a)
    ev.write(ref, norm(Seq(list(v.segs) + list(q.segs))))
    if isinstance(a, Ref): ev.write(a, empty())
    return UNIT


def m_clear(ev, e, ref, v, want):
    if isinstance(v, MapV): ev.write(ref, MapV(v.k, FALSE, Num(ZERO, "f") if v.zero else v.val, zero=v.zero)); return UNIT
    if v.segs and all(isinstance(s.e, Boo) for s in v.segs):
        # FixedBitSet::clear resets the bits and keeps the length
        pass
    ev.write(ref, empty()); return UNIT


def m_pop(ev, e, ref, v, want):
    q = norm(v)
    if not q.segs: return NONE
    s = q.segs[-1]
    if s.g is not TRUE or s.flat: raise Unsupported("pop from a filtered sequence")
    if is_const(s.n) == 1:
        ev.write(ref, Seq(q.segs[:-1])); return Opt(TRUE, vsubst(s.e, {s.k: ZERO}))
    n = seq_len(q)
    if len(q.segs) > 1 and decide(lt0(-s.n)) is not True: raise Unsupported("pop from a concatenation")
    if decide(lt0(-n)) is True:
        ev.write(ref, Seq(list(q.segs[:-1]) + [Seg(s.n - 1, s.k, s.e)])); return Opt(TRUE, vsubst(s.e, {s.k: s.n - 1}))
    ev.write(ref, Seq([Seg(T.vmax(s.n - 1, ZERO), s.k, s.e)]))
    return Opt(lt0(-n), vsubst(s.e, {s.k: s.n - 1}))


def m_insert(ev, e, ref, v, want):
    if isinstance(v, MapV):
        k = ev.rd(ev.expr(e["args"][0]))
        x = ev.rd_own(ev.expr(e["args"][1])) if len(e["args"]) > 1 else UNIT
        kp = k.p
        hit = eq(P(v.k), kp) if not isinstance(k, Str) else eqo(P(v.k), kp)
        was = bsub(v.pres, {v.k: kp}); old = vsubst(v.val, {v.k: kp})
        ev.write(ref, MapV(v.k, bor(v.pres, hit), x if isinstance(v.val, Undef) else vite(hit, x, v.val), zero=v.zero))
        return Boo(bnot(was)) if len(e["args"]) == 1 else Opt(was, old)
    if isinstance(v, Opt):
        ev.write(ref, Opt(TRUE, ev.rd_own(args1(ev, e)))); return Ref(ref.cell, ref.path + (("some",),))
    if isinstance(v, Seq) and len(e["args"]) == 1 and is_bits(v):
        return m_put(ev, e, ref, v, want)
    raise Unsupported("insert")


def is_bits(v): return v.segs and all(isinstance(s.e, Boo) for s in v.segs)


def m_put(ev, e, ref, v, want):
    i = rd1(ev, e).p
    ev.obl("index", lt(i, seq_len(v)), "bit index in range")
    old = seq_get(v, i)
    ev.write(ref, seq_set(v, i, Boo(TRUE)))
    return old


def m_set(ev, e, ref, v, want):
    if isinstance(v, Seq) and is_bits(v):
        i = ev.rd(ev.expr(e["args"][0])).p; b = ev.rd(ev.expr(e["args"][1]))
        ev.write(ref, seq_set(v, i, b)); return UNIT
    ev.write(ref, ev.rd_own(args1(ev, e))); return UNIT


def m_remove(ev, e, ref, v, want):
    i = rd1(ev, e)
    if isinstance(v, MapV):
        hit = eq(P(v.k), i.p)
        r = Opt(bsub(v.pres, {v.k: i.p}), vsubst(v.val, {v.k: i.p}))
        ev.write(ref, MapV(v.k, band(v.pres, bnot(hit)), vite(hit, Num(ZERO, "f"), v.val) if v.zero else v.val, zero=v.zero))
        return r
    n = seq_len(v)
    ev.obl("index", lt(i.p, n), "remove in range")
    x = seq_get(v, i.p)
    s = as_single(v); k = fresh("k")
    if i.p is ZERO: ev.write(ref, subseq(v, ONE, n - 1)); return x
    ev.write(ref, Seq([Seg(n - 1, k, vite(lt(P(k), i.p), vsubst(s.e, {s.k: P(k)}), vsubst(s.e, {s.k: P(k) + 1})))]))
    return x


def m_swap(ev, e, ref, v, want):
    i = ev.rd(ev.expr(e["args"][0])).p; j = ev.rd(ev.expr(e["args"][1])).p
    x, y = seq_get(v, i), seq_get(v, j)
    ev.write(ref, seq_set(seq_set(v, i, y), j, x)); return UNIT


def m_truncate(ev, e, ref, v, want):
    n = rd1(ev, e).p
    tot = seq_len(v)
    ev.write(ref, subseq(v, ZERO, T.vmin(n, tot))); return UNIT


def m_resize(ev, e, ref, v, want):
    n = ev.rd(ev.expr(e["args"][0])).p; x = ev.rd(ev.expr(e["args"][1]))
    tot = seq_len(v)
    if decide(le(tot, n)) is True:
        ev.write(ref, norm(Seq(list(v.segs) + [Seg(n - tot, fresh("k"), x)]))); return UNIT
    raise Unsupported("resize")


def m_fill(ev, e, ref, v, want):
    x = rd1(ev, e)
    ev.write(ref, Seq([Seg(seq_len(v), fresh("k"), x)])); return UNIT


def m_reverse(ev, e, ref, v, want):
    if isinstance(v, OrdV): return OrdV(bnot(bor(v.lt, v.eq)), v.eq)
    ev.write(ref, m_rev(ev, e, ref, v, want)); return UNIT


def m_shrink_to_fit(ev, e, ref, v, want): return UNIT
def m_reserve(ev, e, ref, v, want): return UNIT


def permute(ev, ref, v, name):
    """replace the sequence by a permutation of itself; returns (perm, length, element getter)"""
    s = as_single(v)
    if s is None: return None
    # the length is named so that the permutation symbol has a fixed domain
    nm = "%s!%d" % (name, next(T._ctr))
    if ev.binders: raise Unsupported("sorting inside a symbolic loop")
    T.perms[nm] = s.n
    j = fresh("j")
    pk = lambda i: T.app(nm, (P(i),), "I")
    ev.assume(T.forall(j, s.n, band(le0(-pk(j)), lt(pk(j), s.n))))
    ev.assume(T.forall(j, s.n, band(le0(-T.app("inv:" + nm, (P(j),), "I")), lt(T.app("inv:" + nm, (P(j),), "I"), s.n))))
    k = fresh("k")
    out = Seq([Seg(s.n, k, vsubst(s.e, {s.k: pk(k)}))])
    ev.write(ref, out)
    return nm, s, pk


def m_shuffle(ev, e, ref, v, want):
    # v: the sequence; the generator argument is ignored
    for a in e["args"]: ev.expr(a)
    permute(ev, ref, v, "shuffle")
    return UNIT


def sort_with(ev, ref, v, cmpf):
    r = permute(ev, ref, v, "sort")
    if r is None: return UNIT
    nm, s, pk = r
    get = lambda i: vsubst(s.e, {s.k: P(i)})
    j = fresh("j")
    i = fresh("i")
    ctx0 = ev.ctx
    ev.ctx = ctx0.plus(le0(-P(j)), lt(P(j), s.n), le0(-P(i)), le(P(i), P(j)))
    try: o = cmpf(get(pk(i)), get(pk(j)))
    finally: ev.ctx = ctx0
    ev.assume(T.forall(j, s.n, T.forall(i, P(j) + 1, bor(o.lt, o.eq))))
    return UNIT


def m_sort_by(ev, e, ref, v, want):
    f = args1(ev, e)
    return sort_with(ev, ref, v, lambda a, b: ev.rd(ev.call_value(f, [a, b])))


m_sort_unstable_by = m_sort_by
def m_sort(ev, e, ref, v, want): return sort_with(ev, ref, v, lambda a, b: ev.compare(a, b))
m_sort_unstable = m_sort
def m_sort_by_key(ev, e, ref, v, want):
    f = args1(ev, e)
    return sort_with(ev, ref, v, lambda a, b: ev.compare(ev.call_value(f, [a]), ev.call_value(f, [b])))


def m_binary_search_by(ev, e, ref, v, want):
    """contract of binary_search_by on a sequence sorted for the comparator: Ok(i) => f(v[i]) == Equal"""
    f = args1(ev, e)
    s = as_single(v)
    if s is None: return Enum("Result", "Err", [Num(ZERO, "u")])
    o = ev.under(s.k, s.n, TRUE, lambda: ev.rd(ev.call_value(f, [s.e])))
    i = ev.skolem("found", "I")
    a = fresh("a"); b = fresh("b"); at = lambda x, v: bsub(x, {s.k: P(v)})
    ev.obl("assert", T.forall(b, s.n, T.forall(a, P(b), band(implies(at(o.lt, b), at(o.lt, a)), implies(bor(at(o.lt, b), at(o.eq, b)), bor(at(o.lt, a), at(o.eq, a)))))), "binary_search_by: the sequence is sorted for the comparator")
    ex = T.exists(s.k, s.n, o.eq)
    ev.assume(implies(ex, band(le0(-i), lt(i, s.n), bsub(o.eq, {s.k: i}))))
    ins = ev.skolem("ins", "I")
    j = fresh("j")
    ev.assume(implies(bnot(ex), band(le0(-ins), le(ins, s.n))))
    ev.assume(implies(bnot(ex), T.forall(j, s.n, band(implies(lt(P(j), ins), bsub(o.lt, {s.k: P(j)})), implies(le(ins, P(j)), bnot(bsub(o.lt, {s.k: P(j)})))))))
    return Cases([(ex, Enum("Result", "Ok", [Num(i, "u")])), (bnot(ex), Enum("Result", "Err", [Num(ins, "u")]))])


def m_windows(ev, e, ref, v, want):
    w = is_const(rd1(ev, e).p)
    if w is None: raise Unsupported("windows of symbolic width")
    n = seq_len(v) - (w - 1)
    return mkseq(n, lambda k: Seq([Seg(ONE, fresh("k"), seq_get(v, k + i)) for i in range(int(w))]))


def m_split_at(ev, e, ref, v, want):
    i = rd1(ev, e).p; n = seq_len(v)
    ev.obl("index", le(i, n), "split_at in range")
    return Tup([subseq(v, ZERO, i), subseq(v, i, n - i)])


def m_join(ev, e, ref, v, want): return Str(P(T.mk_atom("var", ("str!%d" % next(T._ctr),), "S")))
def m_concat(ev, e, ref, v, want): return flatten(ev, v)
def m_dedup(ev, e, ref, v, want):
    """contract of dedup: the elements that differ from their predecessor, in order"""
    s = as_single(v)
    if s is None: return UNIT
    if ev.binders: raise Unsupported("dedup inside a symbolic loop")
    n = s.n; c = next(T._ctr)
    t = lambda i: ev.rd(vsubst(s.e, {s.k: P(i)})).p
    K = ev.skolem("distinct", "I")
    src = lambda k: T.app("src!%d" % c, (P(k),), "I"); pos = lambda i: T.app("group!%d" % c, (P(i),), "I")
    k = fresh("k"); i = fresh("i"); j = fresh("j")
    ev.assume(le0(-K), le(K, n), implies(lt0(-n), lt0(-K)))
    ev.assume(T.forall(k, K, band(le0(-src(k)), lt(src(k), n), eq(pos(src(k)), P(k)))))
    ev.assume(T.forall(i, n, band(le0(-pos(i)), lt(pos(i), K), le(src(pos(i)), P(i)), eq(t(src(pos(i))), t(i)))))
    ev.assume(T.forall(k, K - 1, band(lt(src(k), src(P(k) + 1)), bnot(eq(t(src(k)), t(src(P(k) + 1)))))))
    k = fresh("k")
    ev.write(ref, Seq([Seg(K, k, vsubst(s.e, {s.k: src(k)}))]))
    return UNIT


# ------------------------------------------------------------------ Option / Result
def m_unwrap(ev, e, ref, v, want):
    if isinstance(v, Opt):
        ev.obl("unwrap", v.c, "value present")
        if v.v is None: raise Diverge()
        return v.v
    if isinstance(v, Enum):
        if v.var in ("Ok",): return v.xs[0]
        if v.var == "Err":
            ev.obl("unwrap", FALSE, "Ok value"); raise Diverge()
    if isinstance(v, Cases):
        oks = [(g, x) for g, x in v.alts if x.var == "Ok"]
        ev.obl("unwrap", bor(*[g for g, _ in oks]), "Ok value")
        r = None
        for g, x in reversed(oks): r = x.xs[0] if r is None else vite(g, x.xs[0], r)
        return r
    return v   # RefCell / Mutex wrappers are transparent


def m_expect(ev, e, ref, v, want): return m_unwrap(ev, e, ref, v, want)


def m_unwrap_or(ev, e, ref, v, want):
    d = ev.rd(args1(ev, e))
    if isinstance(v, Opt): return d if v.v is None else vite(v.c, ev.rd(v.v), d)
    if isinstance(v, OrdV): return v
    return res_cases(ev, v, lambda x: x, lambda _: d)


def m_unwrap_or_else(ev, e, ref, v, want):
    f = args1(ev, e)
    if isinstance(v, Opt): return ev.branch(v.c, lambda: ev.rd(v.v), lambda: ev.rd(ev.call_value(f, [])))
    return res_cases(ev, v, lambda x: x, lambda x: ev.call_value(f, [x]))


def m_unwrap_or_default(ev, e, ref, v, want):
    if isinstance(v, Opt) and v.v is not None: return vite(v.c, ev.rd(v.v), ev.default_like(ev.rd(v.v)))
    raise Unsupported("unwrap_or_default")


def m_unwrap_or_log(ev, e, ref, v, want): raise Unsupported("unwrap_or_log")


def res_cases(ev, v, fok, ferr):
    if isinstance(v, Enum): return fok(v.xs[0]) if v.var == "Ok" else ferr(v.xs[0])
    if isinstance(v, Cases):
        return ev.overcases_eff(v, lambda x: fok(x.xs[0]) if x.var == "Ok" else ferr(x.xs[0]))
    raise Unsupported("Result method on %s" % type(v).__name__)


def m_map_or(ev, e, ref, v, want):
    d = ev.rd(ev.expr(e["args"][0])); f = ev.expr(e["args"][1])
    if isinstance(v, Opt):
        if v.v is None: return d
        return ev.branch(v.c, lambda: ev.rd(ev.call_value(f, [v.v])), lambda: d)
    return res_cases(ev, v, lambda x: ev.call_value(f, [x]), lambda _: d)


def m_map_or_else(ev, e, ref, v, want):
    d = ev.expr(e["args"][0]); f = ev.expr(e["args"][1])
    return ev.branch(v.c, lambda: ev.rd(ev.call_value(f, [v.v])), lambda: ev.rd(ev.call_value(d, [])))


def m_map_err(ev, e, ref, v, want): return v
def m_ok(ev, e, ref, v, want): return res_cases(ev, v, lambda x: Opt(TRUE, x), lambda _: NONE)
def m_err(ev, e, ref, v, want): return res_cases(ev, v, lambda x: NONE, lambda x: Opt(TRUE, x))
def m_ok_or(ev, e, ref, v, want):
    d = args1(ev, e)
    a = [(v.c, Enum("Result", "Ok", [v.v])), (bnot(v.c), Enum("Result", "Err", [d]))]
    if v.c is TRUE or v.v is not None and decide(v.c) is True: return a[0][1]
    if v.c is FALSE or v.v is None: return a[1][1]
    return Cases(a)
m_ok_or_else = m_ok_or


def m_is_some(ev, e, ref, v, want): return Boo(v.c)
def m_is_none(ev, e, ref, v, want): return Boo(bnot(v.c))
def m_is_ok(ev, e, ref, v, want): return Boo(v_is(v, "Ok"))
def m_is_err(ev, e, ref, v, want): return Boo(v_is(v, "Err"))
def m_is_break(ev, e, ref, v, want): return Boo(v_is(v, "Break"))
def m_is_continue(ev, e, ref, v, want): return Boo(v_is(v, "Continue"))


def v_is(v, n):
    if isinstance(v, Enum): return bconst(v.var == n)
    return bor(*[g for g, x in v.alts if x.var == n])


def m_is_some_and(ev, e, ref, v, want):
    f = args1(ev, e)
    if v.v is None: return Boo(FALSE)
    return ev.branch(v.c, lambda: ev.rd(ev.call_value(f, [v.v])), lambda: Boo(FALSE))


def m_is_none_or(ev, e, ref, v, want):
    f = args1(ev, e)
    if v.v is None: return Boo(TRUE)
    return ev.branch(v.c, lambda: ev.rd(ev.call_value(f, [v.v])), lambda: Boo(TRUE))


def m_and_then(ev, e, ref, v, want):
    f = args1(ev, e)
    if isinstance(v, Opt):
        if v.v is None: return NONE
        return ev.branch(v.c, lambda: ev.rd(ev.call_value(f, [v.v])), lambda: NONE)
    raise Unsupported("and_then")


def m_or(ev, e, ref, v, want):
    d = rd1(ev, e)
    return vite(v.c, v, d)


def m_or_else(ev, e, ref, v, want):
    f = args1(ev, e)
    return ev.branch(v.c, lambda: v, lambda: ev.rd(ev.call_value(f, [])))


def m_replace(ev, e, ref, v, want):
    x = ev.rd_own(args1(ev, e))
    if isinstance(v, Opt):
        ev.write(ref, Opt(TRUE, x)); return v
    ev.write(ref, x); return v


def m_as_deref(ev, e, ref, v, want): return v
def m_as_deref_mut(ev, e, ref, v, want): return opt_ref(ref, v) if ref is not None else v


# ------------------------------------------------------------------ orderings, comparisons
def m_partial_cmp(ev, e, ref, v, want): return Opt(TRUE, ev.compare(v, rd1(ev, e)))
def m_cmp(ev, e, ref, v, want): return ev.compare(v, rd1(ev, e))
m_total_cmp = m_cmp
def m_eq(ev, e, ref, v, want): return Boo(ev.equal(v, rd1(ev, e)))
def m_ne(ev, e, ref, v, want): return Boo(bnot(ev.equal(v, rd1(ev, e))))
def m_lt(ev, e, ref, v, want): return Boo(ev.compare(v, rd1(ev, e)).lt)
def m_gt(ev, e, ref, v, want):
    o = ev.compare(v, rd1(ev, e)); return Boo(bnot(bor(o.lt, o.eq)))
def m_le(ev, e, ref, v, want):
    o = ev.compare(v, rd1(ev, e)); return Boo(bor(o.lt, o.eq))
def m_ge(ev, e, ref, v, want): return Boo(bnot(ev.compare(v, rd1(ev, e)).lt))
def m_then(ev, e, ref, v, want):
    if isinstance(v, Boo):
        f = args1(ev, e)
        return ev.branch(v.b, lambda: Opt(TRUE, ev.call_value(f, [])), lambda: NONE)
    o = rd1(ev, e)
    return OrdV(bor(v.lt, band(v.eq, o.lt)), band(v.eq, o.eq))
def m_then_some(ev, e, ref, v, want): return Opt(v.b, ev.rd(args1(ev, e)))
def m_then_with(ev, e, ref, v, want):
    f = args1(ev, e)
    o = ev.rd(ev.call_value(f, []))
    return OrdV(bor(v.lt, band(v.eq, o.lt)), band(v.eq, o.eq))
def m_is_lt(ev, e, ref, v, want): return Boo(v.lt)
def m_is_eq(ev, e, ref, v, want): return Boo(v.eq)
def m_is_gt(ev, e, ref, v, want): return Boo(bnot(bor(v.lt, v.eq)))
def m_is_le(ev, e, ref, v, want): return Boo(bor(v.lt, v.eq))
def m_is_ge(ev, e, ref, v, want): return Boo(bnot(v.lt))


def m_into(ev, e, ref, v, want): return ev.into(v, want)
def m_try_into(ev, e, ref, v, want): return Enum("Result", "Ok", [v])
def m_to_string(ev, e, ref, v, want):
    if isinstance(v, Str): return v
    return Str(T.app("tostr", (v.p,), "S")) if isinstance(v, Num) else Str(P(T.mk_atom("var", ("str!%d" % next(T._ctr),), "S")))


# ------------------------------------------------------------------ maps
def map_len(ev, v):
    if v.src is not None and len(v.src.segs) == 1 and v.src.segs[0].g is TRUE and not v.src.segs[0].flat:
        # the number of distinct elements: 0, 1, 2 or more
        key = v.src
        hit = [r for q, r in getattr(ev, "cards", []) if q is key]
        if hit: return hit[0]
        s = v.src.segs[0]; n = s.n
        t = lambda i: ev.rd(vsubst(s.e, {s.k: P(i)})).p
        d = ev.skolem("second", "I")         # the first element that differs from element 0 (n: none)
        e = ev.skolem("third", "I")          # the first that differs from both (n: none)
        j = fresh("j")
        ev.assume(le0(-d), le(d, n), T.forall(j, d, eq(t(j), t(0))), implies(lt(d, n), bnot(eq(t(d), t(0)))))
        ev.assume(le0(-e), le(e, n), T.forall(j, e, bor(eq(t(j), t(0)), eq(t(j), t(d)))), implies(lt(e, n), band(lt(d, n), bnot(eq(t(e), t(0))), bnot(eq(t(e), t(d))))))
        m = ev.skolem("more", "I")
        ev.assume(le(3, m))
        r = T.ite(eq(n, 0), ZERO, T.ite(eq(d, n), ONE, T.ite(eq(e, n), const(2), m)))
        if not ev.binders: ev.cards = getattr(ev, "cards", []) + [(key, r)]
        return r
    keys = getattr(ev, "key_domain", None)
    if keys is not None:
        check_domain(ev, v, keys)
        return sum((T.ind(bsub(v.pres, {v.k: q})) for q in keys), ZERO)
    hi = getattr(ev, "key_range", None)
    if hi is not None and v.k.sort == "I":
        # the keys are numbers below hi (an obligation)
        q = fresh("key"); p = bsub(v.pres, {v.k: P(q)})
        ev.obl("keys", implies(p, band(le0(-P(q)), lt(P(q), hi))), "the elements of the set lie in the declared range")
        with use(ev.ctx.plus(le0(-P(q)), lt(P(q), hi))): p = settled(p)
        return T.ssum(q, hi, T.ind(p))
    return T.app("maplen!%d" % next(T._ctr), (), "I")


def m_entry(ev, e, ref, v, want):
    k = rd1(ev, e)
    return Tup([ref, k])     # consumed by or_insert


def m_or_insert(ev, e, ref, v, want):
    if not (isinstance(v, Tup) and isinstance(v.xs[0], Ref)): raise Unsupported("or_insert")
    mref, k = v.xs
    d = ev.rd(args1(ev, e))
    mv = ev.rd(mref)
    kp = k.p
    pres = bsub(mv.pres, {mv.k: kp})
    hit = eq(P(mv.k), kp)
    val = d if isinstance(mv.val, Undef) else mv.val
    if mv.zero and isinstance(d, Num) and d.p is ZERO:
        ev.write(mref, MapV(mv.k, bor(mv.pres, hit), mv.val, zero=True))
        return Ref(mref.cell, mref.path + (("i", kp),))
    cur_ = d if isinstance(mv.val, Undef) else vite(pres, vsubst(mv.val, {mv.k: kp}), d)
    ev.write(mref, MapV(mv.k, bor(mv.pres, hit), vite(hit, cur_, val) if not isinstance(mv.val, Undef) else d, zero=mv.zero))
    return Ref(mref.cell, mref.path + (("i", kp),))


def m_or_default(ev, e, ref, v, want): raise Unsupported("or_default")
def m_keys(ev, e, ref, v, want): return map_keys(ev, v)
def m_values(ev, e, ref, v, want): return MapValues(ev, v)


def MapValues(ev, v):
    """the values of a map; their sum needs no presence conditions when absent entries hold zero"""
    q = map_iter(ev, v, "values")
    if v.zero: q.total = map_iter(ev, v, "values", True)
    return q
m_into_values = m_values; m_into_keys = m_keys


# ------------------------------------------------------------------ strings, time, io
def m_trim(ev, e, ref, v, want): return v
def m_elapsed(ev, e, ref, v, want): return Opq("Time", ev.skolem("elapsed", "Time"))
def m_as_millis(ev, e, ref, v, want):
    # a clock reading: any number, one per place in the code and iteration
    n = "ms@" + "/".join([str(f.line) for f in ev.fnstack] + [str(e["l"])])
    return Num(T.app(n, [P(b) for b in ev.binders], "I") if ev.binders else P(T.mk_atom("var", (n,), "I")), "u")
def m_as_secs(ev, e, ref, v, want): return Num(ev.skolem("s", "I"), "u")
def m_lock(ev, e, ref, v, want): return Enum("Result", "Ok", [ref if ref is not None else v])
def m_flush(ev, e, ref, v, want): return Enum("Result", "Ok", [UNIT])
