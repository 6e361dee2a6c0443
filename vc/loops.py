"""Loops: every iteration at once.

A loop over a sequence of symbolic length is run at a generic iteration k from a havocked store; the effect of the body
gives recurrences for the modified locations, which are solved (accumulation, pointwise and scattered writes, running
maximum, conditional assignment, growing vectors, ...) into an invariant X(k) = closed form.  The invariant is then checked:
X(0) is the initial value and one run of the body takes X(k) to X(k+1) (recorded as obligations).  Locations without a
closed form stay uninterpreted functions of k, constrained by the recurrence itself and by interval invariants found by
Houdini-style weakening."""
import itertools, os, time
import terms as T
import prover as PR
from terms import *
from prover import decide
from values import *
from values import bsub
import eval as E


def run_for(ev, it, bodyfn, label, e, byref=None):
    import builtins_rs as BR
    q = norm(BR.as_iter(ev, it)) if byref is None else norm(ev.rd(byref))
    segs = list(q.segs)
    L = Loop(ev, label)
    for i, s in enumerate(segs):
        tail = segs[i + 1:]
        L.segment(s, bodyfn, byref, tail)
        if L.dead: break
    return L.finish(byref)


def run_inf(ev, bodyfn, label):
    L = Loop(ev, label)
    L.symbolic(None, lambda k: (TRUE, None), bodyfn, None, ())
    return L.finish(None)


class Loop:
    def __init__(self, ev, label):
        self.ev = ev; self.label = label
        self.pc0 = list(ev.pc); self.base = len(ev.pc)
        self.ctx0 = ev.ctx
        self.breaks = []     # (relative pc, value, store, ctx)
        self.dead = False

    # -------------------------------------------------------------- one body run
    def body(self, f):
        """run f; returns (normal outcomes, break outcomes, [(frame, outcome)] of enclosing frames)"""
        ev = self.ev
        fr = E.Frame("loop", self.base, self.label)
        outer = [(x, len(x.out)) for x in ev.frames]
        old = ev.frames
        ev.frames = ev.frames + [fr]
        normal = []
        try:
            try:
                f()
                normal.append((list(ev.pc[self.base:]), ev.st, ev.ctx))
            except E.Diverge: pass
        finally:
            ev.frames = old
        brk = []
        for kind, pc, v, st, ctx in fr.out:
            if kind == "continue": normal.append((pc, st, ctx))
            else: brk.append((pc, v, st, ctx))
        rets = []
        for x, n0 in outer:
            new = x.out[n0:]
            del x.out[n0:]
            for o in new: rets.append((x, o))
        return normal, brk, rets

    def segment(self, s, bodyfn, byref, tail):
        ev = self.ev
        if s.flat:
            # an iterator over a concatenation: loop over the pieces
            def mk(k):
                r = {s.k: P(k)}
                return bsub(s.g, r), vsubst(s.e, r)
            def nested(inner):
                # break leaves both loops: only loops without exits are supported here
                for t in norm(inner).segs:
                    L2 = Loop(ev, None); L2.noexit = True
                    L2.segment(t, bodyfn, None, [])
                    L2.finish(None)
            if byref is not None: raise Unsupported("by_ref on a nested iterator")
            self.symbolic(s.n, mk, nested, None, tail)
            return
        c = is_const(s.n) if s.n is not None else None
        if c is not None and c <= 4:
            for i in range(int(c)):
                r = {s.k: const(i)}
                x = vsubst(s.e, r); g = bsub(s.g, r)
                if g is FALSE: continue
                def f():
                    if byref is not None:
                        rest = [] if i + 1 >= c else [Seg(s.n - (i + 1), *(lambda k: (k, vsubst(s.e, {s.k: P(k) + (i + 1)}), bsub(s.g, {s.k: P(k) + (i + 1)})))(fresh("k")))]
                        ev.write(byref, Seq(rest + list(tail)))
                    if g is TRUE: bodyfn(x)
                    else: ev.branch(g, lambda: (bodyfn(x), UNIT)[1], lambda: UNIT)
                normal, brk, rets = self.body(f)
                for fr, o in rets: fr.out.append(o)
                self.breaks += brk
                if not self.join(normal): return
            return
        def mk(k):
            r = {s.k: P(k)}
            return bsub(s.g, r), vsubst(s.e, r)
        if byref is None and self.elements(s):
            snap = dict(ev.st), list(ev.pc), ev.ctx, len(ev.obls), len(ev.ghost), len(self.breaks), self.base, self.pc0, self.ctx0, ev.binders, ev.quiet, ev.frames, self.dead, [len(f.out) for f in ev.frames]
            try: return self.symbolic(s.n, mk, bodyfn, byref, tail, s)
            except Unsupported:
                ev.st = dict(snap[0]); ev.pc = list(snap[1]); ev.ctx = snap[2]; del ev.obls[snap[3]:]; del ev.ghost[snap[4]:]; del self.breaks[snap[5]:]
                self.base, self.pc0, self.ctx0, ev.binders, ev.quiet, ev.frames, self.dead = snap[6:13]
                for f, n in zip(ev.frames, snap[13]): del f.out[n:]
            return self.disjoint(s, bodyfn)
        self.symbolic(s.n, mk, bodyfn, byref, tail, s)

    def elements(self, s):
        """the references among the items, when each is the element of a vector with the number of the iteration"""
        if s.g is not TRUE or s.n is None or s.flat: return None
        out = []
        def go(v):
            if isinstance(v, Ref):
                if not (v.path and v.path[-1][0] == "i" and v.path[-1][1] is P(s.k)): raise Unsupported("ref")
                out.append(v)
            elif isinstance(v, Tup):
                for x in v.xs: go(x)
        try: go(s.e)
        except Unsupported: return None
        return out

    def disjoint(self, s, bodyfn):
        """`for x in v.iter_mut()`: exclusive references, so iteration i reads and writes element i alone; the vector afterwards is the element-wise result"""
        ev = self.ev
        refs = self.elements(s)
        base = {}
        for r in refs:
            q = ev.rd(Ref(r.cell, r.path[:-1]))
            if not (isinstance(q, Seq) and len(q.segs) == 1 and q.segs[0].g is TRUE and not q.segs[0].flat and (q.segs[0].n is s.n or decide(eq(q.segs[0].n, s.n)) is True)): raise Unsupported("not the whole vector")
            base[(r.cell, r.path)] = q.segs[0]
        if len(base) != len(refs): raise Unsupported("aliased references")
        k = fresh("it")
        st0 = dict(ev.st); pc0 = list(ev.pc); ctx0 = ev.ctx; binders0 = ev.binders; gh0 = len(ev.ghost)
        cells = {}
        for (c, path), sg in base.items():
            cells[(c, path)] = ev.new(vsubst(sg.e, {sg.k: P(k)}))
        def go(v):
            if isinstance(v, Ref): return Ref(cells[(v.cell, v.path)])
            if isinstance(v, Tup): return Tup([go(x) for x in v.xs])
            return vsubst(v, {s.k: P(k)})
        x = go(s.e)
        start = dict(ev.st)
        ev.ctx = ctx0.plus(le0(-P(k)), lt(P(k), s.n)); ctxb = ev.ctx
        ev.binders = binders0 + [k]
        b0 = self.base; self.base = len(pc0)
        try: normal, brk, rets = self.body(lambda: bodyfn(x))
        finally: self.base = b0; ev.binders = binders0
        if brk or rets or len(normal) != 1 or normal[0][0]: raise Unsupported("an exit from a loop over exclusive references")
        _, st, ctx = normal[0]
        if len(ev.ghost) > gh0: raise Unsupported("recorded event inside a loop")
        mine = set(cells.values()); pushed = {}
        for c, v in start.items():
            if c not in mine and st.get(c) is not v and not same(st.get(c), v):
                w = st.get(c)
                if c in ev.collecting and isinstance(w, Seq) and len(w.segs) == len(v.segs) + 1 and all(a is b for a, b in zip(v.segs, w.segs)) and w.segs[-1].n is T.ONE and w.segs[-1].g is TRUE:
                    pushed[c] = w.segs[-1].e; continue      # the results of a `map`, which nothing in the body can read
                raise Unsupported("a loop over exclusive references changes something else")
        ev.st = st0; ev.pc = pc0; ev.ctx = ctx0
        for h in [h for h in ctx.hyps if h.id not in ctxb.idset]:
            if k in h.fv: ev.assume(T.forall(k, s.n, h))
        for (c, path), cell in cells.items():
            j = fresh("k")
            ev.write(Ref(c, path[:-1]), Seq([Seg(s.n, j, vsubst(st[cell], {k: P(j)}))]))
        for c, y in pushed.items():
            j = fresh("k")
            ev.st[c] = Seq(list(ev.st[c].segs) + [Seg(s.n, j, vsubst(y, {k: P(j)}))])

    def join(self, normal):
        """continue with the merged normal outcomes; False when there are none"""
        ev = self.ev
        if not normal:
            self.dead = True
            ev.pc = list(self.pc0); ev.ctx = self.ctx0
            return False
        if len(normal) == 1:
            pc, ev.st, ctx = normal[0]
            ev.pc = self.pc0 + pc; ev.ctx = ctx
            return True
        outs = [("n", pc, UNIT, st, ctx) for pc, st, ctx in normal]
        v, st, facts = ev.merge_outs(outs, self.pc0, self.ctx0)
        ev.st = st
        alive = bor(*[band(*o[1]) for o in outs])
        ev.pc = list(self.pc0); ev.ctx = self.ctx0
        if alive is not TRUE and decide(alive) is not True:
            ev.pc = self.pc0 + [alive]; ev.assume(alive)
        ev.assume(*facts)
        return True

    def finish(self, byref, value=lambda: UNIT):
        ev = self.ev
        if byref is not None and not self.dead: ev.write(byref, empty())
        outs = [("break", pc, v, st, ctx) for pc, v, st, ctx in self.breaks]
        if not self.dead: outs.append(("n", list(ev.pc[self.base:]), value(), ev.st, ev.ctx))
        if not outs: raise E.Diverge()
        if len(outs) == 1 and not self.breaks: return value()
        v, st, facts = ev.merge_outs(outs, self.pc0, self.ctx0)
        ev.st = st
        alive = bor(*[band(*o[1]) for o in outs])
        ev.pc = list(self.pc0); ev.ctx = self.ctx0
        if alive is not TRUE and decide(alive) is not True:
            ev.pc = self.pc0 + [alive]; ev.assume(alive)
        ev.assume(*facts)
        return v

    # -------------------------------------------------------------- symbolic number of iterations
    def symbolic(self, n, mk, bodyfn, byref, tail, seg=None):
        ev = self.ev
        if n is not None:
            d = decide(le0(n))
            if d is True: return
        st0 = dict(ev.st); pc0 = list(ev.pc); ctx0 = ev.ctx
        base0 = self.base; lpc0 = self.pc0; lctx0 = self.ctx0
        k = fresh("it")
        g, x = mk(k)
        gh0 = len(ev.ghost)
        rng = [le0(-P(k))] + ([lt(P(k), n)] if n is not None else [])
        binders0 = ev.binders

        def run(store, quiet, extra=()):
            """one generic iteration; returns the merged normal store, exits, new facts"""
            ev.st = dict(store); ev.pc = list(pc0); ev.ctx = ctx0.plus(*rng).plus(*extra)
            ctxb = ev.ctx
            ev.binders = binders0 + [k]
            self.base = len(pc0); self.pc0 = pc0; self.ctx0 = ctxb
            if quiet: ev.quiet += 1
            try:
                def f():
                    if byref is not None:
                        j = fresh("k")
                        rest = Seg(n - P(k) - 1, j, vsubst(seg.e, {seg.k: P(j) + P(k) + 1}), bsub(seg.g, {seg.k: P(j) + P(k) + 1}))
                        ev.write(byref, Seq([rest] + list(tail)))
                    if g is TRUE: bodyfn(x)
                    elif g is FALSE: pass
                    else: ev.branch(g, lambda: (bodyfn(x), UNIT)[1], lambda: UNIT)
                normal, brk, rets = self.body(f)
                st = None; new = []
                nalive = FALSE
                if normal:
                    nalive = bor(*[band(*pc) for pc, _, _ in normal])
                    if len(normal) == 1:
                        pc, st, ctx = normal[0]
                        new = [h for h in ctx.hyps if h.id not in ctxb.idset]
                        cond = band(*pc)
                        if cond is not TRUE:
                            ids = {h.id for p in pc for h in ([p] if p.kind != "and" else p.data)} | {p.id for p in pc}
                            new = [implies(cond, h) for h in new if h.id not in ids]
                    else:
                        outs = [("n", pc, UNIT, s, c) for pc, s, c in normal]
                        _, st, new = ev.merge_outs(outs, pc0, ctxb)
                for lst in (brk, [(o[1], o[2], o[3], o[4]) for _, o in rets]):
                    for pc, v, s, c in lst: pass
                return st, nalive, brk, rets, new, ctxb
            finally:
                if quiet: ev.quiet -= 1
                ev.binders = binders0
                self.base = base0; self.pc0 = lpc0; self.ctx0 = lctx0

        # ---- the modified locations
        leaves = {}      # (cell, path) -> Leaf
        for rnd in range(9):
            if rnd == 8: raise Unsupported("the modified set of a loop does not stabilise")
            store = dict(st0)
            for lf in leaves.values(): self.put(store, lf.cell, lf.path, lf.x)
            st, nalive, brk, rets, new, _ = run(store, True)
            changed = False
            if st is not None:
                for c in st0:
                    if byref is not None and c == byref.cell: continue
                    a, b = store[c], st.get(c)
                    if b is None or a is b or same(a, b): continue
                    for path, u, w in diffs(a, b, ()):
                        key = (c, path)
                        if any(kk[0] == c and path[:len(kk[1])] == kk[1] for kk in leaves):
                            lf = [l for kk, l in leaves.items() if kk[0] == c and path[:len(kk[1])] == kk[1]][0]
                            if lf.reshape(ev, b_at(b, lf.path), binders0 + [k]): changed = True
                            continue
                        for kk in [kk for kk in leaves if kk[0] == c and kk[1][:len(path)] == path]: del leaves[kk]
                        lf = Leaf(c, path, b_at(st0[c], path))
                        lf.make(ev, b_at(b, path), binders0 + [k])
                        leaves[key] = lf
                        changed = True
            if not changed: break
        del ev.ghost[gh0:]

        # ---- recurrences
        comps = []; grow = []
        if st is not None:
            for lf in leaves.values():
                after = b_at(st[lf.cell], lf.path)
                lf.after = after
                lf.collect(ev, lf.x, after, lf.init, comps, grow, ())
        S = Solver(ev, k, n, comps, grow, binders0, ctx0.plus(*rng), ctx0)
        def rerun():
            """the body once more, with the locations solved so far: the updates of the others"""
            store = dict(st0)
            for lf in leaves.values(): self.put(store, lf.cell, lf.path, S.apply(lf.x))
            st2, _, _, _, _, _ = run(store, True, S.facts(k))
            del ev.ghost[gh0:]
            if st2 is None: return {}
            out = []
            for lf in leaves.values(): lf.collect(ev, lf.x, b_at(st2[lf.cell], lf.path), lf.init, out, [], ())
            return {c.name: c.upd for c in out}
        if ev.loop_names and not grow: S.rerun = rerun
        S.solve()
        fixed = lambda v, kk: vsubst(S.apply(v), {k: P(kk)})

        # ---- final run from the invariant
        store = dict(st0)
        for lf in leaves.values(): self.put(store, lf.cell, lf.path, S.apply(lf.x))
        inv = S.invariants()
        if any(True for _ in ev.ghost[gh0:]): del ev.ghost[gh0:]
        # an iteration is reached when no earlier one left the loop
        earlier = []
        if brk or rets:
            c0 = bor(*[band(*o[0]) for o in brk], *[band(*o[1][1][self.relbase(o[0], pc0):]) for o in rets])
            nc = S.applyb(bnot(c0))
            if not (T.apps_in(nc) & S.unsolved):
                j = fresh("j")
                earlier = [T.forall(j, P(k), bsub(nc, {k: P(j)})), implies(le(1, P(k)), bsub(nc, {k: P(k) - 1}))]
        st, nalive, brk, rets, new, ctxb = run(store, False, inv + S.facts(k) + earlier)
        if len(ev.ghost) > gh0: raise Unsupported("recorded event inside a loop")
        # the invariant is inductive
        if st is not None and not ev.quiet:
            cx = ctxb.plus(*new).plus(nalive)
            for name, goal in S.inductive(lambda lf: b_at(st[lf.cell], lf.path), leaves.values(), cx):
                ev.obls.append(E.Obl("loop-invariant", goal, ctx0 if name.startswith("initially") else cx, ev.fnstack[-1].qual() if ev.fnstack else "", name))

        ev.st = dict(st0); ev.pc = list(pc0); ev.ctx = ctx0
        if n is not None: ev.assume(*S.global_facts(n))
        for h in new:
            if n is not None:
                if k in h.fv: ev.assume(T.forall(k, n, implies(g, h)))
                elif g is TRUE: ev.assume(bor(le0(n), h))

        cb = bor(*[band(*o[0]) for o in brk]); cr = bor(*[band(*o[1][1][self.relbase(o[0], pc0):]) for o in rets]) if rets else FALSE
        if brk == [] and not rets:
            if n is None:
                # an endless loop
                self.dead = True; return
            ev.assume(*S.facts(n)); ev.assume(*S.inv_at(n))
            for lf in leaves.values(): self.put(ev.st, lf.cell, lf.path, self.tidy(fixed(lf.x, n)))
            return
        c = bor(cb, cr)
        cdec = None
        K = ev.skolem("exit", "I")
        ev.exits.append(K)
        ev.assume(le0(-K))
        if n is not None: ev.assume(le(K, n))
        j = fresh("j")
        notc = bnot(c)
        ev.assume(T.forall(j, K, bsub(S.applyb(notc), {k: P(j)})), implies(le(1, K), bsub(S.applyb(notc), {k: K - 1})))
        catK = bsub(S.applyb(c), {k: K})
        ev.assume(catK if n is None else bor(le(n, K), catK))
        ev.assume(*S.facts(K)); ev.assume(*S.inv_at(K))
        if n is None: ev.assume(*S.global_facts(K))
        if n is not None:
            # the last iteration does not leave the loop either (sums up to n instead of K)
            ev.assume(implies(band(le(1, n), le(n, K)), bsub(S.applyb(notc), {k: P(n) - 1})))
        hit = TRUE if n is None else lt(K, n)
        early = False
        if hit is not TRUE and not ev.quiet:
            PR.deadline[0] = time.time() + 4
            try: early = PR.prove(hit, ev.ctx, timeout=1500)
            finally: PR.deadline[0] = 0
            if early: ev.assume(hit, catK); hit = TRUE        # the loop is always left before its end
        sub = {k: K}
        subst_store = lambda s: self.store_at(s, S, sub)
        stK = dict(st0)
        for lf in leaves.values(): self.put(stK, lf.cell, lf.path, fixed(lf.x, K))
        rel = pc0[base0:]
        ctxK = ev.ctx
        ex = lambda cs: [bsub(S.applyb(x), sub) for x in cs]
        for pc, v, s, cx in brk:
            extra = [h for h in cx.hyps if h.id not in ctxb.idset]
            cK = ctxK.plus(hit).plus(*ex(extra))
            self.breaks.append((rel + [hit] + ex(pc), v if v is UNIT else vsubst(S.apply(v), sub), subst_store(s), cK))
        for fr, (kind, pc, v, s, cx) in rets:
            extra = [h for h in cx.hyps if h.id not in ctxb.idset]
            cK = ctxK.plus(hit).plus(*ex(extra))
            nrel = len(pc0) - fr.pclen
            fr.out.append((kind, pc[:nrel] + [hit] + ex(pc[nrel:]), vsubst(S.apply(v), sub), subst_store(s), cK))
        if n is None or early:
            self.dead = True
            ev.pc = list(pc0); ev.ctx = ctx0
            return
        # the loop ran to its end
        done = le(n, K)
        ev.st = stK if False else dict(st0)
        for lf in leaves.values(): self.put(ev.st, lf.cell, lf.path, fixed(lf.x, n))
        ev.pc = pc0 + [done]
        ev.assume(done)
        ev.assume(*S.facts(n)); ev.assume(*S.inv_at(n))

    def tidy(self, v):
        """elements of a sequence, simplified knowing that their index is in range"""
        try: return tidy(self.ev, v)
        except Unsupported: return v

    def relbase(self, fr, pc0): return len(pc0) - fr.pclen

    def store_at(self, s, S, sub):
        out = {}
        for c, v in s.items():
            try: out[c] = vsubst(S.apply(v), sub)
            except Unsupported: out[c] = v
        return out

    def put(self, store, cell, path, v):
        store[cell] = put_at(store[cell], path, v)


def tidy(ev, v):
    if isinstance(v, Seq):
        out = []
        for s in v.segs:
            if s.n is None: out.append(s); continue
            k = s.k
            cx = ev.ctx.plus(le0(-P(k)), lt(P(k), s.n), s.g)
            def at(x):
                if isinstance(x, Seq): return x
                with PR.use(cx):
                    if isinstance(x, Num) and has_inds(x.p): return Num(settle(ev, T.rebuild(x.p), cx), x.ty)
                    if isinstance(x, Boo): return Boo(PR.settled(T.brebuild(x.b)))
                if isinstance(x, Tup): return Tup([at(y) for y in x.xs])
                return x
            out.append(Seg(s.n, k, at(s.e), s.g, s.flat))
        return Seq(out)
    if isinstance(v, Struct): return Struct(v.name, {n: tidy(ev, x) for n, x in v.fs.items()})
    if isinstance(v, Tup): return Tup([tidy(ev, x) for x in v.xs])
    return v


def settle(ev, p, cx):
    """conditions of a piecewise value that always (or never) hold on their piece"""
    if ev.quiet or T.isint(p): return p
    lits = T.top_inds(p)
    real = [l for l in lits if l.kind in ("le", "lt", "eq") and not isint(l.data[0])]
    piece = [l for l in lits if PR.linear_int(l)]
    if not real or not piece or len(real) > 3 or len(piece) > 4: return p
    PR.deadline[0] = time.time() + 5
    try:
        for l in real:
            a, b = T.set_ind(p, l, True), T.set_ind(p, l, False)
            d = a - b                     # p = b + [l] d
            out = b; changed = False
            # group the difference by its pieces
            grp = {}
            for m, c in d.t.items():
                key = tuple(sorted((x for x, _ in m if x.kind == "ind" and x.data[0] in piece), key=lambda x: x.id))
                grp.setdefault(key, {})[m] = c
            for key, t in grp.items():
                t = mkpoly(t)
                c2 = cx.plus(*[x.data[0] for x in key])
                v = None
                if PR.prove(l, c2, depth=3, timeout=1000): v = True
                elif PR.prove(bnot(l), c2, depth=3, timeout=1000): v = False
                if v is not None: changed = True
                out = out + (t if v is True else ZERO if v is False else T.mul(T.ind(l), t))
            if changed: p = out
    except Unsupported: pass
    finally: PR.deadline[0] = 0
    return p


def has_inds(p):
    return any(a.kind in ("ind", "app", "fold", "sum") and _deep_ind(a) for m in p.t for a, _ in m)


def _deep_ind(a):
    return a.kind == "ind" or any(b.kind == "ind" for b in T.atoms_of(P(a)).values())


def put_at(root, path, v):
    if not path: return v
    s = path[0]
    if isinstance(root, Struct):
        fs = dict(root.fs); fs[s] = put_at(fs[s], path[1:], v); return Struct(root.name, fs)
    if isinstance(root, Tup):
        xs = list(root.xs); xs[s] = put_at(xs[s], path[1:], v); return Tup(xs)
    raise Unsupported("path into %s" % type(root).__name__)


def b_at(v, path):
    for s in path:
        v = v.fs[s] if isinstance(v, Struct) else v.xs[s]
    return v


def diffs(a, b, path):
    """the smallest differing sub-values"""
    if a is b or same(a, b): return
    if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name and set(a.fs) == set(b.fs):
        for n in a.fs: yield from diffs(a.fs[n], b.fs[n], path + (n,))
        return
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
        for i, (x, y) in enumerate(zip(a.xs, b.xs)): yield from diffs(x, y, path + (i,))
        return
    yield path, a, b


_names = itertools.count(1)


class Grow:
    """a vector that only grows in the loop"""
    def __init__(self, x, init, name): self.x = x; self.init = init; self.name = name; self.extra = None; self.one = False


class Comp:
    def __init__(self, name, sort, args, js, x, upd, init):
        self.name = name; self.sort = sort; self.args = args; self.js = js; self.x = x; self.upd = upd; self.init = init
        self.closed = None


class Leaf:
    def __init__(self, cell, path, init):
        self.cell = cell; self.path = path; self.init = init; self.x = None; self.n = next(_names)

    def make(self, ev, shape, binders):
        self.shape = shape
        self.ctr = itertools.count(1)
        self.x = self.mk(self.init, shape, [P(b) for b in binders])

    def reshape(self, ev, after, binders):
        """the value changed its shape (a vector grew, an option received its payload): describe it again"""
        if self.compatible(self.x, after): return False
        if getattr(self, "tries", 0) > 3: raise Unsupported("the shape of a modified location does not stabilise")
        self.tries = getattr(self, "tries", 0) + 1
        self.make(ev, after, binders)
        return True

    def compatible(self, x, a):
        if isinstance(x, Num): return isinstance(a, Num)
        if isinstance(x, Seq):
            if not isinstance(a, Seq): return False
            if getattr(x, "_grow", None) if False else self.is_grow(x): return True
            return len(x.segs) == len(a.segs) and all(s.n is t.n and s.flat == t.flat and self.compatible(s.e, t.e) for s, t in zip(x.segs, a.segs))
        if isinstance(x, Opt):
            if not isinstance(a, Opt): return False
            return a.v is None or (x.v is not None and self.compatible(x.v, a.v))
        if isinstance(x, Tup): return isinstance(a, Tup) and all(self.compatible(u, w) for u, w in zip(x.xs, a.xs))
        if isinstance(x, Struct): return isinstance(a, Struct) and all(self.compatible(x.fs[n], a.fs[n]) for n in x.fs)
        return type(x) is type(a)

    def is_grow(self, x): return isinstance(x, Seq) and any(isinstance(s.e, GrowElem) for s in x.segs)

    def name(self): return "X%d_%d" % (self.n, next(self.ctr))

    def mk(self, init, shape, args):
        v = shape
        if isinstance(v, Num):
            ty = v.ty or (init.ty if isinstance(init, Num) else None) or "f"
            nm = self.name()
            return Num(T.app(nm, tuple(args), "R" if ty == "f" else "I"), ty)
        if isinstance(v, Boo): return Boo(T.bapp(self.name(), list(args)))
        if isinstance(v, Opq): return Opq(v.sort, T.app(self.name(), tuple(args), v.sort))
        if isinstance(v, Str): return Str(T.app(self.name(), tuple(args), "S"))
        if isinstance(v, Opt):
            iv = init.v if isinstance(init, Opt) else None
            c = T.bapp(self.name(), list(args))
            return Opt(c, None if v.v is None else self.mk(iv, v.v, args))
        if isinstance(v, Tup): return Tup([self.mk(init.xs[i] if isinstance(init, Tup) else None, y, args) for i, y in enumerate(v.xs)])
        if isinstance(v, Struct): return Struct(v.name, {n: self.mk(init.fs[n] if isinstance(init, Struct) else None, y, args) for n, y in v.fs.items()})
        if isinstance(v, Unit): return v
        if isinstance(v, Seq):
            if isinstance(init, Seq) and len(init.segs) == len(v.segs) and all(s.n is t.n and not t.flat and bsub(t.g, {t.k: P(s.k)}) is s.g for s, t in zip(init.segs, v.segs)):
                out = []
                for s, t in zip(init.segs, v.segs):
                    j = fresh("j")
                    if t.n is T.ONE and t.g is TRUE and isinstance(t.e, Seq):
                        out.append(Seg(t.n, j, self.mk(vsubst(s.e, {s.k: ZERO}), vsubst(t.e, {t.k: ZERO}), args), TRUE)); continue
                    out.append(Seg(t.n, j, self.mk(vsubst(s.e, {s.k: P(j)}), vsubst(t.e, {t.k: P(j)}), args + [P(j)]), bsub(t.g, {t.k: P(j)})))
                return Seq(out)
            nm = self.name()
            last = None
            g0 = init.segs if isinstance(init, Seq) else None
            if g0 == [] or g0 == () or (isinstance(init, Seq) and not init.segs):
                if len(v.segs) == 1 and is_const(v.segs[0].n) == 1 and v.segs[0].g is TRUE and not v.segs[0].flat: last = self.shape_last(nm, v.segs[0], args)
                elif len(v.segs) == 2 and isinstance(v.segs[0].e, GrowElem): last = self.shape_last(nm, v.segs[1], args)
            return Seq([Seg(T.app(nm, tuple(args), "I"), fresh("j"), GrowElem(last))])
        if isinstance(v, MapV):
            kk = fresh("key", v.k.sort)
            val = UNDEF if isinstance(v.val, Undef) else self.mk(vsubst(init.val, {init.k: P(kk)}) if isinstance(init, MapV) and not isinstance(init.val, Undef) else None, vsubst(v.val, {v.k: P(kk)}), args + [P(kk)])
            return MapV(kk, T.bapp(self.name(), list(args) + [P(kk)]), val, zero=isinstance(init, MapV) and init.zero)
        if isinstance(v, Ref): raise Unsupported("a reference changes in a loop")
        raise Unsupported("a %s changes in a loop" % type(v).__name__)

    def shape_last(self, nm, seg, args):
        e = vsubst(seg.e, {seg.k: ZERO})
        return Num(T.app("last:" + nm, tuple(args), "R" if (e.ty or "f") == "f" else "I"), e.ty) if isinstance(e, Num) else None

    def collect(self, ev, x, a, i, comps, grow, js):
        """recurrence components of value x (havocked), a (after the body), i (initial)"""
        und = i is None or isinstance(i, Undef)
        if isinstance(x, Num):
            at = the_atom(x.p)
            comps.append(Comp(at.data[0], at.sort, at.data[1], js, x.p, a.p, i.p if not und else T.app("undef" + at.data[0], tuple(P(j) for j in js), at.sort)))
        elif isinstance(x, Boo):
            comps.append(Comp(x.b.data[0], "B", x.b.data[1], js, x.b, a.b, i.b if not und else FALSE))
        elif isinstance(x, (Opq, Str)):
            at = the_atom(x.p)
            comps.append(Comp(at.data[0], at.sort, at.data[1], js, x.p, a.p, i.p if not und else T.app("undef" + at.data[0], tuple(P(j) for j in js), at.sort)))
        elif isinstance(x, Opt):
            comps.append(Comp(x.c.data[0], "B", x.c.data[1], js, x.c, a.c, i.c if not und else FALSE))
            if x.v is not None:
                av = a.v if a.v is not None else x.v
                self.collect(ev, x.v, av, i.v if not und else None, comps, grow, js)
        elif isinstance(x, Tup):
            for n in range(len(x.xs)): self.collect(ev, x.xs[n], a.xs[n], None if und else i.xs[n], comps, grow, js)
        elif isinstance(x, Struct):
            for n in x.fs: self.collect(ev, x.fs[n], a.fs[n], None if und else i.fs[n], comps, grow, js)
        elif isinstance(x, Seq):
            if self.is_grow(x):
                g = Grow(x, i, the_atom(x.segs[0].n).data[0])
                g.leaf = self
                if len(a.segs) >= 1 and same_seg(a.segs[0], x.segs[0]): g.extra = Seq(a.segs[1:]); g.mode = "push"
                elif g.name not in apps_in_value(a): g.extra = a; g.mode = "assign"
                else: raise Unsupported("a vector changes its length in a loop in an unsupported way")
                if js: raise Unsupported("nested growing vectors")
                grow.append(g)
                last = x.segs[0].e.last
                if last is not None and g.mode == "push" and len(g.extra.segs) == 1 and is_const(g.extra.segs[0].n) == 1 and g.extra.segs[0].g is TRUE and not g.extra.segs[0].flat:
                    at = the_atom(last.p)
                    t = g.extra.segs[0]
                    g.one = True
                    c = Comp(at.data[0], at.sort, at.data[1], (), last.p, vsubst(t.e, {t.k: ZERO}).p, None)
                    comps.append(c)
                return
            for s, t, u in zip(x.segs, a.segs, i.segs if not und else x.segs):
                r = P(s.k)
                if s.n is T.ONE and s.g is TRUE and t.g is TRUE and isinstance(s.e, Seq) and not s.flat:
                    self.collect(ev, s.e, vsubst(t.e, {t.k: ZERO}), None if und else vsubst(u.e, {u.k: ZERO}), comps, grow, js); continue
                if bsub(t.g, {t.k: r}) is not s.g: raise Unsupported("the guard of a sequence changes in a loop")
                self.collect(ev, s.e, vsubst(t.e, {t.k: r}), None if und else vsubst(u.e, {u.k: r}), comps, grow, js + (s.k,))
        elif isinstance(x, MapV):
            r = P(x.k)
            if x.zero and not a.zero: raise Unsupported("a map with values at absent keys")
            comps.append(Comp(x.pres.data[0], "B", x.pres.data[1], js + (x.k,), x.pres, bsub(a.pres, {a.k: r}), FALSE if und else bsub(i.pres, {i.k: r})))
            if not isinstance(x.val, Undef):
                self.collect(ev, x.val, vsubst(a.val, {a.k: r}), None if und or isinstance(i.val, Undef) else vsubst(i.val, {i.k: r}), comps, grow, js + (x.k,))
        elif isinstance(x, Unit): pass
        else: raise Unsupported("a %s changes in a loop" % type(x).__name__)


class GrowElem(V):
    """the elements of a growing vector before they are known"""
    def __init__(self, last=None): self.last = last
    def vmap(self, fp, fb): return self if self.last is None else GrowElem(vmap(self.last, fp, fb))
    def __repr__(self): return "elem"


def same_seg(s, t): return s.n is t.n and isinstance(s.e, GrowElem) and isinstance(t.e, GrowElem)


def the_atom(p):
    (m, c), = p.t.items()
    return m[0][0]


def apps_in_value(v):
    r = set()
    try: ps = polys(v)
    except Unsupported: return r
    for x in ps: r |= T.apps_in(x)
    return r


class Solver:
    def __init__(self, ev, k, n, comps, grow, binders, ctx, outer):
        self.outer = outer       # the context before the loop (the loop may have no iteration)
        self.wide = outer.plus(le0(-P(k))).plus(*([le(P(k), n)] if n is not None else []))     # k as a number of iterations
        self.ev = ev; self.k = k; self.n = n; self.comps = comps; self.grow = grow; self.binders = binders; self.ctx = ctx
        self.names = {c.name for c in comps} | {g.name for g in grow}
        self.sol = {}        # name -> (params, closed poly / condition)
        self.gsol = {}       # growing vector name -> Seq with self.k as the iteration count
        self.factfns = []    # functions of an iteration count giving facts
        self.invs = []       # functions of an iteration count
        self.opaque = []
        self.litmap = {}

    # ---- applying the solution
    def apply(self, v):
        if not self.sol and not self.gsol: return v
        if self.gsol: v = self.apply_grow(v)
        return vtransform(v, self.fa, self.fb)

    def apply_grow(self, v):
        if isinstance(v, Seq):
            out = []
            for s in v.segs:
                if isinstance(s.e, GrowElem):
                    at = the_atom(s.n) if len(s.n.t) == 1 else None
                    nm = at.data[0] if at is not None and at.kind == "app" else None
                    if nm in self.gsol:
                        q = vsubst(self.gsol[nm], {self.k: at.data[1][len(self.binders)]})
                        out += list(q.segs); continue
                    out.append(s)
                else: out.append(Seg(s.n, s.k, self.apply_grow(s.e), s.g, s.flat))
            return Seq(out)
        if isinstance(v, Tup): return Tup([self.apply_grow(x) for x in v.xs])
        if isinstance(v, Struct): return Struct(v.name, {n: self.apply_grow(x) for n, x in v.fs.items()})
        if isinstance(v, Opt): return Opt(v.c, None if v.v is None else self.apply_grow(v.v))
        if isinstance(v, Enum): return Enum(v.name, v.var, [self.apply_grow(x) for x in v.xs])
        return v

    def applyb(self, b): return T.transform(b, self.fa, None, self.fb) if self.sol or self.gsol else b
    def applyp(self, p): return T.transform(p, self.fa, None, self.fb) if self.sol or self.gsol else p

    def fa(self, a, tp):
        if a.kind == "app":
            s = self.sol.get(a.data[0])
            if s is not None:
                params, val = s
                return subst(val, dict(zip(params, [tp(y) for y in a.data[1][len(self.binders):]])))
            g = self.gsol.get(a.data[0])
            if g is not None:
                return seq_len(vsubst(g, {self.k: tp(a.data[1][len(self.binders)])}))
        return None

    def fb(self, b, tp):
        s = self.sol.get(b.data[0])
        if s is not None:
            params, val = s
            return bsubst(val, dict(zip(params, [tp(y) for y in b.data[1][len(self.binders):]])))
        return None

    def free(self, x):
        """no unsolved modified location occurs in x"""
        return not (T.apps_in(x) & self.unsolved)

    # ---- solving
    rerun = None

    def solve(self):
        self.unsolved = set(self.names)
        todo = list(self.comps)
        if todo and self.ev.map_guesses:
            for c, d in zip(self.comps, self.comps[1:]):
                if c.sort != "B" or c.js != d.js or len(c.js) != 1 or c not in todo or d not in todo or c.init is None or d.init is None: continue
                y = P(c.js[0])
                for g in self.ev.map_guesses:
                    if PR.prove(iff(c.init, g[0](ZERO, y)), self.outer, 0, 3000) and PR.prove(eq(d.init, g[1](ZERO, y)), self.outer, 0, 3000):
                        for x, r in ((c, g[0](P(self.k), y)), (d, g[1](P(self.k), y))):
                            self.sol[x.name] = ((self.k,) + tuple(x.js), r); x.closed = r
                            self.unsolved.discard(x.name); todo.remove(x)
                        break
        self.solve_rest(todo, list(self.grow))

    def solve_rest(self, todo, gt=()):
        gt = list(gt)
        for g in gt:
            if g.one:
                # one element per iteration: the length is known at once
                self.sol[g.name] = ((self.k,), P(self.k)); self.unsolved.discard(g.name)
        with PR.use(self.ctx):
            progress = True
            while progress and (todo or gt):
                progress = False
                for c in list(todo):
                    try: r = self.try_comp(c)
                    except Unsupported: r = None
                    if r is not None:
                        params = (self.k,) + tuple(c.js)
                        self.sol[c.name] = (params, r)
                        c.closed = r
                        self.unsolved.discard(c.name)
                        todo.remove(c)
                        progress = True
                for g in list(gt):
                    if g.one and "last:" + g.name in self.sol:
                        # the element pushed by iteration i is the last element after it
                        kk = fresh("g")
                        t = g.extra.segs[0]
                        r = self.at(self.sol["last:" + g.name][1], P(kk) + 1)
                        self.gsol[g.name] = Seq(list(g.init.segs) + [Seg(P(self.k), kk, Num(r, t.e.ty))])
                        self.unsolved.discard(g.name); gt.remove(g); progress = True
                        continue
                    ex = self.apply(g.extra)
                    if apps_in_value(ex) & (self.unsolved - {g.name}): continue
                    if g.name in apps_in_value(ex): continue
                    kk = fresh("g")
                    if g.mode == "push":
                        segs = list(g.init.segs)
                        if len(ex.segs) == 0: q = g.init
                        elif len(ex.segs) == 1 and is_const(ex.segs[0].n) == 1 and not ex.segs[0].flat:
                            t = ex.segs[0]
                            e1 = vsubst(vsubst(t.e, {t.k: ZERO}), {self.k: P(kk)}); g1 = bsub(bsub(t.g, {t.k: ZERO}), {self.k: P(kk)})
                            q = Seq(segs + [Seg(P(self.k), kk, e1, g1)])
                        else:
                            q = Seq(segs + [Seg(P(self.k), kk, vsubst(ex, {self.k: P(kk)}), TRUE, True)])
                    else:
                        last = vsubst(ex, {self.k: P(self.k) - 1})
                        c = le(1, P(self.k))
                        q = vite(c, last, g.init)
                    self.gsol[g.name] = q
                    self.unsolved.discard(g.name)
                    gt.remove(g)
                    progress = True
        if gt: raise Unsupported("a growing vector depends on itself")
        if todo and os.environ.get("VC_TODO"):
            for c in todo: print("OPEN", c.name, c.sort, c.js, repr(self.applyp(c.upd) if isinstance(c.upd, Poly) else self.applyb(c.upd))[:3000], flush=True)
        if todo and self.sol and self.rerun is not None:
            f, self.rerun = self.rerun, None
            try: new = f()
            except Unsupported: new = {}
            if any(c.name in new and new[c.name] is not c.upd for c in todo):
                for c in todo: c.upd = new.get(c.name, c.upd)
                return self.solve_rest(todo)
        # substitute later solutions into earlier ones
        for nm in list(self.sol):
            ps, val = self.sol[nm]
            if T.apps_in(val) & self.names - self.unsolved:
                self.sol[nm] = (ps, self.applyp(val) if isinstance(val, Poly) else self.applyb(val))
        self.opaque = todo
        self.ev.unsolved |= {c.name for c in todo} | {g.name for g in gt}
        if todo and os.environ.get("VC_TODO"):
            for c in todo: print("UNSOLVED", c.name, c.sort, c.js, repr(self.applyp(c.upd) if isinstance(c.upd, Poly) else self.applyb(c.upd))[:3000], flush=True)
        if todo: self.houdini(todo)

    def at(self, x, kk):
        s = {self.k: P(kk)}
        return subst(x, s) if isinstance(x, Poly) else bsubst(x, s)

    def ssum(self, i, d):
        """the sum over the iterations before k, simplified knowing no more than k <= n"""
        with PR.use(self.wide): return T.ssum(i, P(self.k), d)

    def quant(self, mk, i, b):
        with PR.use(self.wide): return mk(i, P(self.k), b)

    def quant1(self, mk, i, b):
        """a quantifier over the earlier iterations; iterations determined by an equality are named directly"""
        if mk is T.forall: return bnot(self.quant1(T.exists, i, bnot(b)))
        with PR.use(self.wide.plus(le0(-P(i)), lt(P(i), P(self.k)))): b = PR.settled(b)
        ds = dnf(b)
        if ds is None: return self.quant(mk, i, b)
        out = []; rest = []
        for d in ds:
            if any(bnot(l) in d for l in d): continue
            for l in sorted(d, key=lambda l: l.id):
                t = T.solve_for(l.data[0], i) if l.kind == "eq" and i in l.fv and isint(l.data[0]) else None
                if t is not None and i not in t.fv:
                    out.append(band(le0(-t), lt(t, P(self.k)), *[bsub(x, {i: t}) for x in d])); break
            else: rest.append(band(*d))
        if rest: out.append(self.quant(mk, i, bor(*rest)))
        return bor(*out)

    def fold(self, op, i, e, init):
        with PR.use(self.wide): return T.fold(op, i, P(self.k), e, init)

    def try_comp(self, c):
        k = self.k
        f = self.applyb(c.upd) if c.sort == "B" else self.applyp(c.upd)
        c.f = f
        if c.sort == "B": return self.try_bool(c, f)
        if c.init is None: return self.last_pushed(c, f)
        x = c.x; x0 = c.init
        one = le(1, P(k))
        if f is x: return x0
        names = T.apps_in(f)
        if c.sort == "I" and not c.js and not names & self.unsolved - {c.name}:
            for g in self.ev.loop_values:
                if PR.prove(eq0(x0 - g(ZERO)), self.outer, 0, 300) and self.same(T.replace_app(f, the_atom(x), g(P(k))), g(P(k) + 1)): return g(P(k))
        if not (names & self.unsolved):
            return T.ite(one, self.at(f, P(k) - 1), x0)
        if c.sort not in ("R", "I"):
            return self.cond_assign(c, f)
        d = f - x
        if c.js and names & {c.name}:
            d = self.at_equal(c, d); f = x + d
        i = fresh("i")
        if self.free(d):
            return x0 + self.ssum(i, self.at(d, i))
        if names & self.unsolved - {c.name}: return None
        # pointwise writes through an injective index
        if c.js:
            r = self.pointwise(c, d)
            if r is not None: return r
        # running maximum / minimum
        if not c.js:
            r = self.maxfold(c, f)
            if r is not None: return r
        # product
        xa = the_atom(x)
        ok = all(sum(e for a, e in m if a is xa) == 1 for m in f.t) and f.t
        if ok:
            gq = mkpoly({tuple((a, e) for a, e in m if a is not xa): co for m, co in f.t.items()})
            if self.free(gq):
                with PR.use(self.ctx):
                    if decide(lt0(-gq)) is True or known_pos(gq):
                        return x0 * T.exp(self.ssum(i, self.at(T.ln(gq), i)))
        r = self.cond_assign(c, f)
        if r is not None: return r
        # log-sum-exp:  exp(X) accumulates
        try:
            ef = T.exp(f); ex = T.exp(x)
            d = ef - ex
            if self.free(d):
                return T.ln(T.exp(x0) + self.ssum(i, self.at(d, i)))
        except Unsupported: pass
        return None

    def last_pushed(self, c, f):
        """the last element of a vector that starts empty and receives one element per iteration"""
        k = self.k; x = c.x
        with PR.use(self.ctx.plus(le(1, P(k)))): f1 = T.rebuild(f)
        f0 = self.at(f, ZERO)
        if T.apps_in(f0) & self.unsolved or T.apps_in(f1) & (self.unsolved - {c.name}): return None
        r = None
        i = fresh("i")
        if c.name not in T.apps_in(f1):
            r = self.at(f1, P(k) - 1)
            if self.at(r, ONE) is not f0 and not self.same(self.at(r, ONE), f0): return None
        elif self.free(f1 - x):
            d = f1 - x
            if not self.same(f0, self.at(d, ZERO)): return None
            r = self.ssum(i, self.at(d, i))
        else:
            try:
                with PR.use(self.ctx.plus(le(1, P(k)))): d = T.exp(f1) - T.exp(x)
                if not self.free(d) or not self.same(T.exp(f0), self.at(d, ZERO)): return None
                r = T.ln(self.ssum(i, self.at(d, i)))
            except Unsupported: return None
        c.init = self.at(r, ZERO)     # never observed
        return r

    def cond_assign(self, c, f):
        """f = if cond { v } else { X } with cond and v free of X"""
        if c.js: return None
        lits = T.top_inds(f)
        cond = None; v = None
        def walk(f, lits, path):
            """list of (condition, value)"""
            if not lits or f is c.x: return [(band(*path), f)]
            l = lits[0]
            a = set_ind(f, l, True); b = set_ind(f, l, False)
            return walk(a, T.top_inds(a), path + [l]) + walk(b, T.top_inds(b), path + [bnot(l)])
        if len(lits) > 5 or not lits: return None
        alts = walk(f, lits, [])
        cond = bor(*[g for g, x in alts if x is not c.x])
        if not self.free(cond): return None
        val = None
        for g, x in alts:
            if x is c.x: continue
            if not self.free(x): return None
            val = x if val is None else T.ite(g, x, val)
        if val is None: return None
        if self.litmap:
            def go(b):
                y = self.litmap.get(b)
                if y is not None: return y
                if b.kind in ("and", "or"): return (band if b.kind == "and" else bor)(*[go(z) for z in b.data])
                return b
            cond = go(cond)
        L = self.last_index(cond)
        Lk = L(P(self.k))
        return T.ite(le0(-Lk), self.at(val, Lk), c.init)

    def last_index(self, cond):
        """L(kk): the last i < kk with cond(i), or -1"""
        key = cond
        if not hasattr(self, "lasts"): self.lasts = {}
        if key in self.lasts: return self.lasts[key]
        nm = "last!%d" % next(T._ctr)
        L = lambda kk: T.app(nm, tuple([P(b) for b in self.binders] + [P(kk)]), "I")
        def facts(kk):
            j = fresh("j")
            l = L(kk)
            return [le(-1, l), lt(l, kk), implies(le0(-l), self.at(cond, l)),
                    T.forall(j, P(kk), bor(le(P(j), l), bnot(self.at(cond, j)))),
                    eq(L(0), -1), implies(le(0, kk), eq(L(P(kk) + 1), T.ite(self.at(cond, P(kk)), P(kk), l)))]
        self.factfns.append(facts)
        self.lasts[key] = L
        return L

    def pointwise(self, c, d):
        """d = [j = idx(k)] (v - X): every location is written at most once (j one of the indices of the location)"""
        for pos in range(len(c.js)):
            r = self.pointwise_at(c, d, pos)
            if r is not None: return r
        return None

    def at_equal(self, c, d):
        """under a factor [j = e] every other factor has e for j"""
        for j in c.js:
            out = ZERO
            for m, co in d.t.items():
                l = [(a, T.solve_eq(a.data[0].data[0], j)) for a, e in m if a.kind == "ind" and a.data[0].kind == "eq" and j in a.fv]
                l = [(a, x) for a, x in l if x is not None and j not in x.fv]
                if not l: out = out + mkpoly({m: co}); continue
                w, idx = l[0]
                rest = mkpoly({tuple((a, e) for a, e in m if a is not w): co})
                out = out + P(w) * subst(rest, {j: idx})
            d = out
        return d

    def pointwise_at(self, c, d, pos):
        k = self.k
        j = c.js[pos]
        lits = None
        for m in d.t:
            s = [a.data[0] for a, e in m if a.kind == "ind" and a.data[0].kind == "eq" and j in a.fv and k in a.fv]
            if not s: return None
            lits = set(s) if lits is None else lits & set(s)
        if not lits: return None
        for l in lits:
            idx = T.solve_eq(l.data[0], j)
            if idx is None or j in idx.fv: continue
            lin = T._linear_in(idx, k)
            inj = False; off = None
            if lin is not None and abs(lin[0]) == 1: inj = True; off = lin
            else:
                pm = self.perm_index(idx)
                if pm is None: continue
                inj = True
            if not inj: continue
            # X(k, .., t, ..): not written before iteration k
            bad = []
            x0 = c.init
            nb = len(self.binders)
            def fa(a, tp):
                if a.kind == "app" and a.data[0] == c.name:
                    ts = a.data[1][nb + 1:]
                    t = ts[pos]
                    if a.data[1][nb] is not P(k): bad.append(a); return None
                    at0 = lambda: subst(x0, dict(zip(c.js, [tp(y) for y in ts])))
                    if t is P(j) or t is idx: return at0()
                    if off is not None:
                        step = off[0]
                        ahead = le(idx, t) if step > 0 else le(t, idx)
                        if decide(ahead) is True: return at0()
                    bad.append(a)
                return None
            d2 = T.transform(d, fa)
            if bad or not self.free(d2): continue
            if off is None:
                # perm(a k + b) = j  <=>  k = (inverse(j) - b) / a
                name, a, b, N = pm
                i = (T.app("inv:" + name, (P(j),), "I") - b) * a
                on = mkpoly({tuple((y, e) for y, e in m if not (y.kind == "ind" and y.data[0] is l)): co for m, co in d2.t.items()})
                on = subst(on, {k: i})
                return x0 + T.ind(band(le0(-i), lt(i, P(k)))) * on
            i = fresh("i")
            return x0 + self.ssum(i, self.at(d2, i))
        return None

    def perm_index(self, idx):
        """perm(a k + b): (perm, a, b, length)"""
        if len(idx.t) != 1: return None
        (m, co), = idx.t.items()
        if len(m) != 1 or co != 1 or m[0][1] != 1: return None
        a = m[0][0]
        if a.kind != "app" or a.data[0] not in T.perms: return None
        lin = T._linear_in(a.data[1][0], self.k)
        if lin is None or abs(lin[0]) != 1: return None
        return a.data[0], lin[0], lin[1], T.perms[a.data[0]]

    def maxfold(self, c, f):
        x = c.x
        lits = [l for l in T.top_inds(f) if l.kind in ("lt", "le")]
        i = fresh("i")
        for l in lits:
            p = l.data[0]
            xa = the_atom(x)
            co = p.t.get(((xa, 1),))
            ds = []
            if co is not None and abs(co) == 1: ds.append(x - scale(p, 1 / co))   # p = co (X - d)
            ft, ff = set_ind(f, l, True), set_ind(f, l, False)
            for d in ([ff] if ft is x else []) + ([ft] if ff is x else []):
                if self.free(d) and any(l is y or l is bnot(y) for y in (lt(x, d), le(x, d), lt(d, x), le(d, x))): ds.append(d)
            for d in ds:
                if not self.free(d): continue
                if f is T.vmax(x, d) or T.vmax(x, d) - f is ZERO or self.same(f, T.vmax(x, d)):
                    return self.extremum("max", c, l, d)
                if f is T.vmin(x, d) or T.vmin(x, d) - f is ZERO or self.same(f, T.vmin(x, d)):
                    return self.extremum("min", c, l, d)
        # the same under a condition: iterations that do not take part contribute the initial value
        for l in lits:
            p = l.data[0]
            xa = the_atom(x)
            co = p.t.get(((xa, 1),))
            if co is None or abs(co) != 1: continue
            d = x - scale(p, 1 / co)
            if not self.free(d): continue
            others = []
            def collect(f):
                for y in T.top_inds(f):
                    if y is not l and bnot(y) is not l and y not in others:
                        others.append(y); collect(set_ind(f, y, True)); collect(set_ind(f, y, False)); return
            collect(f)
            if not others or len(others) > 3 or not all(self.free(y) for y in others): continue
            for op, mx in (("max", T.vmax(x, d)), ("min", T.vmin(x, d))):
                g = FALSE; ok = True
                for vals in itertools.product((True, False), repeat=len(others)):
                    h = f
                    for y, b in zip(others, vals): h = set_ind(h, y, b)
                    if h is x: continue
                    if h is mx or h - mx is ZERO or self.same(h, mx): g = bor(g, band(*[y if b else bnot(y) for y, b in zip(others, vals)]))
                    else: ok = False; break
                if ok and g is not FALSE:
                    return self.fold(op, i, T.ite(self.at(g, i), self.at(d, i), c.init), c.init)
        return None

    def extremum(self, op, c, l, d):
        i = fresh("i")
        e = d
        if self.ev.loop_names:
            with PR.use(self.ctx): e = self.ev.loop_named(d, self.k)
        r = self.fold(op, i, self.at(e, i), c.init)
        if e is not d:
            # the comparison with the running extremum, in terms of the name
            up = lambda y, z: T.transform(y, lambda a, tp: z if a is the_atom(c.x) else None)
            with PR.use(self.ctx):
                for g, mk in ((lt, lambda: lt(r, e)), (le, lambda: le(r, e))):
                    self.litmap[up(g(c.x, d), r)] = mk()
                for g, mk in ((lt, lambda: lt(e, r)), (le, lambda: le(e, r))):
                    self.litmap[up(g(d, c.x), r)] = mk()
        return r

    def same(self, a, b):
        return PR.prove(eq0(a - b), self.ctx, 0, 1500)

    def try_bool(self, c, f):
        k = self.k; x = c.x
        one = le(1, P(k))
        if f is x: return c.init
        if self.free(f):
            return bor(band(one, self.at(f, P(k) - 1)), band(bnot(one), c.init))
        if c.js:
            # the same entry named by other indices (a condition says they are equal)
            g = T.transform(f, lambda a, tp: None, None, lambda b, tp: x if b.kind == "bapp" and b.data[0] == c.name and b is not x else None)
            if g is not f:
                if not PR.prove(iff(f, g), self.ctx, 0, 3000): return None
                f = g
        if T.apps_in(f) & self.unsolved - {c.name}: return None
        def setx(val):
            return T.transform(f, lambda a, tp: None, None, lambda b, tp: bconst(val) if b is x else None)
        ft, ff = setx(True), setx(False)
        i = fresh("i")
        if self.free(ft) and self.free(ff):
            if c.js and ff is not FALSE and ft is not TRUE:
                if PR.prove(ft, self.ctx, 0, 2000): ft = TRUE
                elif PR.prove(bnot(ff), self.ctx, 0, 2000): ff = FALSE
            quant = self.quant1 if c.js else self.quant
            if ff is FALSE: return band(c.init, quant(T.forall, i, self.at(ft, i)))
            if ft is TRUE: return bor(c.init, quant(T.exists, i, self.at(ff, i)))
            if c.js and len(c.js) == 1:
                # written where j = idx(k)
                j = c.js[0]
                for l in [b for b in lits_of(f) if b.kind == "eq" and j in b.fv and k in b.fv]:
                    idx = T.solve_for(l.data[0], j)
                    if idx is None or j in idx.fv: continue
                    on = T.transform(f, lambda a, tp: None, None, None)
                    fon = assume_lit(f, l, True); foff = assume_lit(f, l, False)
                    if foff is not x or not self.free(fon): continue
                    w = self.quant(T.exists, i, eq(P(j), self.at(idx, i)))
                    lin = T._linear_in(idx, k)
                    if lin is not None and abs(lin[0]) == 1:
                        kk = (P(j) - lin[1]) * lin[0]
                        inr = band(le0(-kk), lt(kk, P(k)))
                        return bor(band(inr, self.at(fon, kk)), band(bnot(inr), c.init))
            # general two-valued recurrence: X(k+1) = X ? ft : ff
            L = self.last_index(bnot(band(ft, bnot(ff))) if True else None)
            cond = bnot(band(ft, bnot(ff)))   # iterations that do not simply keep X (ft = ff there, unless negated)
            if PR.prove(bor(bnot(cond), iff(ft, ff)), self.ctx, 0, 1500):
                Lk = L(P(k))
                return bor(band(le0(-Lk), self.at(ft, Lk)), band(lt0(Lk), c.init))
        return None

    # ---- unsolved locations
    def houdini(self, todo):
        ev = self.ev
        cands = []
        for c in todo:
            if c.sort not in ("R", "I") or c.js or c.init is None: continue
            bounds = [const(0), const(1), c.init] + [P(b) for b in ev.loopinv]
            seen = set()
            for b in bounds:
                if b in seen or (T.apps_in(b) & self.names) or self.k in b.fv: continue
                seen.add(b)
                cands.append((c, "ge", b)); cands.append((c, "le", b))
        for c, b in getattr(ev, "loopinv_fns", []): pass
        def st(cd, val): return le(cd[2], val) if cd[1] == "ge" else le(val, cd[2])
        base = Ctx_of(ev)
        cands = [cd for cd in cands if PR.prove(st(cd, cd[0].init), self.outer, 0, 800)]
        changed = True
        while changed and cands:
            changed = False
            hyp = [st(cd, cd[0].x) for cd in cands]
            cx = self.ctx.plus(*hyp)
            for cd in list(cands):
                if not PR.prove(st(cd, cd[0].f if hasattr(cd[0], "f") else self.applyp(cd[0].upd)), cx, 0, 1500):
                    cands.remove(cd); changed = True
        for cd in cands:
            self.invs.append(lambda kk, cd=cd: st(cd, self.at(cd[0].x, kk)))

    def invariants(self):
        return [f(P(self.k)) for f in self.invs]

    def inv_at(self, kk): return [f(P(kk)) for f in self.invs]

    def facts(self, kk):
        r = []
        for f in self.factfns: r += f(P(kk))
        return r

    def global_facts(self, n):
        """the recurrences of the unsolved locations, for the iterations before n"""
        r = []
        for cond, L in getattr(self, "lasts", {}).items():
            i = fresh("i")
            r.append(T.forall(i, P(n), eq(L(P(i) + 1), T.ite(self.at(cond, P(i)), P(i), L(P(i))))))
        for c in self.opaque:
            i = fresh("i")
            x0 = self.at(c.x, ZERO)
            upd = c.f if hasattr(c, "f") else (self.applyb(c.upd) if c.sort == "B" else self.applyp(c.upd))
            eqn = (lambda a, b: iff(a, b)) if c.sort == "B" else (lambda a, b: eq(a, b)) if c.sort in ("R", "I") else eqo
            init = eqn(x0, c.init) if c.init is not None else TRUE
            step = eqn(self.at(c.x, P(i) + 1), self.at(upd, i))
            if c.js or c.init is None:
                continue
            r.append(init)
            r.append(T.forall(i, n, step))
        if self.invs:
            i = fresh("i")
            for f in self.invs: r.append(T.forall(i, P(n) + 1, f(P(i))))
        return r

    def inductive(self, after, leaves, cx):
        """closed(0) = initial value, body(closed(k)) = closed(k+1)"""
        out = []
        for c in self.comps:
            if c.name not in self.sol: continue
            params, val = self.sol[c.name]
            eqn = iff if c.sort == "B" else eq if c.sort in ("R", "I") else eqo
            z = self.at(val, ZERO)
            facts0 = self.facts(ZERO)
            c.init2 = c.init
            out.append(("initially " + self.label(c), implies(band(*[f for f in facts0 if f.kind != "forall"]), eqn(z, c.init))))
        comps2 = []; grow2 = []
        for lf in leaves:
            try: lf.collect(self.ev, lf.x, after(lf), lf.init, comps2, grow2, ())
            except Unsupported: continue
        sf = [f for f in self.facts(P(self.k)) + self.facts(P(self.k) + 1)]
        for c in comps2:
            if c.name not in self.sol: continue
            params, val = self.sol[c.name]
            eqn = iff if c.sort == "B" else eq if c.sort in ("R", "I") else eqo
            nxt = self.at(val, P(self.k) + 1)
            g = eqn(nxt, c.upd)
            if sf: g = bor(bnot(band(*sf)), g)
            out.append(("preserved " + self.label(c), g))
        return out

    def label(self, c): return "#%d" % ([x.name for x in self.comps].index(c.name) + 1)


def dnf(b, cap=24):
    """the disjuncts of b as sets of literals, or None when there are many"""
    if b.kind == "true": return [frozenset()]
    if b.kind == "false": return []
    if b.kind == "or":
        out = []
        for x in b.data:
            d = dnf(x, cap)
            if d is None: return None
            out += [y for y in d if y not in out]
            if len(out) > cap: return None
        return out
    if b.kind == "and":
        out = [frozenset()]
        for x in sorted(b.data, key=lambda x: x.kind == "or"):
            d = dnf(x, cap)
            if d is None: return None
            new = []
            for p in out:
                if any(q <= p for q in d): ps = [p]
                else: ps = [p | q for q in d if not any(bnot(l) in p for l in q)]
                for y in ps:
                    if not any(z <= y for z in new): new = [z for z in new if not y <= z] + [y]
            out = new
            if len(out) > cap: return None
        return out
    return [frozenset([b])]


def Ctx_of(ev): return ev.ctx


def lits_of(b, acc=None):
    acc = [] if acc is None else acc
    if b.kind in ("and", "or", "not"):
        for x in b.data: lits_of(x, acc)
    else: acc.append(b)
    return acc


def assume_lit(b, l, val):
    if b is l: return bconst(val)
    if bnot(b) is l: return bconst(not val)
    if b.kind == "and": return band(*[assume_lit(x, l, val) for x in b.data])
    if b.kind == "or": return bor(*[assume_lit(x, l, val) for x in b.data])
    if b.kind == "not": return bnot(assume_lit(b.data[0], l, val))
    return b


