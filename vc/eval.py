"""Symbolic evaluation of Rust function bodies: every path, every iteration, sequences of symbolic length.

The evaluator is the verification-condition generator: it turns a call of a real function (parsed on this run) into
symbolic values and side obligations (index in bounds, no unsigned underflow, assertions hold, panics unreachable,
definedness of / ln sqrt, inferred loop invariants preserved)."""
import itertools, sys
from fractions import Fraction
import terms as T
from terms import *
import prover as PR
from prover import Ctx, decide, prove
from values import *
from program import Program

sys.setrecursionlimit(20000)


class Diverge(Exception):
    """this path ended (its outcome is recorded in a frame)"""


class Panic(Diverge):
    pass


class Obl:
    def __init__(self, kind, goal, ctx, where, label=""):
        self.kind = kind; self.goal = goal; self.ctx = ctx; self.where = where; self.label = label


class Frame:
    def __init__(self, kind, pclen, label=None):
        self.kind = kind; self.pclen = pclen; self.label = label
        self.out = []      # (kind, relative path conditions, value, store, ctx)


INTS = {"usize", "u8", "u16", "u32", "u64", "u128"}
SINTS = {"i8", "i16", "i32", "i64", "i128", "isize"}
F64MAX = Fraction(int(sys.float_info.max))
TRANSPARENT = {"as_bytes", "into_bytes", "as_ref", "as_mut", "borrow", "borrow_mut", "clone", "cloned", "copied", "to_vec", "to_owned", "iter", "into_iter",
               "par_iter", "into_par_iter", "as_slice", "deref", "into_inner", "as_str", "by_ref", "into_boxed_slice", "as_mut_slice"}


EFFECTS = {"assign", "return", "break", "continue", "try", "for", "while", "loop"}


def effectless(e):
    """no assignment, exclusive borrow, mutating method or control transfer anywhere in the expression"""
    if isinstance(e, list): return all(effectless(x) for x in e)
    if not isinstance(e, dict): return True
    k = e.get("k")
    if k in EFFECTS or (k == "ref" and e.get("mut")): return False
    if k == "mcall":
        from builtins_rs import MUTATORS
        if e["m"] in MUTATORS - {"take", "next"}: return False
    if k == "macro" and e["name"] not in ("format",): return False
    if k == "call": return False
    return all(effectless(x) for x in e.values())


class Ev:
    def __init__(self, prog, hyps=()):
        self.prog = prog
        self.st = {}
        self._ctx = Ctx(hyps)
        self.pc = []
        self.frames = []
        self.obls = []
        self.ghost = []
        self.binders = []
        self.cells = itertools.count(1)
        self.fnstack = []
        self.used = {}            # functions evaluated
        self.stubs = {}           # (type or None, name) -> python function(ev, args)
        self.quiet = 0            # > 0: obligations are not recorded
        self.collecting = set()   # cells that receive the results of a `map`
        self.pref_trait = {}
        self.assumed = set()
        self.depth = 0
        self.unsolved = set()    # values of loop variables known only through their recurrence
        self.loop_values = []    # functions of the iteration count, tried as values of integer loop variables
        self.loop_names = []     # (function, name): values of loop iterations the contract has a name for
        self.map_guesses = []    # (presence, value) of a map after k iterations, as functions of (k, key): candidates that the loop-invariant obligations must confirm
        self.exits = []           # iteration counts at which loops are left early
        self.loopinv = []         # candidate bounds for loop invariants (polys)

    # ---------------------------------------------------------------- context
    @property
    def ctx(self): return self._ctx

    @ctx.setter
    def ctx(self, c):
        self._ctx = c
        PR.cur[0] = c; T.ctx_id[0] = c.id

    def activate(self):
        self.ctx = self._ctx

    def assume(self, *bs):
        bs = [b for b in bs if b is not TRUE]
        if bs: self.ctx = self._ctx.plus(*bs)

    def obl(self, kind, goal, label=""):
        if goal is TRUE: return
        if not self.quiet:
            self.obls.append(Obl(kind, goal, self._ctx, self.fnstack[-1].qual() if self.fnstack else "", label))
        self.assume(goal)

    def skolem(self, name, sort):
        n = "%s!%d" % (name, next(T._ctr))
        if self.binders: return T.app(n, [P(b) for b in self.binders], sort)
        return P(T.mk_atom("var", (n,), sort))

    # ---------------------------------------------------------------- store
    def new(self, v):
        c = next(self.cells)
        self.st[c] = v
        return c

    def rd(self, v):
        n = 0
        while isinstance(v, Ref):
            v = self.read(v); n += 1
            if n > 20: raise Unsupported("reference cycle")
        return v

    def read(self, r):
        if r.cell not in self.st: raise Unsupported("dangling reference")
        v = self.st[r.cell]
        for i, step in enumerate(r.path):
            if isinstance(v, Ref): return self.read(Ref(v.cell, v.path + r.path[i:]))
            v = self.step(v, step)
        return v

    def step(self, v, step):
        k = step[0]
        if k == "f":
            if isinstance(v, Struct):
                if step[1] not in v.fs: raise Unsupported("field %s of %s" % (step[1], v.name[0]))
                return v.fs[step[1]]
            if isinstance(v, Tup): return v.xs[int(step[1])]
            if isinstance(v, Rng): return v.lo if step[1] == "start" else v.hi
            if isinstance(v, Cases): return self.overcases(v, lambda x: self.step(x, step))
            raise Unsupported("field %s of %s" % (step[1], type(v).__name__))
        if k == "i":
            if isinstance(v, MapV): return vsubst(v.val, {v.k: step[1]})
            return seq_get(v, step[1])
        if k == "fi": return vsubst(v.segs[0].e, {v.segs[0].k: step[1]})
        if k == "sl": return subseq(v, step[1], step[2])
        if k == "some":
            return v.v
        if k == "p": return v.xs[step[1]]
        raise Unsupported("path step")

    def overcases(self, v, f):
        r = None
        for g, x in reversed(v.alts):
            y = f(x)
            r = y if r is None else vite(g, y, r)
        return r

    def write(self, r, val):
        if r.cell not in self.st: raise Unsupported("dangling reference")
        root = self.st[r.cell]
        if isinstance(root, Ref) and r.path:
            return self.write(Ref(root.cell, root.path + r.path), val)
        self.st[r.cell] = self.upd(root, r.path, val)

    def upd(self, v, path, val):
        if not path: return val
        s, rest = path[0], path[1:]
        if isinstance(v, Ref):
            self.write(Ref(v.cell, v.path + tuple(path)), val)
            return v
        k = s[0]
        if k == "f":
            if isinstance(v, Struct):
                fs = dict(v.fs)
                if s[1] not in fs: raise Unsupported("field %s" % s[1])
                fs[s[1]] = self.upd(fs[s[1]], rest, val)
                return Struct(v.name, fs)
            if isinstance(v, Tup):
                xs = list(v.xs); xs[int(s[1])] = self.upd(xs[int(s[1])], rest, val)
                return Tup(xs)
            if isinstance(v, Rng):
                lo, hi = v.lo, v.hi
                if s[1] == "start": lo = val
                else: hi = val
                return Rng(lo, hi, v.incl)
            raise Unsupported("field write into %s" % type(v).__name__)
        if k == "i":
            if isinstance(v, MapV):
                old = vsubst(v.val, {v.k: s[1]})
                nv = self.upd(old, rest, val)
                hit = eq(P(v.k), s[1])
                # a reference to a value only exists for a key that is present
                return MapV(v.k, v.pres, vite(hit, nv, v.val), zero=v.zero)
            old = seq_get(v, s[1]) if rest else None
            return seq_set(v, s[1], self.upd(old, rest, val) if rest else val)
        if k == "fi":
            sg = v.segs[0]; k2 = fresh("k")
            old = vsubst(sg.e, {sg.k: s[1]})
            nv = self.upd(old, rest, val) if rest else val
            return Seq([Seg(sg.n, k2, vite(eq(P(k2), s[1]), nv, vsubst(sg.e, {sg.k: P(k2)})), bsub(sg.g, {sg.k: P(k2)}), sg.flat)])
        if k == "sl":
            old = subseq(v, s[1], s[2])
            nv = self.upd(old, rest, val)
            if old is v: return nv
            sg = as_single(v); k2 = fresh("k")
            inr = band(le(s[1], P(k2)), lt(P(k2), s[1] + s[2]))
            return Seq([Seg(sg.n, k2, vite(inr, seq_get(nv, P(k2) - s[1]), vsubst(sg.e, {sg.k: P(k2)})))])
        if k == "some": return Opt(v.c, self.upd(v.v, rest, val))
        if k == "p":
            xs = list(v.xs); xs[s[1]] = self.upd(xs[s[1]], rest, val)
            return Enum(v.name, v.var, xs)
        raise Unsupported("path write")

    # ---------------------------------------------------------------- branching
    def branch(self, c, f, g):
        d = decide(c)
        if d is True: return f()
        if d is False: return g()
        st0, ctx0, pc0 = self.st, self.ctx, list(self.pc)
        res = []
        gh0 = len(self.ghost)
        for cond, h in ((c, f), (bnot(c), g)):
            self.st = dict(st0); self.ctx = ctx0.plus(cond); self.pc = pc0 + [cond]
            try:
                v = h()
                res.append((cond, v, self.st, self.ctx, self.pc))
            except Diverge:
                pass
        if not res:
            self.st, self.pc = st0, pc0; self.ctx = ctx0
            raise Diverge()
        if len(res) == 1:
            _, v, self.st, ctx, self.pc = res[0]
            self.ctx = ctx
            return v
        (c1, v1, s1, x1, p1), (c2, v2, s2, x2, p2) = res
        self.ctx = ctx0
        r1, r2 = band(*p1[len(pc0):]), band(*p2[len(pc0):])
        alive = bor(r1, r2)
        self.pc = pc0 + ([alive] if alive is not TRUE else [])
        if alive is not TRUE: self.assume(alive)
        facts = []
        for cond, x in ((c1, x1), (c2, x2)):
            for h in x.hyps:
                if h.id not in ctx0.idset and h is not cond: facts.append(bor(bnot(cond), h))
        self.assume(*facts)
        self.st = self.merge_st(c1, s1, s2)
        return vite(c1, v1, v2)

    def merge_st(self, c, s1, s2):
        out = {}
        for k, a in s1.items():
            b = s2.get(k)
            if b is None: out[k] = a
            elif a is b: out[k] = a
            else: out[k] = vite(c, a, b)
        for k, b in s2.items():
            if k not in out: out[k] = b
        return out

    def leave(self, frame, kind, value):
        frame.out.append((kind, list(self.pc[frame.pclen:]), value, self.st, self.ctx))
        raise Diverge()

    def merge_outs(self, outs, pc0, ctx0):
        """merge outcomes [(kind, relpc, value, st, ctx)] into one value, store and context"""
        outs = list(outs)
        v, st = outs[-1][2], outs[-1][3]
        for kind, pc, val, s, x in reversed(outs[:-1]):
            c = band(*pc)
            v = vite(c, val, v); st = self.merge_st(c, s, st)
        facts = []
        common = set.intersection(*[{h.id for h in o[4].hyps} for o in outs]) if len(outs) > 1 else set()
        for h in outs[0][4].hyps:
            if h.id in common and h.id not in ctx0.idset: facts.append(h)
        for kind, pc, val, s, x in outs:
            c = band(*pc)
            ids = common | {h.id for p in pc for h in ([p] if p.kind != "and" else p.data)} | {p.id for p in pc}
            for h in x.hyps:
                if h.id not in ctx0.idset and h.id not in ids: facts.append(bor(bnot(c), h) if len(outs) > 1 else h)
        return v, st, facts

    # ---------------------------------------------------------------- calls
    def interior(self, v):
        """a struct with a RefCell / Cell / Mutex in one of its fields"""
        if not (isinstance(v, Struct) and isinstance(v.name, tuple)): return False
        sd = self.prog.struct(v.name[0], v.name[1])
        def has(t):
            if isinstance(t, dict): return any(has(x) for x in t.values())
            if isinstance(t, (list, tuple)): return any(has(x) for x in t)
            return t in ("RefCell", "Cell", "Mutex", "RwLock", "OnceCell")
        return bool(sd) and any(has(t) for _, t in sd[1]["fields"])

    def call_fn(self, fn, args, selfv=None):
        if fn.body is None: raise Unsupported("%s has no body" % fn.qual())
        key = (fn.tname or fn.trait_def, fn.name)
        if self.depth > 60: raise Unsupported("recursion")
        if sum(1 for f in self.fnstack if f is fn) > 1: raise Unsupported("recursive call of %s" % fn.qual())
        self.used[fn.qual()] = fn
        env = {}
        ps = list(fn.params)
        vals = list(args)
        if ps and ps[0]["k"] == "self":
            if selfv is None: selfv = vals.pop(0)
            sp = ps.pop(0)
            if sp["ref"] and sp["mut"]:
                if not isinstance(selfv, Ref):
                    selfv = Ref(self.new(selfv))
                env["self"] = self.new(selfv)
            elif sp["ref"] and isinstance(selfv, Ref) and self.interior(self.rd(selfv)): env["self"] = self.new(selfv)     # `&self` that can change through a RefCell
            else:
                env["self"] = self.new(self.rd(selfv))
        if len(ps) != len(vals): raise Unsupported("argument count of %s" % fn.qual())
        fr = Frame("fn", len(self.pc))
        ctx0 = self.ctx; pc0 = list(self.pc)
        old = self.fnstack, self.frames
        self.fnstack = self.fnstack + [fn]; self.frames = self.frames + [fr]
        self.depth += 1
        outer_env = getattr(self, "env", None)
        self.env = [env]
        try:
            alive = True
            try:
                for p, v in zip(ps, vals):
                    if not (p["ty"]["k"] == "tref" and p["ty"]["mut"]) and isinstance(v, Ref) and not self.is_mut_generic(p): v = self.rd(v)
                    self.bind(p["p"], self.named(v))
                r = self.block(fn.body, want=fn.ret)
                if fn.ret is not None: r = self.coerce(r, fn.ret, fn)
                r = self.named(r)
                fr.out.append(("return", list(self.pc[fr.pclen:]), r, self.st, self.ctx))
            except Diverge:
                pass
            outs = fr.out
            if not outs:
                raise Diverge()
            pcs = [band(*o[1]) for o in outs]
            v, st, facts = self.merge_outs(outs, pc0, ctx0)
            self.st = st
            alive = bor(*pcs)
            self.pc = pc0
            self.ctx = ctx0
            if alive is not TRUE:
                if decide(alive) is not True: self.pc = pc0 + [alive]; self.assume(alive)
            self.assume(*facts)
            return v
        finally:
            self.fnstack, self.frames = old
            self.env = outer_env
            self.depth -= 1

    def is_mut_generic(self, p):
        # generic parameters (iterators of &mut, closures) keep references
        return p["ty"]["k"] == "tother" or (p["ty"]["k"] == "tpath" and len(p["ty"]["path"]) == 1 and len(p["ty"]["path"][0][0]) == 1)

    def call_value(self, f, args):
        f = self.rd(f)
        if isinstance(f, FnV): return f.f(args)
        if isinstance(f, Clo):
            fr = Frame("fn", len(self.pc))
            ctx0 = self.ctx; pc0 = list(self.pc)
            oldenv, oldfr, oldst = self.env, self.frames, self.fnstack
            self.env = f.env + [{}]
            self.frames = self.frames + [fr]; self.fnstack = self.fnstack + ([f.fn] if f.fn else [])
            self.depth += 1
            if self.depth > 80: raise Unsupported("recursion")
            try:
                try:
                    for p, v in zip(f.ps, args): self.bind(p, v)
                    r = self.expr(f.body)
                    fr.out.append(("return", list(self.pc[fr.pclen:]), r, self.st, self.ctx))
                except Diverge: pass
                if not fr.out: raise Diverge()
                if len(fr.out) == 1 and not fr.out[0][1]:
                    _, _, v, self.st, ctx = fr.out[0]
                    self.ctx = ctx
                    return v
                pcs = [band(*o[1]) for o in fr.out]
                v, st, facts = self.merge_outs(fr.out, pc0, ctx0)
                self.st = st; self.pc = pc0; self.ctx = ctx0
                alive = bor(*pcs)
                if alive is not TRUE and decide(alive) is not True: self.pc = pc0 + [alive]; self.assume(alive)
                self.assume(*facts)
                return v
            finally:
                self.env, self.frames, self.fnstack = oldenv, oldfr, oldst
                self.depth -= 1
        raise Unsupported("call of %s" % type(f).__name__)

    def coerce(self, v, ty, fn=None):
        """type-directed touch-ups (integer literals, generics)"""
        if ty is None: return v
        if isinstance(v, Num) and v.ty is None:
            t = self.tyname(ty)
            if t in INTS: return Num(v.p, "u")
            if t in SINTS: return Num(v.p, "i")
        return v

    def tyname(self, ty):
        while ty and ty["k"] == "tref": ty = ty["ty"]
        if ty and ty["k"] == "tpath": return ty["path"][-1][0]
        return None

    # ---------------------------------------------------------------- scopes and patterns
    def lookup(self, name):
        for s in reversed(self.env):
            if name in s: return s[name]
        return None

    def bind(self, p, v):
        c, bs = self.match(p, v)
        if c is not TRUE and decide(c) is not True: self.obl("pattern", c, "irrefutable pattern")
        for n, x in bs: self.env[-1][n] = self.new(x)

    def match(self, p, v):
        """(condition, [(name, value)])"""
        k = p["k"]
        if k == "pident":
            n = p["name"]
            # unit variants and constants written as plain identifiers
            if n[0].isupper() and p["sub"] is None:
                r = self.unit_variant(n)
                if r is not None: return self.match_variant(n, [], v)
            if p["sub"] is not None:
                c, bs = self.match(p["sub"], v)
                return c, bs + [(n, v)]
            return TRUE, [(n, v)]
        if k in ("pwild", "prest"): return TRUE, []
        if k == "pref": return self.match(p["p"], self.rd(v))
        if k == "ptype": return self.match(p["p"], v)
        if k == "ptuple":
            if isinstance(v, Ref):
                inner = self.rd(v)
                if not isinstance(inner, Tup): raise Unsupported("tuple pattern on %s" % type(inner).__name__)
                xs = [x if isinstance(x, Ref) else Ref(v.cell, v.path + (("f", str(i)),)) for i, x in enumerate(inner.xs)]
            elif isinstance(v, Tup): xs = list(v.xs)
            elif isinstance(v, Unit) and not p["ps"]: xs = []
            else: raise Unsupported("tuple pattern on %s" % type(v).__name__)
            return self.match_list(p["ps"], xs)
        if k == "pts": return self.match_variant(p["path"][-1][0], p["ps"], v, p["path"])
        if k == "ppath": return self.match_variant(p["path"][-1][0], [], v, p["path"])
        if k == "pstruct":
            w = self.rd(v)
            if isinstance(w, Struct):
                c = TRUE; bs = []
                for n, q in p["fs"]:
                    x = Ref(v.cell, v.path + (("f", n),)) if isinstance(v, Ref) else w.fs[n]
                    c2, b2 = self.match(q, x); c = band(c, c2); bs += b2
                return c, bs
            raise Unsupported("struct pattern on %s" % type(w).__name__)
        if k == "plit":
            return self.equal(self.rd(v), self.expr(p["e"])), []
        if k == "por":
            c = FALSE
            for q in p["ps"]:
                c2, b2 = self.match(q, v)
                if b2: raise Unsupported("or-pattern with bindings")
                c = bor(c, c2)
            return c, []
        if k == "prange":
            w = self.rd(v); lo = self.expr(p["lo"]) if p["lo"] else None; hi = self.expr(p["hi"]) if p["hi"] else None
            c = TRUE
            if lo is not None: c = band(c, le(lo.p, w.p))
            if hi is not None: c = band(c, le(w.p, hi.p) if p["incl"] else lt(w.p, hi.p))
            return c, []
        raise Unsupported("pattern %s" % k)

    def match_list(self, ps, xs):
        c = TRUE; bs = []
        if any(q["k"] == "prest" for q in ps):
            i = [j for j, q in enumerate(ps) if q["k"] == "prest"][0]
            tail = len(ps) - i - 1
            pairs = list(zip(ps[:i], xs[:i])) + list(zip(ps[i + 1:], xs[len(xs) - tail:]))
        else:
            if len(ps) != len(xs): raise Unsupported("pattern arity")
            pairs = list(zip(ps, xs))
        for q, x in pairs:
            c2, b2 = self.match(q, x); c = band(c, c2); bs += b2
        return c, bs

    def unit_variant(self, n):
        if n in ("None", "Less", "Equal", "Greater"): return True
        return None

    def match_variant(self, name, ps, v, path=None):
        w = self.rd(v)
        isref = isinstance(v, Ref)
        if isinstance(w, Opt):
            if name == "None": return bnot(w.c), []
            if name == "Some":
                if w.v is None: return FALSE, [(n, UNDEF) for q in ps for n in pat_names(q)]
                x = Ref(v.cell, v.path + (("some",),)) if isref and not isinstance(w.v, Ref) else w.v
                c, bs = self.match(ps[0], x)
                return band(w.c, c), bs
            raise Unsupported("pattern %s on Option" % name)
        if isinstance(w, OrdV):
            m = {"Less": w.lt, "Equal": w.eq, "Greater": bnot(bor(w.lt, w.eq))}
            if name in m: return m[name], []
        if isinstance(w, Enum):
            if w.var != name: return FALSE, [(n, UNDEF) for q in ps for n in pat_names(q)]
            xs = [Ref(v.cell, v.path + (("p", i),)) if isref and not isinstance(x, Ref) else x for i, x in enumerate(w.xs)]
            return self.match_list(ps, xs)
        if isinstance(w, Cases):
            conds = FALSE; merged = {}
            for g, x in w.alts:
                c, bs = self.match_variant(name, ps, x, path)
                gc = band(g, c)
                if gc is FALSE:
                    for n, y in bs: merged.setdefault(n, UNDEF)
                    continue
                for n, y in bs: merged[n] = vite(gc, y, merged[n]) if n in merged and not isinstance(merged[n], Undef) else y
                conds = bor(conds, gc)
            return conds, list(merged.items())
        if isinstance(w, Struct) and (w.name[0] == name or name == "Self"):
            xs = []
            for i in range(len(w.fs)):
                x = w.fs[str(i)]
                xs.append(Ref(v.cell, v.path + (("f", str(i)),)) if isref and not isinstance(x, Ref) else x)
            return self.match_list(ps, xs)
        raise Unsupported("pattern %s on %s" % (name, type(w).__name__))

    # ---------------------------------------------------------------- blocks and statements
    def block(self, b, want=None):
        if b["k"] != "block": return self.expr(b, want)
        self.env = self.env + [{}]
        try:
            r = UNIT
            for i, s in enumerate(b["ss"]):
                last = i == len(b["ss"]) - 1
                r = self.stmt(s, want if last else None)
            return r
        finally:
            self.env = self.env[:-1]

    def stmt(self, s, want=None):
        k = s["k"]
        if k == "let":
            ty = s["ty"]
            if s["e"] is None:
                for n in pat_names(s["p"]): self.env[-1][n] = self.new(UNDEF)
                return UNIT
            st0, ctx0, env0, bi0 = dict(self.st), self._ctx, self.env, self.binders
            try:
                v = self.expr(s["e"], ty)
                if ty is not None: v = self.coerce(v, ty)
            except Unsupported as x:
                # an expression without effects (a message, say) is only a problem where its value is used
                if s["else"] is not None or not effectless(s["e"]): raise
                self.st, self.ctx, self.env, self.binders = st0, ctx0, env0, bi0
                v = Poison(str(x))
                for n in pat_names(s["p"]): self.env[-1][n] = self.new(v)
                return UNIT
            if s["else"] is not None:
                c, bs = self.match(s["p"], v)
                env = self.env
                def no():
                    self.block(s["else"])
                    raise Unsupported("let-else falls through")
                self.branch(c, lambda: UNIT, no)
                for n, x in bs: self.env[-1][n] = self.new(x)
                return UNIT
            # a binding shadows: evaluate first
            self.bind_let(s["p"], v)
            return UNIT
        if k == "expr":
            v = self.expr(s["e"], want if not s["semi"] else None)
            return UNIT if s["semi"] else v
        if k == "items": return UNIT
        raise Unsupported("statement %s" % k)

    def bind_let(self, p, v):
        # closures must see the scope as it was when they were created
        self.env = self.env[:-1] + [dict(self.env[-1])]
        self.bind(p, self.named(v))

    defs = {}
    defseqs = ()

    def named_seq(self, v):
        if len(v.segs) != 1 or v.segs[0].flat or v.segs[0].g is not TRUE: return v
        s = v.segs[0]
        k = fresh("k")
        def elem(e):
            if isinstance(e, Tup):
                xs = [elem(x) for x in e.xs]
                return Tup(xs) if any(x is not y for x, y in zip(xs, e.xs)) else e
            if not isinstance(e, Num) or e.ty != "f": return e
            for n, f, sym in self.defseqs:
                if s.n is not n and not (decide(eq(s.n, n)) is True): continue
                x = vsubst(e, {s.k: P(k)}).p
                if len(x.t) == 1:
                    (m, c), = x.t.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app": continue     # already as simple as a name
                y = f(P(k))
                if x is y or prove(eq(x, y), self.ctx.plus(le(0, P(k)), lt(P(k), n)), 8, 800):
                    return Num(sym(P(s.k)), "f")
            return e
        e = elem(s.e)
        return v if e is s.e else Seq([Seg(s.n, s.k, e)])

    def loop_named(self, p, k):
        """a value of iteration k that the contract has a name for"""
        if k not in p.fv or any(x.startswith("X") for x in T.apps_in(p)): return p
        for f, sym in self.loop_names:
            y = f(P(k))
            if p is y: return sym(P(k))
            if T.apps_in(p) == T.apps_in(y) and prove(eq(p, y), self.ctx, 8, 600): return sym(P(k))
        return p

    def named(self, v):
        """a value that is provably one the contract has a name for is referred to by that name"""
        if self.defseqs and isinstance(v, Seq): return self.named_seq(v)
        if self.loop_names and self.binders and isinstance(v, Num) and v.ty == "f" and (len(v.p.t) > 1 or any(a.kind == "abs" for m in v.p.t for a, _ in m)):
            v = Num(self.loop_named(v.p, self.binders[-1]), "f")
        if not self.defs or not isinstance(v, Num) or v.ty != "f": return v
        s = self.defs.get(v.p)
        if s is not None: return Num(s, "f")
        if any(x.data[0].startswith("#") for x in v.p.fv) or not any(a.kind in ("sum", "ln", "exp", "sqrt", "par") for m in v.p.t for a, _ in m): return v
        for q, s in self.defs.items():
            if isinstance(q, Poly) and prove(eq(v.p, q), self.ctx, 9, 500):
                self.defs[v.p] = s
                return Num(s, "f")
        return v

    # ---------------------------------------------------------------- places
    def place(self, e):
        """Ref of a place expression, or None"""
        k = e["k"]
        if k == "path" and len(e["path"]) == 1:
            c = self.lookup(e["path"][0][0])
            return Ref(c) if c is not None else None
        if k == "field":
            p = self.place_deref(e["e"])
            if p is None: return None
            return Ref(p.cell, p.path + (("f", e["f"]),))
        if k == "index":
            p = self.place_deref(e["e"])
            if p is None: return None
            base = self.rd(p)
            i = self.rd(self.expr(e["i"]))
            if isinstance(base, Seq):
                if isinstance(i, Rng):
                    lo, n = self.slice_bounds(base, i)
                    return Ref(p.cell, p.path + (("sl", lo, n),))
                if isinstance(i, Num):
                    self.obl("index", band(le(0, i.p), lt(i.p, seq_len(base))), "index in bounds")
                    return Ref(p.cell, p.path + (("i", i.p),))
            return None
        if k == "un" and e["op"] == "*":
            v = self.expr(e["e"])
            if isinstance(v, Ref):
                w = self.read(v)
                return w if isinstance(w, Ref) else v
            return self.place(e["e"])
        if k == "mcall" and e["m"] in ("as_mut", "borrow_mut", "as_mut_slice", "as_ref", "borrow", "by_ref", "as_deref_mut"):
            return self.place_deref(e["r"])
        if k == "mcall" and e["m"] in ("unwrap", "expect"):
            p = self.place_deref(e["r"])
            if p is not None:
                w = self.rd(p)
                if isinstance(w, Opt):
                    self.obl("unwrap", w.c, "value present")
                    if isinstance(w.v, Ref): return w.v
                    return Ref(p.cell, p.path + (("some",),))
                if not isinstance(w, (Enum, Cases)): return p
            v = self.expr(e)
            return v if isinstance(v, Ref) else Ref(self.new(v))
        if k == "mcall" and e["m"] in ("get_mut", "last_mut", "first_mut", "entry", "or_insert"):
            v = self.expr(e)
            return v if isinstance(v, Ref) else Ref(self.new(v))
        return None

    def place_deref(self, e):
        p = self.place(e)
        if p is None:
            if e["k"] in ("mcall", "call"):
                v = self.expr(e)
                return v if isinstance(v, Ref) else Ref(self.new(v))
            return None
        n = 0
        while True:
            try: v = self.read(p)
            except Unsupported: return p
            if isinstance(v, Ref): p = v
            else: return p
            n += 1
            if n > 20: raise Unsupported("reference cycle")

    def slice_bounds(self, base, r):
        n = seq_len(base)
        lo = self.rd(r.lo).p if r.lo is not None else ZERO
        hi = n if r.hi is None else self.rd(r.hi).p + (1 if r.incl else 0)
        if r.lo is not None or r.hi is not None:
            self.obl("slice", band(le(0, lo), le(lo, hi), le(hi, n)), "slice in bounds")
        return lo, hi - lo

    # ---------------------------------------------------------------- expressions
    def expr(self, e, want=None):
        m = getattr(self, "e_" + e["k"], None)
        if m is None: raise Unsupported("expression %s (line %s)" % (e["k"], e.get("l")))
        if e["k"] in ("mcall", "call", "block", "if", "match", "path", "macro", "vecrep", "array", "tuple"): return m(e, want)
        return m(e)

    def val(self, e, want=None):
        return self.rd(self.expr(e, want))

    def e_int(self, e):
        s = e["suf"]
        ty = "u" if s in INTS else "i" if s in SINTS else "f" if s.startswith("f") else None
        return Num(const(int(e["v"])), ty)

    def e_float(self, e): return Num(const(Fraction(e["v"].replace("_", ""))), "f")
    def e_bool(self, e): return Boo(bconst(e["v"]))
    def e_str(self, e): return Str(P(T.mk_atom("var", ('"%s"' % e["v"],), "S")))
    def e_char(self, e): return Str(P(T.mk_atom("var", ("'%s'" % e["v"],), "S")))
    def e_block(self, e, want=None): return self.block(e, want)

    def e_tuple(self, e, want=None):
        if not e["es"]: return UNIT
        ws = want["ts"] if want and want["k"] == "ttuple" and len(want["ts"]) == len(e["es"]) else [None] * len(e["es"])
        return Tup([self.expr(x, w) for x, w in zip(e["es"], ws)])

    def e_array(self, e, want=None):
        return Seq([Seg(ONE, fresh("k"), self.keep(self.expr(x))) for x in e["es"]])

    def keep(self, v):
        return v

    def e_vecrep(self, e, want=None):
        v = self.val(e["e"]); n = self.val(e["n"])
        if isinstance(v, Seq) and is_const(n.p) is not None and 0 <= is_const(n.p) <= 8:
            # a few vectors, which need not stay alike
            return Seq([Seg(ONE, fresh("k"), v) for _ in range(int(is_const(n.p)))])
        return Seq([Seg(n.p, fresh("k"), v)])

    def e_path(self, e, want=None):
        path = e["path"]
        if len(path) == 1:
            n = path[0][0]
            c = self.lookup(n)
            if c is not None:
                v = self.st[c]
                if isinstance(v, Undef): raise Unsupported("use of an uninitialised or moved variable %s" % n)
                return v
            if n == "None": return NONE
            if n == "usize": pass
        names = [x[0] for x in path]
        full = "::".join(names)
        if names[-2:] == ["f64", "MAX"]: return Num(const(F64MAX), "f")
        if names[-2:] == ["f64", "MIN"]: return Num(const(-F64MAX), "f")
        if names[-2:] == ["f64", "EPSILON"]: return Num(const(Fraction(1, 2 ** 52)), "f")
        if names[-2:] == ["f64", "INFINITY"] or names[-2:] == ["f64", "NEG_INFINITY"]: return Num(const(F64MAX if names[-1] == "INFINITY" else -F64MAX), "f")
        if len(names) >= 2 and names[-2] in INTS | SINTS and names[-1] in ("MAX", "MIN"):
            return Num(T.var("%s::%s" % (names[-2], names[-1]), "I"), "u" if names[-2] in INTS else "i")
        if names[-1] in ("PI",):
            pi = T.var("PI", "R")
            self.assume(lt(const(Fraction(314, 100)), pi), lt(pi, const(Fraction(315, 100))))
            return Num(pi, "f")
        if names[-2:] == ["Ordering", "Less"] or names == ["Less"]: return OrdV(TRUE, FALSE)
        if names[-2:] == ["Ordering", "Equal"] or names == ["Equal"]: return OrdV(FALSE, TRUE)
        if names[-2:] == ["Ordering", "Greater"] or names == ["Greater"]: return OrdV(FALSE, FALSE)
        if len(names) >= 2 and names[-2] == "f64" and names[-1] in F64FN:
            return FnV(lambda args, m=names[-1]: self.num_method(m, [self.rd(a) for a in args]))
        file = self.fnstack[-1].file if self.fnstack else None
        # enum variants
        if len(names) >= 2:
            t = self.tykey(names[-2])
            if t is not None:
                en = self.prog.enum(t[0], t[1]) if t[0] in self.prog.enums else None
                if en is not None:
                    vs = dict(en[1]["variants"])
                    if names[-1] in vs:
                        if not vs[names[-1]]: return Enum(t, names[-1])
                        return FnV(lambda args, t=t, v=names[-1]: Enum(t, v, args))
                for f, it in self.prog.consts.get(names[-1], []):
                    if it["ctx"] and f == t[1]: return self.const_value(f, it)
        c = self.prog.const(names[-1], file) if self.prog.consts.get(names[-1]) else None
        if c is not None: return self.const_value(*c)
        if names[-1] == "Some": return FnV(lambda args: Opt(TRUE, args[0]))
        if names[-1] == "Ok": return FnV(lambda args: Enum("Result", "Ok", args))
        # functions as values
        return FnV(lambda args, e=e: self.call_path(e, list(args)))

    def const_value(self, f, it):
        old = self.fnstack, getattr(self, "env", None)
        dummy = type("F", (), {"file": f, "qual": lambda s: "const", "tname": None, "trait_def": None, "self_ty": None})()
        self.fnstack = self.fnstack + [dummy]; self.env = [{}]
        try: return self.coerce(self.expr(it["e"]), it["ty"])
        finally: self.fnstack, self.env = old

    def tykey(self, n):
        """the type a path segment names, as seen from the current function"""
        fn = self.fnstack[-1] if self.fnstack else None
        if n == "Self":
            for f in reversed(self.fnstack):
                if f.tname and f.self_ty is not None: return self.prog.type_key(f.tname, f.file)
            return None
        if fn is None: return None
        al = self.prog.aliases.get(n)
        if al:
            a = self.prog.pick(al, n, fn.file)
            tn = self.tyname(a[1]["ty"])
            if tn and tn != n: return self.prog.type_key(tn, a[0])
        return self.prog.type_key(n, fn.file)

    def e_ref(self, e):
        if e["mut"]:
            p = self.place(e["e"])
            if p is not None:
                v = self.read(p) if not any(s[0] in ("i", "sl") for s in p.path) else None
                if isinstance(v, Ref): return v
                return p
            return Ref(self.new(self.expr(e["e"])))
        v = self.expr(e["e"])
        return v if isinstance(v, Ref) and False else self.rd(v)

    def e_un(self, e):
        if e["op"] == "*":
            return self.rd(self.expr(e["e"]))
        v = self.val(e["e"])
        if e["op"] == "-":
            if isinstance(v, Num): return Num(-v.p, v.ty if v.ty != "u" else "i")
        if e["op"] == "!":
            if isinstance(v, Boo): return Boo(bnot(v.b))
        raise Unsupported("operator %s" % e["op"])

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.val(e["a"]).b
            ctx0 = self.ctx
            self.ctx = ctx0.plus(a if op == "&&" else bnot(a))
            n0 = len(self.ctx.hyps)
            try: b = self.val(e["b"]).b
            finally: self.ctx = ctx0
            return Boo(band(a, b) if op == "&&" else bor(a, b))
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            return self.compound(e, op[:-1])
        a = self.val(e["a"]); b = self.val(e["b"])
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            ty = a.ty or b.ty
            p, q = a.p, b.p
            if op == "+": return Num(p + q, ty)
            if op == "*": return Num(p * q, ty)
            if op == "-":
                if ty == "u": self.obl("underflow", le(q, p), "unsigned subtraction")
                return Num(p - q, ty)
            if op == "/":
                if ty == "f":
                    self.nonzero(q)
                    return Num(p * T.inv(q), "f")
                self.obl("div", bnot(eq(q, 0)), "integer division by zero")
                if ty == "i": return Num(T.trunc(p * T.inv(q)), ty)
                return Num(T.floor(p * T.inv(q)), ty)
            if op == "%":
                if ty == "f": raise Unsupported("float remainder")
                self.obl("div", bnot(eq(q, 0)), "remainder by zero")
                return Num(p - q * (T.trunc(p * T.inv(q)) if ty == "i" else T.floor(p * T.inv(q))), ty)
            if op == "==": return Boo(eq(p, q))
            if op == "!=": return Boo(bnot(eq(p, q)))
            if op == "<": return Boo(lt(p, q))
            if op == "<=": return Boo(le(p, q))
            if op == ">": return Boo(lt(q, p))
            if op == ">=": return Boo(le(q, p))
            raise Unsupported("operator %s" % op)
        if isinstance(a, Boo) and isinstance(b, Boo):
            if op == "==": return Boo(iff(a.b, b.b))
            if op in ("!=", "^"): return Boo(bnot(iff(a.b, b.b)))
            if op == "&": return Boo(band(a.b, b.b))
            if op == "|": return Boo(bor(a.b, b.b))
        if op in ("==", "!="):
            r = self.equal(a, b)
            return Boo(r if op == "==" else bnot(r))
        opn = {"+": "add", "-": "sub", "*": "mul", "/": "div"}.get(op)
        if isinstance(a, Struct):
            if opn:
                m = self.prog.method(a.name, opn)
                if isinstance(m, list): m = m[0]
                if m is not None: return self.call_fn(m, [b], selfv=a)
            if op in ("<", "<=", ">", ">="):
                o = self.compare(a, b)
                return Boo({"<": o.lt, "<=": bor(o.lt, o.eq), ">": bnot(bor(o.lt, o.eq)), ">=": bnot(o.lt)}[op])
        if isinstance(a, Str) or isinstance(b, Str): return Str(T.app("str" + op, (a.p if isinstance(a, Str) else ZERO, b.p if isinstance(b, Str) else ZERO), "S"))
        raise Unsupported("operator %s on %s and %s" % (op, type(a).__name__, type(b).__name__))

    def nonzero(self, q):
        if is_const(q) is None:
            # atoms under the division must not vanish
            g = bnot(eq(q, 0))
            if decide(g) is not True: self.obl("defined", g, "division by zero")
        elif is_const(q) == 0: self.obl("defined", FALSE, "division by zero"); raise Unsupported("division by the constant zero")

    def equal(self, a, b):
        """condition a == b"""
        a, b = self.rd(a), self.rd(b)
        if isinstance(a, Num) and isinstance(b, Num): return eq(a.p, b.p)
        if isinstance(a, Boo) and isinstance(b, Boo): return iff(a.b, b.b)
        if isinstance(a, Str) and isinstance(b, Str): return str_eq(a.p, b.p)
        if isinstance(a, Opq) and isinstance(b, Opq): return eqo(a.p, b.p)
        if isinstance(a, Tup) and isinstance(b, Tup): return band(*[self.equal(x, y) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, Unit) and isinstance(b, Unit): return TRUE
        if isinstance(a, Struct) and isinstance(a.name, tuple) and isinstance(b, (Struct, Num)):
            m = self.prog.method(a.name, "eq")
            if m is not None:
                m = [x for x in (m if isinstance(m, list) else [m]) if (self.tyname(x.params[1]["ty"]) in ("Self", a.name[0])) == isinstance(b, Struct)]
                if len(m) == 1: return self.call_fn(m[0], [b], selfv=a).b
        if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name:
            return band(*[self.equal(a.fs[n], b.fs[n]) for n in a.fs])
        if isinstance(a, Struct) and isinstance(b, Num) and list(a.fs) == ["0"]: return self.equal(a.fs["0"], b)
        if isinstance(a, Enum) and isinstance(b, Enum):
            if a.name != b.name or a.var != b.var: return FALSE
            return band(*[self.equal(x, y) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, Cases): return bor(*[band(g, self.equal(x, b)) for g, x in a.alts])
        if isinstance(b, Cases): return bor(*[band(g, self.equal(a, x)) for g, x in b.alts])
        if isinstance(a, Opt) and isinstance(b, Opt):
            both = TRUE if a.v is None or b.v is None else self.equal(a.v, b.v)
            return bor(band(bnot(a.c), bnot(b.c)), band(a.c, b.c, both))
        if isinstance(a, OrdV) and isinstance(b, OrdV):
            return band(iff(a.lt, b.lt), iff(a.eq, b.eq))
        if isinstance(a, Seq) and isinstance(b, Seq):
            sa, sb = as_single(a), as_single(b)
            if sa is None or sb is None: return eq(seq_len(a), seq_len(b))
            k = fresh("k")
            return band(eq(sa.n, sb.n), T.forall(k, sa.n, self.equal(vsubst(sa.e, {sa.k: P(k)}), vsubst(sb.e, {sb.k: P(k)}))))
        raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))

    def compare(self, a, b):
        """OrdV of two values"""
        a, b = self.rd(a), self.rd(b)
        if isinstance(a, Num) and isinstance(b, Num): return OrdV(lt(a.p, b.p), eq(a.p, b.p))
        if isinstance(a, Struct) and isinstance(b, (Struct, Num)):
            m = self.prog.method(a.name, "partial_cmp")
            if isinstance(m, list):
                m = [x for x in m if (self.tyname(x.params[1]["ty"]) == "Self") == isinstance(b, Struct)]
                m = m[0] if m else None
            if m is not None:
                r = self.call_fn(m, [b], selfv=a)
                return r.v if isinstance(r, Opt) else r
        if isinstance(a, Tup) and isinstance(b, Tup):
            o = OrdV(FALSE, TRUE)
            for x, y in zip(a.xs, b.xs):
                p = self.compare(x, y)
                o = OrdV(bor(o.lt, band(o.eq, p.lt)), band(o.eq, p.eq))
            return o
        raise Unsupported("comparison of %s and %s" % (type(a).__name__, type(b).__name__))

    def compound(self, e, op):
        b = self.val(e["b"])
        p = self.place_deref(e["a"])
        if p is None: raise Unsupported("compound assignment target")
        a = self.rd(p)
        self.write(p, self.binop(op, a, b))
        return UNIT

    def e_assign(self, e):
        if e["a"]["k"] == "path" and e["a"]["path"][0][0] == "_":
            self.expr(e["b"]); return UNIT
        if e["a"]["k"] == "tuple":
            v = self.rd(self.expr(e["b"]))
            for x, y in zip(e["a"]["es"], v.xs): self.assign_to(x, y)
            return UNIT
        v = self.expr(e["b"], self.assigned_type(e["a"]) if e["b"]["k"] == "mcall" else None)
        self.assign_to(e["a"], v)
        return UNIT

    def assigned_type(self, a):
        """the declared type of the assigned struct field, when it can be seen"""
        if a["k"] != "field": return None
        try:
            p = self.place(a["e"])
            b = self.read(p) if p is not None else None
            while isinstance(b, Ref): b = self.rd(b)
            if isinstance(b, Struct):
                sd = self.prog.struct(b.name[0], b.name[1])
                return dict(sd[1]["fields"]).get(a["f"]) if sd is not None else None
        except Unsupported: pass
        return None

    def assign_to(self, target, v):
        if target["k"] == "path" and target["path"][0][0] == "_": return
        if target["k"] == "un" and target["op"] == "*":
            p = self.place_deref(target)
            if p is None:
                p = self.place_deref(target["e"])
            v = self.rd(v)
        else:
            p = self.place(target)
        if p is None: raise Unsupported("assignment target %s" % target["k"])
        if not isinstance(v, Ref):
            old = None
            try: old = self.read(p)
            except Unsupported: pass
            if isinstance(v, Num) and v.ty is None and isinstance(old, Num): v = Num(v.p, old.ty)
        self.write(p, v)

    def e_field(self, e):
        p = self.place(e)
        if p is not None: return self.read(p)
        v = self.val(e["e"])
        return self.step(v, ("f", e["f"]))

    def e_index(self, e):
        p = self.place(e)
        if p is not None: return self.read(p)
        b = self.val(e["e"]); i = self.val(e["i"])
        return self.index(b, i)

    def index(self, b, i):
        if isinstance(b, Seq):
            if isinstance(i, Rng):
                lo, n = self.slice_bounds(b, i)
                if i.lo is None and i.hi is None: return b
                return subseq(b, lo, n)
            if isinstance(i, Num):
                self.obl("index", band(le(0, i.p), lt(i.p, seq_len(b))), "index in bounds")
                return seq_get(b, i.p)
        st = self.stubs.get((b.name[0] if isinstance(b, (Struct, Enum)) else b.sort if isinstance(b, Opq) else None, "index"))
        if st and isinstance(b, (Struct, Enum, Opq)): return self.rd(st(self, [b, i]))
        if isinstance(b, (Struct, Enum)):
            m = self.prog.method(b.name, "index")
            if isinstance(m, list): m = m[0]
            if m is not None: return self.call_fn(m, [i], selfv=b)
        if isinstance(b, Cases): return self.overcases_eff(b, lambda x: self.index(x, i))
        if isinstance(b, MapV): return self.map_method(None, b, "index", [i])
        raise Unsupported("index into %s" % type(b).__name__)

    def overcases_eff(self, v, f):
        """evaluate f for every alternative under its condition"""
        alts = list(v.alts)
        def go(i):
            if i == len(alts) - 1: return f(alts[i][1])
            return self.branch(alts[i][0], lambda: f(alts[i][1]), lambda: go(i + 1))
        return go(0)

    def e_cast(self, e):
        v = self.val(e["e"])
        t = self.tyname(e["ty"])
        if isinstance(v, Boo): return Num(T.ind(v.b), "u" if t in INTS else "i")
        if not isinstance(v, Num):
            if isinstance(v, Enum): raise Unsupported("cast of an enum")
            raise Unsupported("cast")
        if t in ("f64", "f32"): return Num(v.p, "f")
        if t in INTS:
            if v.ty == "f": return Num(T.ite(le0(v.p), ZERO, T.floor(v.p)), "u")
            if v.ty == "i": self.obl("cast", le(0, v.p), "non-negative")
            return Num(v.p, "u")
        if t in SINTS:
            if v.ty == "f": return Num(T.trunc(v.p), "i")
            return Num(v.p, "i")
        raise Unsupported("cast to %s" % t)

    def e_range(self, e):
        return Rng(self.val(e["lo"]) if e["lo"] else None, self.val(e["hi"]) if e["hi"] else None, e["incl"])

    def e_struct(self, e):
        n = e["path"][-1][0]
        t = self.tykey(n)
        if t is None: raise Unsupported("struct %s" % n)
        fs = {}
        sd = self.prog.struct(t[0], t[1])
        tys = dict(sd[1]["fields"]) if sd is not None else {}
        for f, x in e["fs"]: fs[f] = self.rd_own(self.expr(x, tys.get(f)))
        if e["rest"] is not None:
            r = self.val(e["rest"])
            for f, x in r.fs.items(): fs.setdefault(f, x)
        # the declared order, so that equal values have equal field maps
        if sd is not None: fs = {f: self.coerce(fs[f], ty) for f, ty in sd[1]["fields"] if f in fs}
        return Struct(t, fs)

    def rd_own(self, v):
        return self.rd(v) if isinstance(v, Ref) else v

    def cond(self, e):
        """(condition, bindings) of an if/while condition, with let chains"""
        if e["k"] == "letc":
            p = self.place(e["e"]) if e["e"]["k"] in ("path", "field", "mcall") else None
            v = None
            if p is not None:
                try:
                    x = self.read(p)
                    v = x if isinstance(x, Ref) else (p if self.wants_ref(e["p"]) else x)
                except Unsupported: v = None
            if v is None: v = self.expr(e["e"])
            return self.match(e["p"], v)
        if e["k"] == "bin" and e["op"] == "&&":
            c1, b1 = self.cond(e["a"])
            ctx0 = self.ctx; env0 = self.env
            self.ctx = ctx0.plus(c1)
            if b1:
                self.env = self.env + [{n: self.new(x) for n, x in b1}]
            try: c2, b2 = self.cond(e["b"])
            finally: self.ctx = ctx0; self.env = env0
            return band(c1, c2), b1 + b2
        return self.val(e).b, []

    def wants_ref(self, p):
        if p["k"] == "pident": return p["byref"] and p["mut"]
        if p["k"] == "pref": return False
        return any(self.wants_ref(q) for q in p.get("ps", []))

    def e_if(self, e, want=None):
        c, bs = self.cond(e["c"])
        def then():
            self.env = self.env + [{n: self.new(x) for n, x in bs}]
            try: return self.block(e["t"], want)
            finally: self.env = self.env[:-1]
        def els():
            if e["e"] is None: return UNIT
            return self.expr(e["e"], want)
        return self.branch(c, then, els)

    def e_letc(self, e):
        c, bs = self.cond(e)
        return Boo(c)

    def e_matches(self, e):
        v = self.expr(e["e"])
        c, bs = self.match(e["p"], v)
        if e["guard"] is not None:
            env0 = self.env
            self.env = self.env + [{n: self.new(x) for n, x in bs}]
            try: c = band(c, self.val(e["guard"]).b)
            finally: self.env = env0
        return Boo(c)

    def e_match(self, e, want=None):
        p = self.place(e["e"]) if e["e"]["k"] in ("path", "field") else None
        v = None
        if p is not None:
            x = self.read(p)
            needref = any(self.wants_ref(a["p"]) for a in e["arms"])
            v = x if isinstance(x, Ref) or not needref else p
        if v is None: v = self.expr(e["e"])
        arms = e["arms"]
        def go(i):
            if i == len(arms):
                self.obl("match", FALSE, "exhaustive match")
                raise Panic()
            a = arms[i]
            c, bs = self.match(a["p"], v)
            if c is FALSE: return go(i + 1)
            env0 = self.env
            if a["guard"] is not None:
                ctx0 = self.ctx
                self.ctx = ctx0.plus(c)
                self.env = self.env + [{n: self.new(x) for n, x in bs}]
                try: c = band(c, self.val(a["guard"]).b)
                finally: self.ctx = ctx0; self.env = env0
            def arm():
                self.env = self.env + [{n: self.new(x) for n, x in bs}]
                try: return self.expr(a["e"], want)
                finally: self.env = self.env[:-1]
            if i == len(arms) - 1 and (a["p"]["k"] == "pwild" or decide(c) is True): return arm()
            if c is TRUE: return arm()
            return self.branch(c, arm, lambda: go(i + 1))
        return go(0)

    def e_closure(self, e):
        return Clo(e["ps"], e["e"], list(self.env), self.fnstack[-1] if self.fnstack else None)

    def e_return(self, e):
        fr = [f for f in self.frames if f.kind == "fn"][-1]
        v = self.expr(e["e"], self.fnstack[-1].ret if hasattr(self.fnstack[-1], "ret") else None) if e["e"] is not None else UNIT
        self.leave(fr, "return", v)

    def e_break(self, e):
        fr = self.loop_frame(e["label"])
        v = self.expr(e["e"]) if e["e"] is not None else UNIT
        self.leave(fr, "break", v)

    def e_continue(self, e):
        self.leave(self.loop_frame(e["label"]), "continue", UNIT)

    def loop_frame(self, label):
        for f in reversed(self.frames):
            if f.kind == "loop" and (label is None or f.label == label): return f
            if f.kind == "fn": break
        raise Unsupported("break outside of a loop")

    def e_try(self, e):
        v = self.val(e["e"])
        fr = [f for f in self.frames if f.kind == "fn"][-1]
        if isinstance(v, Opt):
            def no(): self.leave(fr, "return", NONE)
            self.branch(v.c, lambda: UNIT, no)
            return v.v
        if isinstance(v, Enum) and v.name == "Result":
            if v.var == "Ok": return v.xs[0]
            self.leave(fr, "return", v)
        raise Unsupported("? on %s" % type(v).__name__)

    def formatted(self, args):
        """the text of a template whose placeholders show plain numbers and strings (an uninterpreted function of them)"""
        if not args or args[0]["k"] != "str": return None
        t = args[0]["v"]; out = ""; xs = []; pos = 0; i = 0
        while i < len(t):
            ch = t[i]
            if t[i:i + 2] in ("{{", "}}"): out += t[i:i + 2]; i += 2; continue
            if ch != "{": out += ch; i += 1; continue
            j = t.index("}", i); body = t[i + 1:j]; i = j + 1
            name, _, spec = body.partition(":")
            if "$" in spec: return None
            out += "{:%s}" % spec if spec else "{}"
            if name == "":
                pos += 1
                if pos >= len(args): return None
                v = self.val(args[pos])
            elif name.isdigit():
                if int(name) + 1 >= len(args): return None
                v = self.val(args[int(name) + 1])
            else:
                c = self.lookup(name)
                if c is None: return None
                v = self.rd(self.st[c])
            if not isinstance(v, (Num, Str)): return None
            xs.append(v.p)
        return Str(T.app("fmt:" + out, tuple(xs), "S"))

    def e_macro(self, e, want=None):
        n = e["name"]; args = e["args"]
        if n in ("println", "eprintln", "print", "eprint", "write", "writeln", "debug_assert", "dbg"): return UNIT if n not in ("write", "writeln") else Enum("Result", "Ok", [UNIT])
        if n == "format":
            x = self.formatted(args)
            return x if x is not None else Str(P(T.mk_atom("var", ("fmt!%d" % next(T._ctr),), "S")))
        if n == "assert":
            c = self.val(args[0]).b
            self.obl("assert", c, "assertion holds")
            return UNIT
        if n in ("assert_eq", "assert_ne"):
            a, b = self.val(args[0]), self.val(args[1])
            c = self.equal(a, b)
            self.obl("assert", c if n == "assert_eq" else bnot(c), "assertion holds")
            return UNIT
        if n in ("panic", "unreachable", "todo", "unimplemented"):
            self.obl("panic", FALSE, "panic is unreachable")
            raise Panic()
        raise Unsupported("macro %s" % n)

    # ---------------------------------------------------------------- calls
    def e_call(self, e, want=None):
        f = e["f"]
        if f["k"] in ("path", "qpath"):
            if f["k"] == "path" and len(f["path"]) == 1 and self.lookup(f["path"][0][0]) is not None:
                fv_ = self.st[self.lookup(f["path"][0][0])]
                return self.call_value(fv_, [self.expr(a) for a in e["args"]])
            names = [x[0] for x in f["path"]]
            if names[-1] == "swap" and len(e["args"]) == 2:
                a, b = self.expr(e["args"][0]), self.expr(e["args"][1])
                if not (isinstance(a, Ref) and isinstance(b, Ref)): raise Unsupported("swap")
                x, y = self.read(a), self.read(b)
                self.write(a, y); self.write(b, x)
                return UNIT
            if names[-1] in ("take", "replace") and (len(names) == 1 or names[-2] == "mem"):
                a = self.expr(e["args"][0])
                if not isinstance(a, Ref): raise Unsupported("mem::%s" % names[-1])
                old = self.read(a)
                if names[-1] == "replace": self.write(a, self.expr(e["args"][1]))
                else: self.write(a, self.default_like(old))
                return old
            ws = self.payloads(f, want)
            return self.call_path(f, [self.expr(a, w) for a, w in zip(e["args"], ws + [None] * len(e["args"]))], want)
        return self.call_value(self.expr(f), [self.expr(a) for a in e["args"]])

    def payloads(self, f, want):
        """the types expected of the arguments of a variant or tuple-struct constructor, where known"""
        if f["k"] != "path": return []
        names = [x[0] for x in f["path"]]
        n = names[-1]; q = names[-2] if len(names) > 1 else None
        if not n[0].isupper(): return []
        if n == "Some" and q is None and want and self.tyname(want) == "Option":
            g = want["path"][-1][1]
            return list(g) if g else []
        try: t = self.tykey(q if q else n)
        except Unsupported: return []
        if t is None: return []
        if q and t[0] in self.prog.enums:
            en = self.prog.enum(t[0], t[1])
            fs = dict(en[1]["variants"]).get(n) if en is not None else None
        elif not q and t[0] in self.prog.structs:
            sd = self.prog.struct(t[0], t[1]); fs = sd[1]["fields"] if sd is not None else None
        else: fs = None
        return [ty for _, ty in fs] if fs else []

    def into(self, v, want):
        """x.into(): the crate's From impl for the type of x and the expected type; identity and numeric widening otherwise"""
        tn = self.tyname(want) if want else None
        cands = []
        if isinstance(v, Opq) and v.sort in self.prog.enums or isinstance(v, (Struct, Enum)) and isinstance(v.name, tuple):
            here = self.prog.type_key(v.sort, self.fnstack[-1].file) if isinstance(v, Opq) else v.name
            if tn == here[0]: return v
            for u, ms in sorted(self.prog.methods.items()):
                for m in ms.get("from", []):
                    if m.trait != "From" or not m.params or m.params[0]["k"] != "param": continue
                    pt = self.tyname(m.params[0]["ty"])
                    try: k = self.prog.type_key(pt, m.file) if pt else None
                    except Unsupported: k = None
                    if k == here: cands.append(m)
            if tn and any(m.tname == tn for m in cands): cands = [m for m in cands if m.tname == tn]
            if len(cands) > 1: raise Unsupported("ambiguous conversion of %s" % (v.name,))
        elif isinstance(v, Num) and tn in self.prog.structs:
            t = self.tykey(tn)
            for m in self.prog.methods.get(tn, {}).get("from", []):
                if m.trait == "From" and m.params and m.params[0]["k"] == "param" and self.prog.owner(m) == t:
                    pt = self.tyname(m.params[0]["ty"])
                    if pt in ("T", "f64") and v.ty == "f" or pt == "T" or pt in INTS and v.ty in ("u", None) or pt in SINTS and v.ty in ("i", None): cands.append(m)
            if len(cands) > 1: raise Unsupported("ambiguous conversion into %s" % tn)
        if not cands: return v
        st = self.stubs.get((cands[0].tname, "from"))
        if st is not None: return st(self, [v])
        return self.call_fn(cands[0], [v])

    def default_like(self, v):
        if isinstance(v, Seq): return empty()
        if isinstance(v, Num): return Num(ZERO, v.ty)
        if isinstance(v, Opt): return NONE
        if isinstance(v, Boo): return Boo(FALSE)
        raise Unsupported("Default of %s" % type(v).__name__)

    def call_path(self, f, args, want=None):
        if f["k"] == "qpath":
            tn = self.tyname(f["self"]); names = [tn, f["path"][-1][0]]
            trait = f["path"][-2][0] if len(f["path"]) > 1 else None
        else:
            names = [x[0] for x in f["path"]]; trait = None
        n = names[-1]; q = names[-2] if len(names) > 1 else None
        if n == "Some": return Opt(TRUE, args[0])
        if n in ("Ok", "Err"): return Enum("Result", n, args)
        if q == "ControlFlow": return Enum("ControlFlow", n, args)
        if q in ("Rc", "RefCell", "Box", "Arc", "Cell") and n == "new": return args[0]
        if q in ("Rc", "RefCell") and n in ("clone",): return self.rd(args[0])
        if q in ("Rc", "Arc") and n == "try_unwrap": return Enum("Result", "Ok", [self.rd(args[0])])
        if q in ("Vec", "VecDeque") and n in ("new", "with_capacity"): return empty()
        if q == "Vec" and n == "from": return self.rd(args[0])
        if q == "String" and n in ("new", "from"): return args[0] if args else Str(P(T.mk_atom("var", ('""',), "S")))
        if n == "repeat" and q == "iter": return Seq([Seg(None, fresh("k"), self.rd(args[0]))])
        if n == "once" and q == "iter": return single(args[0])
        if n == "empty" and q == "iter": return empty()
        if q == "FixedBitSet" and n == "with_capacity":
            return Seq([Seg(self.rd(args[0]).p, fresh("k"), Boo(FALSE))])
        if q in ("f64",) and n in F64FN: return self.num_method(n, [self.rd(a) for a in args])
        if q in ("f64",) and n == "from": return Num(self.rd(args[0]).p, "f")
        if q in INTS | SINTS and n in ("min", "max", "pow", "abs"): return self.num_method(n, [self.rd(a) for a in args])
        if q in ("cmp",) and n in ("min", "max"): return self.num_method(n, [self.rd(a) for a in args])
        if q == "mem" and n in ("drop",) or n == "drop": return UNIT
        if q in ("HashMap", "BTreeMap", "LabelToWeight") and n in ("new", "with_capacity", "default"):
            k = fresh("key")
            g = want["path"][-1][1] if want is not None and want["k"] == "tpath" and self.tyname(want) in ("HashMap", "BTreeMap") else f["path"][0][1] if f["k"] == "path" and len(f["path"]) == 2 else None
            if q == "LabelToWeight" or g and len(g) > 1 and self.tyname(g[1]) == "f64": return MapV(k, FALSE, Num(ZERO, "f"), zero=True)
            return MapV(k, FALSE, UNDEF)
        if q in ("HashSet", "BTreeSet") and n in ("new", "with_capacity", "default"): return MapV(fresh("key"), FALSE, UNIT)
        if q in ("Instant", "Duration"): return Opq("Time", self.skolem("time", "Time"))
        stub = self.stubs.get((q, n)) or (self.stubs.get((None, n)) if q is None or (q and q[0].islower()) else None)
        if stub is not None: return stub(self, args)
        file = self.fnstack[-1].file if self.fnstack else None
        if q is not None and (q == "Self" or q[0].isupper()):
            # trait-qualified call:  Classifier::predict(h, ..)
            if q in self.prog.traitfns and n in self.prog.traitfns[q]:
                return self.method_value(args[0], n, args[1:], trait=q)
            t = self.tykey(q)
            if t is not None:
                if t[0] in self.prog.enums:
                    en = self.prog.enum(t[0], t[1])
                    if en is not None and n in dict(en[1]["variants"]): return Enum(t, n, [self.rd_own(a) for a in args])
                st = self.stubs.get((t[0], n))
                if st is not None: return st(self, args)
                m = self.prog.method(t, n, trait)
                if isinstance(m, list): m = self.pick_overload(m, args)
                if m is not None:
                    if m.params and m.params[0]["k"] == "self": return self.call_fn(m, args[1:], selfv=args[0])
                    return self.call_fn(m, args)
                if n == "default": raise Unsupported("Default::default of %s" % q)
            raise Unsupported("%s::%s" % (q, n))
        # tuple struct constructor
        if n == "Self" or n[0].isupper():
            t = self.tykey(n)
            if t is not None:
                if t[0] in self.prog.structs:
                    return Struct(t, {str(i): self.rd_own(a) for i, a in enumerate(args)})
            raise Unsupported("constructor %s" % n)
        fn = self.prog.free_fn(n, file, q if q not in (None, "super", "self", "crate") else None)
        if fn is None: raise Unsupported("function %s" % "::".join(names))
        return self.call_fn(fn, args)

    def pick_overload(self, ms, args):
        """From<T> impls and the like: choose by the argument"""
        a = self.rd(args[-1])
        for m in ms:
            t = self.tyname(m.params[-1]["ty"]) if m.params and m.params[-1]["k"] == "param" else None
            if isinstance(a, (Struct, Enum)) and a.name[0] == t: return m
            if isinstance(a, Num) and t in ("f64", "usize", "T"): return m
        return ms[0]

    # method calls
    def e_mcall(self, e, want=None):
        m = e["m"]; args = e["args"]
        import builtins_rs as BR
        return BR.mcall(self, e, m, want)

    def method_value(self, recv, name, args, trait=None):
        """user method on a value"""
        v = self.rd(recv)
        if isinstance(v, (Struct, Enum)) and isinstance(v.name, tuple):
            st = self.stubs.get((v.name[0], name))
            if st is not None: return st(self, [recv] + list(args))
            tr = trait or self.pref_trait.get((v.name[0], name))
            m = self.prog.method(v.name, name, tr)
            if isinstance(m, list): m = self.pick_overload(m, args)
            if m is not None: return self.call_fn(m, args, selfv=recv)
            return None
        if isinstance(v, Opq):
            st = self.stubs.get((v.sort, name))
            if st is not None: return st(self, [recv] + list(args))
            tr = {"H": "Classifier", "HR": "Regressor", "L": "LossFunction"}.get(v.sort)
            d = self.prog.traitfns.get(tr, {}).get(name)
            if d is not None and d.body is not None: return self.call_fn(d, args, selfv=recv)
            return None
        if isinstance(v, Cases):
            if all(isinstance(x, (Struct, Enum)) and isinstance(x.name, tuple) for _, x in v.alts):
                return self.overcases_eff(v, lambda x: self.method_value(x, name, args, trait))
        return None

    # ---------------------------------------------------------------- iteration
    def under(self, k, n, g, f):
        """evaluate f for a generic index k < n with guard g; new facts are exported universally"""
        ctx0 = self.ctx
        rng = [le(0, P(k))] + ([lt(P(k), n)] if n is not None else [])
        self.ctx = ctx0.plus(*rng).plus(g)
        base = self.ctx
        self.binders = self.binders + [k]
        st0, pc0 = dict(self.st), self.pc
        try:
            self.pc = list(pc0)
            r = f()
            extra = self.pc[len(pc0):]
            new = [h for h in self.ctx.hyps if h.id not in base.idset]
        finally:
            self.binders = self.binders[:-1]
            self.ctx = ctx0
            self.pc = pc0
        for c, v in st0.items():
            if self.st.get(c) is not v and not same(self.st.get(c), v):
                self.st = st0
                raise Unsupported("side effect inside a pure iterator adaptor")
        self.st = st0
        if n is not None and new:
            out = []
            for h in new:
                if k in h.fv: out.append(T.forall(k, n, implies(g, h)))
                elif g is TRUE: out.append(bor(le0(n), h))
            self.assume(*out)
        return r

    def seq_map(self, q, f):
        out = []
        for s in q.segs:
            c = is_const(s.n) if s.n is not None else None
            k, g, e = open_seg(s)
            if s.flat:
                r = self.under(k, s.n, g, lambda: self.seq_map(e, f))
                out.append(Seg(s.n, k, r, g, True)); continue
            if c == 1 and g is TRUE:
                r = f(vsubst(s.e, {s.k: ZERO}))
                out.append(Seg(ONE, k, r)); continue
            r = self.under(k, s.n, g, lambda: f(e))
            out.append(Seg(s.n, k, r, g))
        return Seq(out)

    def seq_filter_map(self, q, f):
        """f returns Opt"""
        out = []
        for s in q.segs:
            k, g, e = open_seg(s)
            if s.flat:
                r = self.under(k, s.n, g, lambda: self.seq_filter_map(e, f))
                out.append(Seg(s.n, k, r, g, True)); continue
            r = self.under(k, s.n, g, lambda: f(e))
            if r.c is FALSE: continue
            out.append(Seg(s.n, k, r.v, band(g, r.c)))
        return Seq(out)

    def seq_sum(self, q):
        ty = "f"; r = ZERO
        for s in q.segs:
            k, g, e = open_seg(s)
            if s.flat:
                x = self.under(k, s.n, g, lambda: self.seq_sum(e)).p
            else:
                e = self.rd(e)
                if isinstance(e, Num): x = e.p; ty = e.ty
                elif isinstance(e, Struct) and list(e.fs) == ["0"]: raise Unsupported("sum of a newtype")
                else: raise Unsupported("sum of %s" % type(e).__name__)
            if s.n is None: raise Unsupported("sum of an infinite iterator")
            ctx0 = self.ctx
            r = r + T.ssum(k, s.n, x * T.ind(g))
        return Num(r, ty)

    def seq_quant(self, q, kind, f):
        """any/all: f gives a condition"""
        bs = []
        for s in q.segs:
            k, g, e = open_seg(s)
            if s.flat:
                b = self.under(k, s.n, g, lambda: self.seq_quant(e, kind, f))
            else:
                b = self.under(k, s.n, g, lambda: f(e))
            if s.n is None: raise Unsupported("any/all on an infinite iterator")
            c = is_const(s.n)
            if c == 1:
                g0, b0 = bsub(g, {k: ZERO}), bsub(b, {k: ZERO})
                bs.append(implies(g0, b0) if kind == "forall" else band(g0, b0)); continue
            bs.append(T.forall(k, s.n, implies(g, b)) if kind == "forall" else T.exists(k, s.n, band(g, b)))
        return band(*bs) if kind == "forall" else bor(*bs)

    # loops are in loops.py
    def e_for(self, e):
        import loops
        if e["i"]["k"] == "mcall" and e["i"]["m"] == "by_ref":
            p = self.place_deref(e["i"]["r"])
            if p is not None and isinstance(self.rd(p), Seq):
                return loops.run_for(self, None, lambda v: self.loop_body(e, v), e["label"], e, byref=p)
        it = self.expr(e["i"])
        return loops.run_for(self, it, lambda v: self.loop_body(e, v), e["label"], e)

    def loop_body(self, e, v):
        self.env = self.env + [{}]
        try:
            self.bind(e["p"], v)
            self.block(e["b"])
        finally:
            self.env = self.env[:-1]

    def e_while(self, e):
        import loops
        c = e["c"]
        if c["k"] == "letc" and c["e"]["k"] == "mcall" and c["e"]["m"] == "next" and not c["e"]["args"] and c["p"]["k"] == "pts" and c["p"]["path"][-1][0] == "Some":
            p = self.place_deref(c["e"]["r"])
            if p is not None and isinstance(self.rd(p), Seq):
                e2 = {"p": c["p"]["ps"][0], "b": e["b"]}
                return loops.run_for(self, None, lambda v: self.loop_body(e2, v), e["label"], e, byref=p)
        def body(_):
            c, bs = self.cond(e["c"])
            def go():
                self.env = self.env + [{n: self.new(x) for n, x in bs}]
                try: self.block(e["b"])
                finally: self.env = self.env[:-1]
                return UNIT
            def stop(): self.leave(self.loop_frame(None), "break", UNIT)
            self.branch(c, go, stop)
        return loops.run_inf(self, body, e["label"])

    def e_loop(self, e):
        import loops
        return loops.run_inf(self, lambda _: self.block(e["b"]), e["label"])


F64FN = {"max", "min", "abs", "ln", "exp", "sqrt", "powi", "powf", "signum", "floor", "ceil", "round", "trunc", "clamp", "recip", "tanh"}


def str_eq(a, b):
    if a is b: return TRUE
    x, y = list(a.t), list(b.t)
    if len(x) == 1 and len(y) == 1:
        u, w = x[0][0][0], y[0][0][0]
        if u.kind == "var" and w.kind == "var" and u.data[0][0] in "\"'" and w.data[0][0] in "\"'": return FALSE
    return eqo(a, b)


def pat_names(p):
    k = p["k"]
    if k == "pident":
        if p["name"][0].isupper(): return []
        return [p["name"]] + (pat_names(p["sub"]) if p["sub"] else [])
    r = []
    for q in p.get("ps", []): r += pat_names(q)
    if "p" in p and isinstance(p["p"], dict): r += pat_names(p["p"])
    for _, q in p.get("fs", []): r += pat_names(q)
    return r


def num_method_impl(self, m, a):
    x = a[0]
    if not isinstance(x, Num): return None
    p = x.p
    if m == "abs": return Num(T.absv(p), x.ty)
    if m == "abs_diff": return Num(T.absv(p - a[1].p), "u")
    if m == "exp": return Num(T.exp(p), "f")
    if m == "ln":
        g = lt0(-p)
        if decide(g) is not True: self.obl("defined", g, "ln of a positive number")
        return Num(T.ln(p), "f")
    if m in ("log10", "log2", "ln_1p", "exp_m1", "tanh", "sin", "cos"):
        if m == "exp_m1": return Num(T.exp(p) - 1, "f")
        if m == "ln_1p": return Num(T.ln(p + 1), "f")
        if m == "tanh": return Num((T.exp(2 * p) - 1) * T.inv(T.exp(2 * p) + 1), "f")
        return Num(T.app(m, (p,)), "f")
    if m == "sqrt":
        g = le0(-p)
        if decide(g) is not True: self.obl("defined", g, "sqrt of a non-negative number")
        return Num(T.sqrt(p), "f")
    if m == "powi":
        c = is_const(a[1].p)
        if c is None: raise Unsupported("powi with a symbolic exponent")
        if c < 0: self.nonzero(p)
        return Num(T.power(p, int(c)), "f")
    if m == "pow":
        c = is_const(a[1].p)
        if c is None: raise Unsupported("pow with a symbolic exponent")
        return Num(T.power(p, int(c)), x.ty)
    if m == "powf":
        return Num(T.powf(p, a[1].p), "f")
    if m == "signum":
        return Num(T.signum(p) if x.ty == "f" else T.ite(lt0(-p), ONE, T.ite(lt0(p), -ONE, ZERO)), x.ty)
    if m == "floor": return Num(T.floor(p), "f")
    if m == "ceil": return Num(T.ceil(p), "f")
    if m == "trunc": return Num(T.trunc(p), "f")
    if m == "round": return Num(T.ite(le0(-p), T.floor(p + Fraction(1, 2)), T.ceil(p - Fraction(1, 2))), "f")
    if m == "recip": self.nonzero(p); return Num(T.inv(p), "f")
    if m == "max": return Num(T.vmax(p, a[1].p), x.ty or a[1].ty)
    if m == "min": return Num(T.vmin(p, a[1].p), x.ty or a[1].ty)
    if m == "clamp":
        lo, hi = a[1].p, a[2].p
        self.obl("assert", le(lo, hi), "clamp bounds ordered")
        return Num(T.ite(lt(p, lo), lo, T.ite(lt(hi, p), hi, p)), x.ty)
    if m in ("is_finite",): return Boo(TRUE)
    if m in ("is_nan", "is_infinite"): return Boo(FALSE)
    if m == "mul_add": return Num(p * a[1].p + a[2].p, "f")
    if m in ("add", "sub", "mul", "div"): return self.binop({"add": "+", "sub": "-", "mul": "*", "div": "/"}[m], x, a[1])
    if m in ("partial_cmp",): return Opt(TRUE, self.compare(x, a[1]))
    if m in ("cmp", "total_cmp"): return self.compare(x, a[1])
    if m == "eq": return Boo(eq(p, a[1].p))
    if m == "ne": return Boo(bnot(eq(p, a[1].p)))
    if m == "lt": return Boo(lt(p, a[1].p))
    if m == "le": return Boo(le(p, a[1].p))
    if m == "gt": return Boo(lt(a[1].p, p))
    if m == "ge": return Boo(le(a[1].p, p))
    if m == "saturating_sub": return Num(T.ite(le(a[1].p, p), p - a[1].p, ZERO), x.ty)
    if m == "checked_sub": return Opt(le(a[1].p, p), Num(p - a[1].p, x.ty))
    if m in ("checked_mul",): return Opt(TRUE, Num(p * a[1].p, x.ty))
    if m in ("checked_add",): return Opt(TRUE, Num(p + a[1].p, x.ty))
    if m in ("saturating_mul", "wrapping_mul"): return Num(p * a[1].p, x.ty)
    if m in ("saturating_add", "wrapping_add"): return Num(p + a[1].p, x.ty)
    if m == "is_positive": return Boo(lt0(-p))
    if m == "is_negative": return Boo(lt0(p))
    if m == "is_sign_negative": return Boo(lt0(p))
    if m == "is_sign_positive": return Boo(le0(-p))
    if m == "div_ceil": return Num(T.ceil(p * T.inv(a[1].p)), x.ty)
    if m == "copysign": return Num(T.absv(p) * T.signum(a[1].p), x.ty)
    return None


def num_method(self, m, a):
    r = num_method_impl(self, m, a)
    if r is None: raise Unsupported("numeric method %s" % m)
    return r


Ev.num_method = num_method
