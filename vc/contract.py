"""The contract language: symbolic arguments, preconditions, calls of the real functions, postconditions."""
import os, sys, time, traceback
from fractions import Fraction
import terms as T
import prover as PR
from terms import *
from values import *
from prover import Ctx, prove, refute, decide
from eval import Ev, Obl, Diverge, INTS, SINTS
from program import Program, REPO

REGISTRY = []      # (props, name, function)


def contract(props, name):
    if isinstance(props, str): props = (props,)
    def deco(f):
        REGISTRY.append((tuple(props), name, f))
        return f
    return deco


class C:
    """one contract run"""
    def __init__(self, prog, name):
        self.prog = prog; self.name = name
        self.ev = Ev(prog)
        self.ev.activate()
        self.gens = {}
        self.named_apps = {}
        self.declared = {"conf", "rpred", "powf", "PI"}
        self.gens["PI"] = lambda M: 3.141592653589793
        self.pre = []
        self.env_file = None
        self.ev.env = [{}]
        std_stubs(self)

    # ---- symbols
    def assume(self, *bs):
        self.pre += [b for b in bs if b is not TRUE]
        self.ev.assume(*bs)

    def len(self, name, lo=0):
        """a length / count"""
        self.declared.add(name)
        v = P(T.mk_atom("var", (name,), "I"))
        self.assume(le(lo, v))
        self.gens.setdefault(name, lambda M: M.rng.randint(int(is_const(P(lo)) or 0), 5) if is_const(P(lo)) is not None else M.rng.randint(0, 5))
        return v

    int = len

    def index(self, name, n):
        self.declared.add(name)
        v = P(T.mk_atom("var", (name,), "I"))
        self.assume(le(0, v), lt(v, n))
        self.gens[name] = lambda M: M.rng.randint(0, max(0, int(PR.ev(P(n), M, {})) - 1))
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt_=None):
        self.declared.add(name)
        v = P(T.mk_atom("var", (name,), "R"))
        if lo is not None: self.assume(le(lo, v))
        if gt is not None: self.assume(lt(gt, v))
        if hi is not None: self.assume(le(v, hi))
        if lt_ is not None: self.assume(lt(v, lt_))
        a = lo if lo is not None else gt; b = hi if hi is not None else lt_
        ca = is_const(P(a)) if a is not None else None; cb = is_const(P(b)) if b is not None else None
        if ca is not None or cb is not None:
            l = float(ca) if ca is not None else float(cb) - 3; h = float(cb) if cb is not None else float(ca) + 3
            self.gens[name] = lambda M: M.rng.uniform(l + 1e-3 * (h - l), h - 1e-3 * (h - l))
        return v

    def define(self, name, p, *facts):
        """a name for the number p; facts are assumed about it (preconditions)"""
        p = P(p)
        self.declared.add(name)
        v = P(T.mk_atom("var", (name,), "R"))
        if self.ev.defs is Ev.defs: self.ev.defs = {}
        self.ev.defs[p] = v
        self.gens[name] = lambda M: PR.ev(p, M, {})
        for f in facts: self.assume(f(v))
        return v

    def define_seq(self, name, n, f):
        """a name for the sequence f(0) .. f(n-1); returns the symbol as a function"""
        n = P(n)
        self.declared.add(name)
        sym = lambda i: T.app(name, (P(i),), "R")
        if not self.ev.defseqs: self.ev.defseqs = []
        self.ev.defseqs.append((n, lambda i: P(f(i)), sym))
        self.named_apps[name] = f
        self.gens[name] = lambda M, i: PR.ev(P(f(P(int(i)))), M, {})
        return sym

    def unfold(self, b):
        """with the defined names replaced by what they stand for"""
        names = {}
        for p, v in self.ev.defs.items(): names.setdefault(next(iter(next(iter(v.t))))[0].data[0], p)
        def go(a, tp):
            if a.kind == "var" and a.data[0] in names: return T.transform(names[a.data[0]], go)
            if a.kind == "app" and a.data[0] in self.named_apps: return T.transform(P(self.named_apps[a.data[0]](tp(a.data[1][0]))), go)
            return None
        return T.transform(b, go)

    def fn(self, name, sort="R", pos=False, nonneg=False, lo=None, hi=None):
        """an uninterpreted function of its arguments (a family of numbers)"""
        self.declared.add(name)
        f = lambda *a: T.app(name, tuple(P(x) for x in a), sort)
        if pos: self.gens[name] = lambda M, *a: M.rng.uniform(0.05, 2)
        return f

    def reals(self, name, n, pos=False, nonneg=False, pm1=False, lo=None, hi=None, nonzero=False):
        self.declared.add(name)
        f = lambda i: T.app(name, (P(i),), "R")
        k = fresh("k")
        x = f(k)
        if pos:
            self.assume(T.forall(k, n, lt(0, x))); self.gens[name] = lambda M, i: M.rng.uniform(0.05, 2)
        if nonneg:
            self.assume(T.forall(k, n, le(0, x))); self.gens[name] = lambda M, i: M.rng.choice([0.0, M.rng.uniform(0, 2)])
        if nonzero:
            self.assume(T.forall(k, n, bnot(eq(x, 0))))
        if pm1:
            self.assume(T.forall(k, n, bor(eq(x, 1), eq(x, -1)))); self.gens[name] = lambda M, i: M.rng.choice([-1.0, 1.0])
        if lo is not None:
            self.assume(T.forall(k, n, le(lo, x)))
        if hi is not None:
            self.assume(T.forall(k, n, le(x, hi)))
        if lo is not None and hi is not None and is_const(P(lo)) is not None and is_const(P(hi)) is not None:
            self.gens[name] = lambda M, i: M.rng.choice([float(is_const(P(lo))), float(is_const(P(hi))), M.rng.uniform(float(is_const(P(lo))), float(is_const(P(hi))))])
        return Seq([Seg(P(n), k, Num(x, "f"))])

    def dist(self, name, n, pos=True):
        """a probability vector"""
        self.declared.add(name)
        f = lambda i: T.app(name, (P(i),), "R")
        k = fresh("k")
        self.assume(T.forall(k, n, lt(0, f(k)) if pos else le(0, f(k))))
        self.assume(eq(T.ssum(k, n, f(k)), 1))
        def gen(M, i):
            key = ("$" + name,)
            if key not in M.t:
                m = int(PR.ev(P(n), M, {}))
                w = [M.rng.uniform(0.05, 1) for _ in range(max(m, 1))]
                s = sum(w)
                M.t[key] = [x / s for x in w]
            t = M.t[key]
            return t[i] if 0 <= i < len(t) else 0.5
        self.gens[name] = gen
        return Seq([Seg(P(n), k, Num(f(k), "f"))])

    def at(self, q, i): return seq_get(q, P(i)).p
    def val(self, v): return self.ev.rd(v)

    def opq(self, name, sort):
        self.declared.add(name)
        return Opq(sort, P(T.mk_atom("var", (name,), sort)))
    def opqs(self, name, n, sort):
        self.declared.add(name)
        k = fresh("k")
        return Seq([Seg(P(n), k, Opq(sort, T.app(name, (P(k),), sort)))])

    def enum(self, name, var, *xs, file=None):
        t = self.tkey(name, file)
        return Enum(t, var, xs)

    def tkey(self, name, file=None):
        c = (self.prog.structs.get(name) or []) + (self.prog.enums.get(name) or [])
        if file: c = [x for x in c if file in x[0]]
        if len(c) != 1: raise Unsupported("type %s%s" % (name, "" if c else " (not found)"))
        return (name, c[0][0])

    def sample(self, name="S", n=None, binary=True, features=None):
        """a training sample: n examples with targets; features are only seen through hypotheses"""
        n = self.len("n", 1) if n is None else n
        t = self.reals("y", n, pm1=binary)
        fields = {"target": t, "n_sample": Num(n, "u")}
        if features is not None: fields["features"] = features
        return self.struct("Sample", name=name, file="sample_struct", over=fields)

    def struct(self, tname, file=None, name=None, over=None, partial=True):
        """a value of a struct type with fresh symbolic fields; over: explicit fields"""
        t = self.tkey(tname, file)
        sd = self.prog.struct(t[0], t[1])[1]
        over = dict(over or {})
        fs = {}
        name = name if name is not None else tname
        for f, ty in sd["fields"]:
            if f in over: fs[f] = over.pop(f)
            else: fs[f] = self.of_type(ty, "%s.%s" % (name, f), t[1])
        for f in over: raise Unsupported("field %s of %s" % (f, tname))
        self.declared.add(name + "#id")
        fs["$id"] = Opq("Id", P(T.mk_atom("var", ("%s#id" % name,), "Id")))
        return Struct(t, fs)

    def of_type(self, ty, name, file, args=()):
        k = ty["k"]
        self.declared.update((name, name + "?", "len(%s)" % name, name + ".len"))
        if k == "tref": return self.of_type(ty["ty"], name, file, args)
        if k in ("tslice", "tarray"):
            return self.seq_of(ty["ty"], name, file, args)
        if k == "ttuple":
            return Tup([self.of_type(t, "%s.%d" % (name, i), file, args) for i, t in enumerate(ty["ts"])]) if ty["ts"] else UNIT
        if k == "tpath":
            seg, gen = ty["path"][-1]
            if seg in ("f64", "f32"): return Num(self.sym(name, "R", args), "f")
            if seg in INTS:
                p = self.sym(name, "I", args)
                if not args: self.assume(le(0, p))
                return Num(p, "u")
            if seg in SINTS: return Num(self.sym(name, "I", args), "i")
            if seg == "bool": return Boo(T.bapp(name, list(args)) if args else T.bvarb(name))
            if seg in ("String", "str"): return Str(self.sym(name, "S", args))
            if seg in ("Rc", "RefCell", "Box", "Arc", "Cell", "Mutex"): return self.of_type(gen[0], name, file, args)
            if seg == "Vec": return self.seq_of(gen[0], name, file, args)
            if seg == "Option": return Opt(T.bapp(name + "?", list(args)) if args else T.bvarb(name + "?"), self.of_type(gen[0], name, file, args))
            if seg in ("Instant", "Duration"): return Opq("Time", self.sym(name, "Time", args))
            if seg in ("HashMap", "BTreeMap", "HashSet", "Range"): return Opq("Map", self.sym(name, "Map", args))
            if seg == "FixedBitSet":
                n = self.len(name + ".len"); kk = fresh("k")
                return Seq([Seg(n, kk, Boo(T.bapp(name, [P(kk)])))])
            if len(seg) == 1 or seg in ("Self",): return Opq("H", self.sym(name, "H", args))
            key = None
            try: key = self.prog.type_key(seg, file)
            except Unsupported: pass
            if key and key[0] in self.prog.structs and self.prog.struct(key[0], key[1]):
                sd = self.prog.struct(key[0], key[1])[1]
                fs = {f: self.of_type(t, "%s.%s" % (name, f), key[1], args) for f, t in sd["fields"]}
                fs["$id"] = Opq("Id", self.sym(name + "#id", "Id", args))
                return Struct(key, fs)
            return Opq(seg, self.sym(name, seg, args))
        return Opq("Any", self.sym(name, "Any", args))

    def sym(self, name, sort, args):
        self.declared.add(name)
        if args: return T.app(name, tuple(args), sort)
        return P(T.mk_atom("var", (name,), sort))

    def seq_of(self, ty, name, file, args):
        n = self.sym("len(%s)" % name, "I", args)
        if not args: self.assume(le(0, n)); self.gens["len(%s)" % name] = lambda M: M.rng.randint(0, 4)
        kk = fresh("k")
        return Seq([Seg(n, kk, self.of_type(ty, name, file, tuple(args) + (P(kk),)))])

    # ---- calls
    def find(self, name, file=None, trait=None):
        if "::" in name:
            t, m = name.split("::")
            if t in self.prog.traitfns and m in self.prog.traitfns[t]: return self.prog.traitfns[t][m]
            f = self.prog.method(self.tkey(t, file), m, trait)
            if isinstance(f, list):
                raise Unsupported("ambiguous %s" % name)
        else:
            c = self.prog.free.get(name, [])
            if file: c = [x for x in c if file in x.file]
            f = c[0] if len(c) == 1 else None
        if f is None: raise Unsupported("function %s not found" % name)
        return f

    def call(self, name, *args, file=None, trait=None):
        f = self.find(name, file, trait)
        self.ev.activate()
        args = [Num(a, "f") if isinstance(a, Poly) else a for a in args]
        return self.ev.rd(self.ev.call_fn(f, list(args)))

    def cell(self, v):
        """a mutable location holding v"""
        return Ref(self.ev.new(v))

    def read(self, r): return self.ev.rd(r)
    def get(self, v, *fields):
        for f in fields:
            v = self.ev.rd(v)
            if isinstance(v, Struct) and f not in v.fs: raise Unsupported("field %s of %s" % (f, v.name[0]))
            v = v.fs[f] if isinstance(v, Struct) else v.xs[int(f)]
        return self.ev.rd(v)

    def keys(self, *ks):
        """the keys of every map that is iterated over lie in this set (an obligation at each iteration)"""
        self.ev.key_domain = [P(k) for k in ks]

    def num(self, v):
        """the value inside one-field wrappers (LossValue, Threshold, Prediction, ...)"""
        v = self.ev.rd(v) if isinstance(v, Ref) else v
        while isinstance(v, Struct) and len([f for f in v.fs if f != "$id"]) == 1:
            v = self.ev.rd(next(x for f, x in v.fs.items() if f != "$id"))
        return v

    def stub_named(self, name, f, file=None):
        """replace a function by f(args): args by parameter name (Unsupported when a name is not a parameter any more)"""
        fn = self.find(name, file)
        ps = [(p["p"]["name"] if p["k"] == "param" and p["p"]["k"] == "pident" else "self" if p["k"] == "self" else "_") for p in fn.params]
        class Args(dict):
            def __missing__(_, k): raise Unsupported("%s has no parameter %s" % (name, k))
        key = tuple(name.split("::")) if "::" in name else (None, name)
        self.ev.stubs[key] = lambda ev, a: f(Args(zip(ps, [ev.rd(x) for x in a])))

    def stub(self, key, f): self.ev.stubs[key] = f
    def stub_unit(self, *keys):
        for k in keys: self.ev.stubs[k] = lambda ev, a: UNIT

    # ---- postconditions
    def ensure(self, label, b, ctx=None):
        self.ev.obls.append(Obl("ensures", b, ctx or self.ev.ctx, self.name, label))

    def ensure_eq(self, label, a, b):
        a, b = self.num(a), self.num(b)
        a = a.p if isinstance(a, (Num, Opq, Str)) else P(a); b = b.p if isinstance(b, (Num, Opq, Str)) else P(b)
        self.ensure(label, eq(a, b))

    def ensure_seq(self, label, q, n, f):
        """q has length n and element i equals f(i)"""
        q = self.ev.rd(q)
        self.ensure(label + " (length)", eq(seq_len(q), n))
        k = fresh("k")
        if not norm(q).segs: return
        x = self.ev.rd(seq_get(q, P(k)))
        self.ensure(label, T.forall(k, P(n), eq(x.p, f(P(k)))))

    def ensure_filtered(self, label, q, n, guard, f):
        """q lists f(k) for the k < n with guard(k), in increasing order of k"""
        q = norm(self.ev.rd(q))
        if len(q.segs) != 1 or q.segs[0].flat: raise Unsupported("%s: not a filtered comprehension" % label)
        s = q.segs[0]
        k = fresh("k")
        sub = {next(iter(s.k.fv)) if isinstance(s.k, Poly) else s.k: P(k)}
        self.ensure(label + " (source length)", eq(s.n, n))
        g = bsubst(s.g, sub)
        self.ensure(label + " (kept exactly)", T.forall(k, P(n), band(implies(g, guard(P(k))), implies(guard(P(k)), g))))
        x = self.ev.rd(vsubst(s.e, sub))
        self.ensure(label + " (values)", T.forall(k, P(n), implies(guard(P(k)), eq(x.p, f(P(k))))))

    def ensure_all(self, label, n, f):
        k = fresh("k")
        self.ensure(label, T.forall(k, P(n), f(P(k))))

    def induct(self, label, n, f, ghosts=()):
        """lemma: f(k) for every 0 <= k <= n, by induction; returns f as an available fact"""
        k = fresh("k")
        self.ensure(label + " (base)", f(ZERO))
        keep = self.ev.ctx
        self.ev.ctx = keep.plus(le(0, P(k)), lt(P(k), n))
        goal, cx = f(P(k) + 1), self.ev.ctx.plus(f(P(k)))
        self.ev.ctx = keep
        self.ensure(label + " (step)", goal, cx)
        j = fresh("j")
        self.ev.assume(T.forall(j, P(n) + 1, f(P(j))), f(P(n)))

    def ghost(self, name, n, f):
        """a ghost sequence, defined to be f(0) .. f(n-1)"""
        g = lambda i: T.app(name, (P(i),), "R")
        k = fresh("k")
        g.fact = T.forall(k, P(n), eq(g(P(k)), f(P(k))))
        self.ev.assume(g.fact)
        self.named_apps[name] = f          # defined for every index, so that it may be unfolded anywhere
        self.gens[name] = lambda M, i: PR.ev(P(f(P(int(i)))), M, {})
        return g

    def guess_map(self, pres, val):
        """a candidate for the contents of a map after k iterations of a loop (confirmed by the loop-invariant obligations)"""
        self.ev.map_guesses.append((pres, val))

    def loop_name(self, name, f):
        """name(i) := f(i); the engine may refer to the value of a loop iteration by it"""
        g = lambda i: T.app(name, (P(i),), "R")
        self.named_apps[name] = f; self.declared.add(name)
        self.gens[name] = lambda M, i: PR.ev(P(f(P(int(i)))), M, {})
        self.ev.loop_names.append((f, g))
        return g

    def ghost_value(self, name, p, sort="R"):
        """a ghost name for a value; returns the name and the fact defining it"""
        v = P(T.mk_atom("var", (name,), sort))
        fact = eq(v, p)
        self.ev.assume(fact)
        self.gens[name] = lambda M: PR.ev(P(p), M, {})
        return v, fact

    def lemma(self, label, b, unfold=False, using=None):
        """proved, then used; using: the facts of the context its proof may use (default: all)"""
        cx = None
        if using is not None:
            have = self.ev.ctx.idset
            for h in using:
                if h is not TRUE and h.id not in have: raise Unsupported("%s: fact not in the context" % label)
            cx = Ctx([h for h in using if h is not TRUE])
        self.ensure(label, self.unfold(b) if unfold else b, cx)
        n0 = len(self.ev.ctx.hyps)
        self.ev.assume(b)
        return list(self.ev.ctx.hyps[n0:])

    def extend_sum(self, label, m, lo, hi, f):
        """for every k < m: f vanishes between lo(k) and hi(k), so the sums over t < lo(k) and t < hi(k) agree"""
        self.ensure_all(label, m, lambda k: band(le(0, lo(k)), le(lo(k), hi(k)), T.forall(t := fresh("t"), P(hi(k)), implies(le(lo(k), P(t)), eq(f(P(t)), 0)))))
        self.ev.assume(all_(m, lambda k: eq(sum_(hi(k), f), sum_(lo(k), f))))

    def split_sum(self, label, m, lo, hi, f):
        """for every k < m: the sum over t < hi(k) is that over t < lo(k) plus that from lo(k) on"""
        self.ensure_all(label, m, lambda k: band(le(0, lo(k)), le(lo(k), hi(k))))
        self.ev.assume(all_(m, lambda k: eq(sum_(hi(k), f), sum_(lo(k), f) + sum_(P(hi(k)) - lo(k), lambda u: f(lo(k) + u)))))

    def same(self, label, a, b):
        self.ensure(label, self.ev.equal(a, b))


def sum_(n, f):
    k = fresh("k")
    return T.ssum(k, P(n), P(f(P(k))))


def all_(n, f):
    k = fresh("k")
    with PR.use(PR.cur[0].plus(le(0, P(k)), lt(P(k), n))): b = f(P(k))
    return T.forall(k, P(n), b)


def any_(n, f):
    k = fresh("k")
    return T.exists(k, P(n), f(P(k)))


def the_id(v):
    if isinstance(v, Struct) and "$id" in v.fs: return v.fs["$id"].p
    if isinstance(v, Opq): return v.p
    raise Unsupported("identity of %s" % type(v).__name__)


def conf(h, s, i):
    """the confidence of hypothesis h on example i of sample s"""
    return T.app("conf", (P(h), P(s), P(i)), "R")


def std_stubs(c):
    ev = c.ev
    def confidence(ev, a):
        h = ev.rd(a[0]); s = ev.rd(a[1]); i = ev.rd(a[2])
        return Num(conf(h.p, the_id(s), i.p), "f")
    def predict(ev, a):
        h = ev.rd(a[0]); s = ev.rd(a[1]); i = ev.rd(a[2])
        return Num(T.app("rpred", (h.p, the_id(s), i.p), "R"), "f")
    ev.stubs[("H", "confidence")] = confidence
    ev.stubs[("HR", "predict")] = predict
    ev.stubs[("Sample", "is_valid_binary_instance")] = lambda ev, a: UNIT


# ------------------------------------------------------------------ running
# a refutation counts only for these kinds: what the code computes or requires, not how the engine summarised it
DECISIVE = {"ensures", "assert", "index", "unwrap", "panic", "underflow"}


def symbols(b):
    bs = []
    r = set()
    for a in T.all_atoms(b, bs):
        if a.kind in ("var", "app"): r.add(a.data[0])
    for x in bs: r.add(x.data[0])
    def bv(x):
        if isinstance(x, B):
            if x.kind == "bvar": r.add(x.data[0])
            for y in x.data: bv(y)
        elif isinstance(x, tuple):
            for y in x: bv(y)
    bv(b)
    return {x for x in r if not x.startswith("#") and not x.startswith('"') and not x.startswith("'")}


LIMIT = float(os.environ.get("VC_LIMIT", "30"))      # seconds per obligation


def fingerprint(prog, used):
    """digest of the source of the functions a contract depends on (positions and comments dropped), with the constants of their files"""
    import hashlib, json
    def canon(x):
        if isinstance(x, dict): return {k: canon(v) for k, v in x.items() if k != "l"}
        if isinstance(x, list): return [canon(y) for y in x]
        return x
    parts = sorted(json.dumps(canon(fn.j), sort_keys=True) for fn in used.values())
    files = {fn.file for fn in used.values()}
    parts += sorted(json.dumps(canon(it), sort_keys=True) for cs in prog.consts.values() for f, it in cs if f in files)
    return hashlib.sha256("\n".join(parts).encode()).hexdigest()[:24]


def run_one(prog, name, f, emit, log=None):
    t0 = time.time()
    c = None
    fns = {}
    try:
        T.clear_caches()
        T.perms.clear(); T.lazy.clear()
        c = C(prog, name)
        f(c)
        err = None
    except Diverge:
        err = "every path of the call diverges"
    except Unsupported as e:
        err = str(e)
        if log and os.environ.get("VC_TRACE"): traceback.print_exc()
    except RecursionError:
        err = "recursion limit"
    except Exception as e:
        err = "%s: %s" % (type(e).__name__, e)
        if log: traceback.print_exc()
    if c is not None:
        for q in c.ev.used: fns[q] = fns.get(q, 0) + 1
    if err is not None:
        emit({"name": "%s/translate" % name, "kind": "translate", "status": "unsupported", "detail": err, "time": round(time.time() - t0, 3), "backend": ""})
        if log: log("%-60s UNSUPPORTED %s" % (name, err))
    if c is None: return fns, {}, ""
    seen = set()
    cnt = {}
    tr = time.time() - t0
    for o in c.ev.obls:
        key = (o.goal.id, o.ctx.id, o.kind, o.label if o.kind == "ensures" else "")
        if key in seen: continue
        seen.add(key)
        base = "%s/%s/%s" % (name, o.kind, (o.where.split(":")[-1] + ": " if o.kind != "ensures" else "") + o.label)
        cnt[base] = cnt.get(base, 0) + 1
        nm = base if cnt[base] == 1 else "%s #%d" % (base, cnt[base])
        t1 = time.time()
        z0 = PR.stats["z3"]
        st, det = "unknown", ""
        try:
            PR.deadline[0] = t1 + 2
            if prove(o.goal, o.ctx): st = "discharged"
            elif o.kind in DECISIVE and PR.direct(o.goal, o.ctx): st = "discharged"
            elif time.time() > t1 + 2:
                PR.deadline[0] = t1 + LIMIT
                if prove(o.goal, o.ctx): st = "discharged"
            if st == "discharged": pass
            elif (c.ev.defs or c.ev.defseqs) and prove(c.unfold(o.goal), Ctx([c.unfold(h) for h in o.ctx.hyps])): st = "discharged"
        except (Unsupported, RecursionError) as e:
            det = str(e)
        PR.deadline[0] = 0
        if st != "discharged":
            try:
                cex, sat = refute(o.goal, o.ctx.hyps, c.gens)
                if cex is not None:
                    det = show_cex(cex)
                    internal = sorted(x for x in set().union(symbols(o.goal), *[symbols(h) for h in o.ctx.hyps]) if x not in c.declared)
                    if o.kind in DECISIVE and not internal: st = "refuted"
                    else: det = "false for %s, but this is not decisive (%s)" % (det, "internal symbols " + ", ".join(internal[:4]) if internal else o.kind)
            except Exception as e:
                det = "refutation: %s" % e
        be = "z3" if PR.stats["z3"] > z0 else "normal-form"
        if st == "unknown" and T.apps_in(o.goal) & c.ev.unsolved: det = (det + " [depends on a loop variable that has no closed form]").strip()
        emit({"name": nm, "kind": o.kind, "status": st, "detail": det, "time": round(time.time() - t1, 3), "backend": be})
        if log and (st != "discharged" or time.time() - t1 > 5):
            log("%-60s %s %.1fs %s\n      goal %s" % (nm, st, time.time() - t1, det[:300], repr(o.goal)[:600]))
    # vacuity: the preconditions are satisfiable
    try:
        _, sat = refute(FALSE, c.pre, c.gens, tries=400, seconds=3)
    except Exception: sat = 0
    if log: log("%-60s %d obligations, %.1fs (translation %.1fs)%s" % (name, len(seen), time.time() - t0, tr, "" if sat else "  PRECONDITION NOT SATISFIED BY ANY SAMPLE"))
    return fns, {name: sat > 0}, fingerprint(prog, c.ev.used)


def run_contracts(prop, prog, log=None, only=None):
    res = []; fns = {}; vac = {}
    for props, name, f in REGISTRY:
        if prop not in props: continue
        if only and only not in name: continue
        f1, v1, _ = run_one(prog, name, f, res.append, log)
        for q, k in f1.items(): fns[q] = fns.get(q, 0) + k
        vac.update(v1)
    return res, fns, vac


def show_cex(d):
    return ", ".join("%s=%s" % (k, ("%.6g" % v) if isinstance(v, float) else v) for k, v in list(d.items())[:25] if not str(k).startswith("$"))


def load(path):
    import importlib.util
    sys.path.insert(0, path)
    for f in sorted(os.listdir(path)):
        if f.endswith(".py") and not f.startswith("lib_"):
            sp = importlib.util.spec_from_file_location("contracts_" + f[:-3], os.path.join(path, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)


if __name__ == "__main__":
    import contract as CM     # one registry
    CM.load(os.environ.get("VC_CONTRACTS", "/verif/contracts"))
    prog = Program()
    only = sys.argv[2] if len(sys.argv) > 2 else None
    for p in sys.argv[1].split(","):
        r, f, v = CM.run_contracts(p, prog, log=lambda s: print(s, flush=True), only=only)
        from collections import Counter
        print(p, Counter(x["status"] for x in r), PR.stats)
        for q in sorted(f): print("   ", q)
