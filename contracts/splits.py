"""Bins and split criteria (property T01; the regression tree's copies for T03)."""
from contract import *
from lib_trees import *
from eval import str_eq
import prover as PR

MAXF = const(Fraction(2) ** 1024 - Fraction(2) ** 971)
BIG = const(Fraction(2) ** 1000)


def cutting(c, kind, sparse):
    """the bins of a column are non-empty, adjacent and cover every (finite) value exactly once"""
    b = c.len("n_bin", 1)
    if sparse:
        nz = c.len("nz", 1); N = c.len("N", 1)
        c.assume(le(nz, N))
        c.declared.update({"pos", "val"})
        x = lambda k: T.app("val", (P(k),), "R")
        k = fresh("k"); m = nz
        t = c.struct("SparseFeature", name="F", over={"sample": Seq([Seg(P(nz), k, Tup([Num(T.app("pos", (P(k),), "I"), "u"), Num(x(k), "f")]))]), "n_sample": Num(P(N), "u")})
    else:
        m = c.len("n", 1)
        q = c.reals("x", m); x = lambda k, q=q: c.at(q, k)
        t = c.struct("DenseFeature", name="F", over={"sample": q})
    c.assume(all_(m, lambda k: band(le(-BIG, x(k)), le(x(k), BIG))))
    r = c.call("Bins::cut", c.enum("Feature", "Sparse" if sparse else "Dense", t), Num(P(b), "u"), file=kind)
    q = c.get(r, "0")
    i = fresh("i"); mn = T.fold("min", i, P(m), x(P(i)), MAXF); i = fresh("i"); mx = T.fold("max", i, P(m), x(P(i)), -MAXF)
    zero = lt(P(nz), P(N)) if sparse else bconst(False)
    lo0 = T.ite(band(zero, lt(0, mn)), ZERO, mn); hi0 = T.ite(band(zero, lt(mx, 0)), ZERO, mx)
    eps = const(Fraction(1, 1000)) * T.ind(eq(lo0, hi0))
    c.lemma("the least value", band(le(-BIG, mn), le(mn, x(ZERO))))
    c.lemma("the largest value", band(le(mx, BIG), le(x(ZERO), mx)))
    c.lemma("the least value in the column", band(le(-BIG, lo0), le(lo0, hi0), le(hi0, BIG)))
    W = hi0 - lo0 + 2 * eps
    c.lemma("the range of the column is not empty", lt(0, W))
    c.lemma("the width of a bin", band(lt(0, W * P(b) ** -1), le(W * P(b) ** -1, W)))
    lo = lambda k: c.ev.rd(c.ev.rd(seq_get(q, P(k)).fs["0"]).lo).p
    hi = lambda k: c.ev.rd(c.ev.rd(seq_get(q, P(k)).fs["0"]).hi).p
    c.ensure_eq("the requested number of bins", seq_len(q), b)
    c.ensure_eq("the first bin starts at the least number", lo(ZERO), -MAXF)
    c.ensure_eq("the last bin ends at the largest number", hi(P(b) - 1), MAXF)
    c.ensure("the first bin is not empty", lt(lo(ZERO), hi(ZERO)))
    c.ensure("the last bin is not empty", implies(le(2, b), lt(lo(P(b) - 1), hi(P(b) - 1))))
    c.ensure_all("the bins between are not empty", P(b) - 2, lambda k: lt(lo(k + 1), hi(k + 1)))
    c.ensure_all("bins are adjacent", P(b) - 1, lambda k: eq(hi(k), lo(k + 1)))


for kind, prop in ((CLS, "T01"), (REG, "T03")):
    for sparse in (False, True):
        contract(prop, "Bins::cut (%s, %s)" % ("sparse" if sparse else "dense", kind.strip("/")))(lambda c, kind=kind, sparse=sparse: cutting(c, kind, sparse))


# ---------------------------------------------------------------- split criteria
class Pack:
    """m bins, each with the total weight of every label in {-1, 1} in it"""
    def __init__(self, c):
        c.keys(-1, 1)
        m = self.m = c.len("m", 1)
        c.declared.update({"has_in", "wt_in", "lo", "hi"})
        c.gens["wt_in"] = lambda M, *a: abs(M.rng.gauss(0, 1))
        c.gens["has_in"] = lambda M, *a: True
        k = fresh("k"); y = fresh("y")
        c.assume(all_(m, lambda k: band(*[le(0, self.w(k, v)) for v in (-1, 1)])))
        # a label without an entry has no weight
        c.ev.assume(all_(m, lambda k: band(*[bor(T.bapp("has_in", [P(k), P(v)]), eq(self.w(k, v), 0)) for v in (-1, 1)])))
        t = c.tkey("Bin", CLS)
        has = band(bor(eq(P(y), -1), eq(P(y), 1)), T.bapp("has_in", [P(k), P(y)]))
        self.v = Seq([Seg(m, k, Tup([Struct(t, {"0": Rng(Num(self.lo(P(k)), "f"), Num(self.hi(P(k)), "f"), False)}),
                                     MapV(y, has, Num(self.w(P(k), P(y)), "f"), zero=True)]))])

    def w(self, k, y): return T.app("wt_in", (P(k), P(y)), "R")
    def lo(self, k): return T.app("lo", (P(k),), "R")
    def hi(self, k): return T.app("hi", (P(k),), "R")


def bin_split(c, fn, op, score, init, before=None):
    """the split found is a boundary of a bin with the best score, or none when no boundary is better than not splitting"""
    p = Pack(c); m = p.m
    sc = c.loop_name("score", score(c, p))
    none = init(c, p)
    if before is not None: before(c, p)
    r = c.call(fn, p.v)
    thr = c.num(c.get(r, "0")); best = c.num(c.get(r, "1"))
    b = optimum(c, thr, op, none, m, sc)
    better = (lambda x, y: le(y, x)) if op == "max" else (lambda x, y: le(x, y))
    c.ensure("not worse than not splitting", better(best.p, none))
    c.ensure_all("no boundary has a better score", m, lambda k: better(best.p, sc(k)))
    c.ensure("the threshold is a boundary with the best score, or below every value", band(le(-1, b), lt(b, m),
        implies(le(0, b), band(eq(thr.p, p.hi(b)), eq(best.p, sc(b)))), implies(lt(b, 0), band(eq(thr.p, -MAXF), eq(best.p, none)))))


def upto(f, k): return sum_(P(k), f) + f(P(k))


@contract("T01", "split_by_edge")
def _(c):
    bin_split(c, "split_by_edge", "max",
              lambda c, p: lambda k: T.absv(sum_(p.m, lambda j: p.w(j, 1) - p.w(j, -1)) - 2 * upto(lambda j: p.w(j, 1) - p.w(j, -1), k)),
              lambda c, p: T.absv(sum_(p.m, lambda j: p.w(j, 1) - p.w(j, -1))))


def bapps(b):
    if b.kind == "bapp": return [b]
    return [y for x in b.data if isinstance(x, T.B) for y in bapps(x)]


def known(c, p, x, y):
    """x, or an equal (proved) sum of the weights of the first bins or of the others"""
    if any(a.startswith("X") for a in T.apps_in(x)): return x       # not known yet
    if c.ev.binders and c.ev.binders[-1] in x.fv and any(v.data[0] == "has_in" for b in T.top_inds(x) for v in bapps(b)):
        k = P(c.ev.binders[-1])
        for q in (upto(lambda j: p.w(j, y), k), sum_(p.m, lambda j: p.w(j, y)) - upto(lambda j: p.w(j, y), k)):
            if PR.prove(eq(x, q), c.ev.ctx, 0, 2000): return q
    return x


def impurity(c, p, fn):
    """the impurity of a set of label weights, as an unknown function of the two weights (its own contract is below)"""
    c.declared.add("impurity")
    def imp(a, b): return T.app("impurity", (P(a), P(b)), "R")
    def stub(a):
        m = c.ev.rd(next(iter(a.values())))
        w = lambda y: (ONE if m.zero else T.ind(bsub(m.pres, {m.k: const(y)}))) * c.num(vsubst(m.val, {m.k: const(y)})).p
        return Num(imp(known(c, p, w(-1), -1), known(c, p, w(1), 1)), "f")
    c.stub_named(fn, stub, file=CLS)
    return imp


def weighted(fn):
    def score(c, p):
        imp = impurity(c, p, fn)
        c.assume(lt(0, sum_(p.m, lambda j: p.w(j, -1)) + sum_(p.m, lambda j: p.w(j, 1))))
        tot = sum_(p.m, lambda j: p.w(j, -1)) + sum_(p.m, lambda j: p.w(j, 1))
        L = lambda y: (lambda k: upto(lambda j: p.w(j, y), k))
        R = lambda y: (lambda k: sum_(p.m, lambda j: p.w(j, y)) - L(y)(k))
        def f(k):
            lp = (L(-1)(k) + L(1)(k)) * T.inv(tot)
            return lp * imp(L(-1)(k), L(1)(k)) + T.vmax(1 - lp, ZERO) * imp(R(-1)(k), R(1)(k))
        return f
    def init(c, p): return T.app("impurity", (sum_(p.m, lambda j: p.w(j, -1)), sum_(p.m, lambda j: p.w(j, 1))), "R")
    return score, init


@contract("T01", "split_by_entropy")
def _(c): bin_split(c, "split_by_entropy", "min", *weighted("entropic_impurity"))


def emptied(c, p, removed=True):
    """a map that starts with the total weights and loses a label when its last weight is taken away (or keeps all labels)"""
    c.assume(all_(p.m, lambda k: band(*[bor(bnot(T.bapp("has_in", [P(k), const(v)])), lt(0, p.w(k, v))) for v in (-1, 1)])))
    R = lambda y: (lambda k: sum_(p.m, lambda j: p.w(j, y)) - sum_(P(k), lambda j: p.w(j, y)))
    for v in (-1, 1):
        c.split_sum("the weight is split at every boundary", P(p.m) + 1, lambda k: k, lambda k: P(p.m), lambda j: p.w(j, v))
        c.lemma("weights add up to something not negative (%d)" % v, all_(P(p.m) + 1, lambda k: le(0, sum_(P(k), lambda j: p.w(j, v)))))
        c.induct("a label has at least the weight of each of its entries (%d)" % v, p.m,
                 lambda k: T.forall(t := fresh("t"), P(k), le(p.w(P(t), v), sum_(P(k), lambda j: p.w(j, v)))))
        c.lemma("a label has at least the weight of each of its entries (all, %d)" % v, all_(p.m, lambda k: le(p.w(k, v), sum_(p.m, lambda j: p.w(j, v)))))
        c.lemma("a label with an entry has weight (%d)" % v, all_(p.m, lambda k: implies(T.bapp("has_in", [P(k), const(v)]), lt(0, sum_(p.m, lambda j: p.w(j, v))))))
        c.lemma("what remains is not negative (%d)" % v, all_(P(p.m) + 1, lambda k: le(0, R(v)(k))))
    c.guess_map(lambda k, y: bor(*[band(eq(y, v), lt(0, R(v)(k if removed else ZERO))) for v in (-1, 1)]),
                lambda k, y: sum((T.ind(eq(y, v)) * R(v)(k) for v in (-1, 1)), ZERO))


@contract("T01", "split_by_gini")
def _(c): bin_split(c, "split_by_gini", "min", *weighted("gini_impurity"), before=emptied)


def label_weights(c, nm):
    """a map from labels in {-1, 1} to weights"""
    c.keys(-1, 1)
    y = fresh("y"); c.declared.update({"in_" + nm, "of_" + nm})
    T.absent["of_" + nm] = "in_" + nm
    c.gens["of_" + nm] = lambda M, *a: abs(M.rng.gauss(0, 1)); c.gens["in_" + nm] = lambda M, *a: True
    f = lambda v: T.app("of_" + nm, (P(v),), "R")
    for v in (-1, 1):
        c.assume(le(0, f(v))); c.assume(bor(T.bapp("in_" + nm, [const(v)]), eq(f(v), 0)))
    return MapV(y, band(bor(eq(P(y), -1), eq(P(y), 1)), T.bapp("in_" + nm, [P(y)])), Num(f(P(y)), "f"), zero=True), f


@contract("T01", "gini_impurity")
def _(c):
    m, w = label_weights(c, "g"); t = w(-1) + w(1)
    r = c.call("gini_impurity", m, file=CLS)
    c.ensure("nothing has no impurity", implies(eq(t, 0), eq(r.p, 0)))
    c.ensure("1 - sum of squared shares", implies(lt(0, t), eq(r.p, 1 - w(-1) ** 2 * T.inv(t) ** 2 - w(1) ** 2 * T.inv(t) ** 2)))


@contract("T01", "entropic_impurity")
def _(c):
    m, w = label_weights(c, "e"); t = w(-1) + w(1)
    r = c.call("entropic_impurity", m, file=CLS)
    h = lambda v: T.ite(lt(0, w(v)), -(w(v) * T.inv(t)) * T.ln(w(v) * T.inv(t)), ZERO)
    c.ensure("nothing has no impurity", implies(eq(t, 0), eq(r.p, 0)))
    c.ensure("entropy of the shares", implies(lt(0, t), eq(r.p, h(-1) + h(1))))


def twoing(wl, wr):
    pl, pr = wl(-1) + wl(1), wr(-1) + wr(1)
    d = lambda v: T.absv(wl(v) * T.inv(pl) - wr(v) * T.inv(pr))
    return band(lt(0, pl), lt(0, pr)), (d(-1) + d(1)) ** 2 * pl * pr * T.inv(2 * (pl + pr)) ** 2


@contract("T01", "twoing_score")
def _(c):
    l, wl = label_weights(c, "l"); r, wr = label_weights(c, "r")
    y = fresh("y")
    # every label that has an entry on either side
    labels = MapV(y, bor(bsub(l.pres, {l.k: P(y)}), bsub(r.pres, {r.k: P(y)})), UNIT)
    s = c.call("twoing_score", labels, l, r, file=CLS)
    both, score = twoing(wl, wr)
    c.ensure("no score when a side is empty", implies(bnot(both), eq(s.p, 0)))
    c.ensure("the twoing rule", implies(both, eq(s.p, score)))



# ---------------------------------------------------------------- the best column
def best_column(c, s, call, pack_args, scorer, result, op):
    """the column returned has the best score of its own rows, bins and threshold among all columns;
    binning and the scan of one column are opaque here (their contracts are above)"""
    c.declared.update({"binsof", "packof", "scoreof", "cutof"})
    k = fresh("key", "S")
    bins = MapV(k, T.bapp("hascol", [P(k)]), Opq("Bins", T.app("binsof", (P(k),), "Bins")))
    seen = []
    def pack(ev, a):
        a = [ev.rd(x) for x in a]
        col = a[2]
        col = ev.rd(col.xs[0]) if isinstance(col, Enum) else col
        seen.append((a, list(ev.binders)))
        return Opq("Pack", T.app("packof", (a[0].p, c.get(col, "name").p), "Pack"))
    c.stub(("Bins", "pack"), pack)
    score = lambda q: T.app("scoreof", (q,), "R"); cut = lambda q: T.app("cutof", (q,), "R")
    def scan(a):
        q = c.ev.rd(a["pack"]).p
        return result(Num(score(q), "f"), Num(cut(q), "f"))
    c.stub_named(scorer, scan)
    r = call(bins)
    f = c.get(r, "0").p; thr = c.num(c.get(r, "1")).p
    own = lambda name: T.app("packof", (T.app("binsof", (name,), "Bins"), name), "Pack")
    name = lambda j: T.app("colname", (P(j),), "S")
    better = (lambda x, y: le(y, x)) if op == "max" else (lambda x, y: le(x, y))
    c.ensure("every column is binned with the same rows and weights", band(*[c.ev.equal(x, y) for a, _ in seen for x, y in zip([a[1]] + a[3:], pack_args)]))
    c.ensure("a column of the sample", T.exists(j := fresh("j"), s.d, str_eq(f, name(j))))
    c.ensure_eq("the threshold is the one found for that column", thr, cut(own(f)))
    c.ensure_all("no column has a better score", s.d, lambda j: better(score(own(f)), score(own(name(j)))))


for variant, scorer, op in (("Entropy", "split_by_entropy", "min"), ("Edge", "split_by_edge", "max"), ("Gini", "split_by_gini", "min"), ("Twoing", "split_by_twoing", "max")):
    @contract("T01", "Criterion::best_split (%s)" % variant)
    def _(c, variant=variant, scorer=scorer, op=op):
        n = c.len("n", 1); s = Table(c, n); d = c.reals("dist", n, nonneg=True)
        m = c.len("m", 1); rows = c.opq("rows", "Rows")
        best_column(c, s, lambda bins: c.call("Criterion::best_split", c.enum("Criterion", variant), bins, s.v, d, rows),
                    [rows, s.y, d], scorer, lambda score, cut: Tup([cut, Struct(c.tkey("Score"), {"0": score})]), op)


@contract("T03", "best_split (regression tree)")
def _(c):
    n = c.len("n", 1); s = Table(c, n); g = c.reals("gradient", n); h = c.reals("hessian", n)
    rows = c.opq("rows", "Rows"); lam = c.real("lambda", lo=0)
    W = lambda t, v: Struct(c.tkey(t), {"0": v})
    best_column(c, s, lambda bins: c.call("best_split", bins, s.v, g, h, rows, lam, file=REG),
                [rows, g, h], "best_split_at", lambda score, cut: Tup([W("LossValue", score), W("Threshold", cut)]), "max")
