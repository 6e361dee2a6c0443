from contract import *

F = "feature_struct"


def dense(c, n, x, name="f"):
    return c.enum("Feature", "Dense", c.struct("DenseFeature", name=name, over={"sample": x}))


def stats(c, f):
    return lambda m, *a: c.call("Feature::" + m, f, *a)


def wsum(c, n, w, y, t): return sum_(n, lambda i: c.at(w, i) * T.ind(eq(c.at(t, i), y)))


TINY = const(Fraction(1, 10 ** 100))


@contract("D01", "Feature::weighted_mean (dense)")
def _(c):
    n = c.len("n", 1); w = c.dist("w", n, pos=False); x = c.reals("x", n)
    c.assume(all_(n, lambda i: le(c.at(w, i), 1)))
    f = dense(c, n, x)
    c.ensure_eq("mean is sum w x", c.call("Feature::weighted_mean", f, w), sum_(n, lambda i: c.at(w, i) * c.at(x, i)))
    r = c.call("Feature::weighted_mean_and_variance", f, w)
    mu = sum_(n, lambda i: c.at(w, i) * c.at(x, i))
    c.ensure_eq("variance is sum w (x - mean)^2", c.get(r, 1), sum_(n, lambda i: c.at(w, i) * (c.at(x, i) - mu) * (c.at(x, i) - mu)))
    c.ensure_eq("mean of the pair", c.get(r, 0), mu)


def by_label(c, n, y, t, w, x, r_mean, r_pair):
    tot = wsum(c, n, w, y, t)
    den = T.ite(eq(tot, 0), TINY, tot)
    m = sum_(n, lambda i: c.at(w, i) * c.at(x, i) * T.ind(eq(c.at(t, i), y))) * T.inv(den)
    c.ensure_eq("class-conditional mean", r_mean, m)
    c.ensure_eq("mean of the pair", c.get(r_pair, 0), m)
    mm = c.get(r_pair, 0).p
    c.ensure_eq("class-conditional variance", c.get(r_pair, 1), sum_(n, lambda i: c.at(w, i) * (c.at(x, i) - mm) * (c.at(x, i) - mm) * T.ind(eq(c.at(t, i), y))) * T.inv(den))


@contract("D01", "Feature::weighted_mean_for_label (dense)")
def _(c):
    n = c.len("n", 1); w = c.reals("w", n, nonneg=True); x = c.reals("x", n); t = c.reals("t", n, pm1=True); y = c.real("y")
    f = dense(c, n, x)
    by_label(c, n, y, t, w, x, c.call("Feature::weighted_mean_for_label", f, y, t, w), c.call("Feature::weighted_mean_and_variance_for_label", f, y, t, w))


class Sparse:
    """a sparse feature with m strictly increasing entries out of n, and its dense expansion x"""
    def __init__(self, c, n):
        self.c = c; self.n = n
        m = self.m = c.len("m")
        self.idx = idx = lambda k: T.app("idx", (P(k),), "I")
        self.v = v = lambda k: T.app("v", (P(k),), "R")
        self.xf = x = lambda i: T.app("x", (P(i),), "R")
        k = fresh("k"); t = fresh("t")
        # where the search for entry k starts: behind entry k - 1 (the entry before the first is put at -1)
        self.start = start = lambda k: idx(P(k) - 1) + 1
        c.assume(eq(idx(-1), -1))
        c.ev.loop_values.append(start)
        c.assume(le(m, n))
        c.assume(all_(m, lambda k: band(le(start(k), idx(k)), lt(idx(k), n))))
        c.assume(all_(m, lambda k: le(0, idx(k))))
        c.assume(all_(m, lambda k: eq(x(idx(k)), v(k))))
        # between two consecutive entries, and after the last one, the values are zero
        c.assume(all_(m, lambda k: all_(idx(k), lambda t: implies(le(start(k), t), eq(x(t), 0)))))
        c.assume(all_(n, lambda t: implies(le(start(m), t), eq(x(t), 0))))
        c.assume(le(start(m), n))
        kk = fresh("k")
        self.seq = Seq([Seg(m, kk, Tup([Num(idx(kk), "u"), Num(v(kk), "f")]))])
        self.x = Seq([Seg(P(n), t, Num(x(t), "f"))])
        self.feature = c.enum("Feature", "Sparse", c.struct("SparseFeature", name="s", over={"sample": self.seq, "n_sample": Num(n, "u")}))
        def tab(M):
            key = ("$idx",)
            if key not in M.t:
                N_, m_ = int(PR.ev(P(n), M, {})), int(PR.ev(m, M, {}))
                ix = sorted(M.rng.sample(range(N_), m_)) if m_ <= N_ else None
                M.t[key] = (ix, N_, m_)
            return M.t[key]
        self.tab = tab
        def gi(M, k):
            ix = tab(M)[0]
            if ix is None: raise PR.Undefined()
            return ix[k] if 0 <= k < len(ix) else -1 if k == -1 else 0
        def gx(M, t):
            ix = tab(M)[0]
            if ix is None or t not in ix: return 0.0
            return M.app("v", (ix.index(t),), "R")
        c.gens["idx"] = gi; c.gens["x"] = gx

    def split(self, label, f):
        """sum over all examples = sum over the entries + sum over the zeros"""
        c = self.c
        g = lambda t: f(t, self.xf(t)) - f(t, ZERO)
        c.extend_sum(label + ": nothing before an entry", self.m, self.start, self.idx, g)
        c.extend_sum(label + ": nothing after the last", const(1), lambda k: self.start(self.m), lambda k: self.n, g)
        def inv(k):
            return eq(sum_(self.start(k), lambda t: f(t, self.xf(t))) - sum_(k, lambda j: f(self.idx(j), self.v(j))),
                      sum_(self.start(k), lambda t: f(t, ZERO)) - sum_(k, lambda j: f(self.idx(j), ZERO)))
        c.induct(label, self.m, inv)
        tail = eq(sum_(self.n, lambda t: f(t, self.xf(t))) - sum_(self.start(self.m), lambda t: f(t, self.xf(t))),
                  sum_(self.n, lambda t: f(t, ZERO)) - sum_(self.start(self.m), lambda t: f(t, ZERO)))
        c.lemma(label + " (tail)", tail)


@contract(("D01", "D02"), "Feature::weighted_mean (sparse)")
def _(c):
    n = c.len("n", 1); w = c.dist("w", n, pos=False)
    c.assume(all_(n, lambda i: le(c.at(w, i), 1)))
    s = Sparse(c, n)
    d = dense(c, n, s.x)
    a = c.call("Feature::weighted_mean", s.feature, w)
    b = c.call("Feature::weighted_mean", d, w)
    s.split("mean split", lambda t, x: c.at(w, t) * x)
    c.ensure_eq("sparse mean = dense mean", a, b)


def gaps(s, label, f):
    """the sum over all examples = the sum over the gaps between entries + the sum over the entries"""
    c = s.c
    c.split_sum(label + " (gap)", s.m, s.start, s.idx, f)
    c.split_sum(label + " (last gap)", const(1), lambda k: s.start(s.m), lambda k: s.n, f)
    c.induct(label, s.m, lambda k: eq(sum_(s.start(k), f), sum_(k, lambda j: f(s.idx(j))) + sum_(k, lambda j: sum_(s.idx(j) - s.start(j), lambda u: f(s.start(j) + u)))))


@contract(("D01", "D02"), "Feature::weighted_mean_and_variance (sparse)")
def _(c):
    n = c.len("n", 1); w = c.dist("w", n, pos=False)
    c.assume(all_(n, lambda i: le(c.at(w, i), 1)))
    s = Sparse(c, n)
    mu = c.real("mu"); W = lambda t: c.at(w, t)
    c.stub(("Feature", "weighted_mean"), lambda ev, a: Num(mu, "f"))
    b = c.call("Feature::weighted_mean_and_variance", dense(c, n, s.x), w)
    a = c.call("Feature::weighted_mean_and_variance", s.feature, w)
    gaps(s, "weights", W)
    s.split("variance split", lambda t, x: W(t) * (x - mu) * (x - mu))
    c.ensure_eq("sparse variance = dense variance", c.get(a, 1), c.get(b, 1))


@contract(("D01", "D02"), "Feature::weighted_mean_and_variance_for_label (sparse)")
def _(c):
    n = c.len("n", 1); w = c.reals("w", n, nonneg=True); t = c.reals("t", n, pm1=True); y = c.real("y")
    s = Sparse(c, n)
    mu = c.real("mu"); W = lambda i: c.at(w, i) * T.ind(eq(c.at(t, i), y))
    c.stub(("Feature", "weighted_mean_for_label"), lambda ev, a: Num(mu, "f"))
    b = c.call("Feature::weighted_mean_and_variance_for_label", dense(c, n, s.x), y, t, w)
    a = c.call("Feature::weighted_mean_and_variance_for_label", s.feature, y, t, w)
    gaps(s, "weights of the class", W)
    s.split("variance split", lambda i, x: W(i) * (x - mu) * (x - mu))
    c.ensure_eq("sparse class-conditional variance = dense", c.get(a, 1), c.get(b, 1))


@contract(("D01", "D02"), "Feature::weighted_mean_for_label (sparse)")
def _(c):
    n = c.len("n", 1); w = c.reals("w", n, nonneg=True); t = c.reals("t", n, pm1=True); y = c.real("y")
    s = Sparse(c, n)
    W = lambda i: c.at(w, i) * T.ind(eq(c.at(t, i), y))
    b = c.call("Feature::weighted_mean_for_label", dense(c, n, s.x), y, t, w)
    a = c.call("Feature::weighted_mean_for_label", s.feature, y, t, w)
    s.split("mean split", lambda i, x: W(i) * x)
    c.ensure_eq("sparse class-conditional mean = dense", a, b)


@contract("D02", "Feature::index (sparse)")
def _(c):
    n = c.len("n", 1); s = Sparse(c, n)
    i = c.index("i", n)
    pos = lambda t: T.app("pos", (P(t),), "I")
    c.assume(all_(n, lambda t: bor(eq(s.xf(t), 0), band(le(0, pos(t)), lt(pos(t), s.m), eq(s.idx(pos(t)), t)))))      # the same expansion, by its entries
    c.gens["pos"] = lambda M, t: (s.tab(M)[0] or []).index(t) if t in (s.tab(M)[0] or []) else 0
    c.induct("entries are in increasing order", s.m, lambda k: all_(k, lambda j: le(s.idx(j), s.idx(k - 1))))
    r = c.call("Feature::index", s.feature, i)
    c.ensure_eq("value of the dense expansion", r, s.xf(i))
