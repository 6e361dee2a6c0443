"""Gaussian naive Bayes (property N01)."""
from contract import *


def cells(c):
    """the cell of a feature at a row, as the sample stores it (its storage forms: D02)"""
    c.declared.add("cell")
    c.stub(("Feature", "index"), lambda ev, a: Num(T.app("cell", (P(a[0].p), P(ev.rd(a[1]).p)), "R"), "f"))
    return lambda f, i: T.app("cell", (P(f), P(i)), "R")


def features(c, S, nf):
    c.assume(eq(seq_len(c.get(S, "features")), nf))
    return lambda j: c.at(c.get(S, "features"), j)


def density(c, nm, nf):
    """a density over nf features, given by its means and (positive) variances"""
    mu = c.reals(nm + ".mean", nf); va = c.reals(nm + ".var", nf, pos=True)
    return c.struct("Gaussian", name=nm, over={"means": mu, "vars": va}), mu, va


def log_density(c, nf, mu, va, x):
    pi = T.var("PI", "R")
    return -const(Fraction(1, 2)) * (nf * T.ln(2 * pi) + sum_(nf, lambda j: (x(j) - mu(j)) * (x(j) - mu(j)) * T.inv(va(j)) + T.ln(va(j))))


@contract("N01", "Gaussian::log_probability")
def _(c):
    nf = c.len("nf", 1); S = c.sample(); i = c.index("row", c.get(S, "n_sample").p)
    g, mu, va = density(c, "g", nf); cell = cells(c); F = features(c, S, nf)
    r = c.call("Gaussian::log_probability", g, S, Num(i, "u"), trait="Probability")
    want = log_density(c, nf, lambda j: c.at(mu, j), lambda j: c.at(va, j), lambda j: cell(F(j), i))
    c.ensure_eq("log of the product of normal densities", r, want)
    c.ensure_eq("density", c.call("Probability::probability", g, S, Num(i, "u")), T.exp(r.p))


def logp(c):
    """log_probability by its contract: a number per density and row"""
    c.declared.add("logp")
    c.stub(("Dens", "log_probability"), lambda ev, a: (c.ensure("the given sample", T.eqo(the_id(ev.rd(a[1])), a_S), ev.ctx), Num(T.app("logp", (ev.rd(a[0]).p, ev.rd(a[2]).p), "R"), "f"))[1])


def best_position(c, p, n, score):
    """the position the answer was read from: a running maximum (proved here), or an argmax of the library"""
    xs = [a for a in T.all_atoms(p, []) if a.kind in ("app", "var") and a.data[0].split("!")[0] in ("last", "argmax", "argmin", "sort")]
    if not xs: return ZERO
    a = xs[0]
    if not a.data[0].startswith("last!"): return P(a)
    L = lambda k: T.app(a.data[0], tuple(a.data[1][:-1]) + (P(k),), "I")
    pos = lambda k: T.ite(le(0, L(k)), L(k) + 1, ZERO)
    run = lambda k: T.fold("max", (i := fresh("i")), P(k), score(P(i) + 1), score(ZERO))
    c.induct("the running best score is the score of the kept position", n - 1, lambda k: band(le(-1, L(k)), lt(L(k), k), eq(run(k), score(pos(k)))))
    return pos(n - 1)


@contract("N01", "NBayesClassifier::confidence")
def _(c):
    S = c.sample(); i = c.index("row", c.get(S, "n_sample").p); K = c.len("K", 1)
    c.declared.add("logp")
    def lp(ev, a):
        c.ensure("densities are evaluated on the given row", band(T.eqo(the_id(ev.rd(a[1])), the_id(S)), eq(ev.rd(a[2]).p, i)), ev.ctx)
        return Num(T.app("logp", (ev.rd(a[0]).p,), "R"), "f")
    c.stub(("Dens", "log_probability"), lp)
    lab = c.reals("label", K); prior = c.reals("prior", K, nonneg=True); den = c.opqs("density", K, "Dens"); al = c.opq("all", "Dens")
    k = fresh("k")
    conds = Seq([Seg(K, k, Tup([seq_get(lab, P(k)), seq_get(prior, P(k)), seq_get(den, P(k))]))])
    h = c.struct("NBayesClassifier", name="h", over={"conditionals": conds, "density": al})
    L = lambda d: T.app("logp", (d,), "R")
    post = c.define_seq("post", K, lambda k: c.at(prior, k) * T.exp(L(c.at(den, k)) - L(al.p)))
    r = c.call("NBayesClassifier::probabilities", h, S, Num(i, "u"))
    c.ensure_eq("one posterior per label", seq_len(r), K)
    c.ensure_all("label", K, lambda k: eq(c.get(seq_get(r, k), 0).p, c.at(lab, k)))
    c.ensure_all("posterior is prior times the likelihood ratio", K, lambda k: eq(c.get(seq_get(r, k), 1).p, post(k)))
    r = c.call("NBayesClassifier::confidence", h, S, Num(i, "u"), trait="Classifier")
    best = best_position(c, r.p, K, post)
    c.ensure("answers one of the labels", band(le(0, best), lt(best, K), eq(r.p, c.at(lab, best))))
    c.ensure_all("no label has a larger posterior", K, lambda k: le(post(k), post(best)))


@contract("N01", "GaussianNB::produce")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p; d = c.dist("d", n, pos=False); nf = c.len("nf", 1); K = c.len("K", 1)
    lab = c.reals("label", K)
    for s in ("total", "mean_of", "var_of", "mean", "var"): c.declared.add(s)
    c.gens["total"] = lambda M, y: M.rng.uniform(0, 1)
    def shown(ev, s, q, what):
        c.ensure(what + ": on the sample", T.eqo(the_id(ev.rd(s)), the_id(S)), ev.ctx)
        k = fresh("k"); c.ensure(what + ": under the distribution", T.forall(k, n, eq(c.at(ev.rd(q), P(k)), c.at(d, P(k)))), ev.ctx)
    c.stub(("Sample", "unique_target"), lambda ev, a: lab)
    tot = lambda y: T.app("total", (P(y),), "R")
    def total(ev, a):
        k = fresh("k")
        c.ensure("class weight: of the targets", T.forall(k, n, eq(c.at(ev.rd(a[1]), P(k)), c.at(c.get(S, "target"), P(k)))), ev.ctx)
        c.ensure("class weight: under the distribution", T.forall(k, n, eq(c.at(ev.rd(a[2]), P(k)), c.at(d, P(k)))), ev.ctx)
        y = ev.rd(a[0]).p
        ev.assume(le(0, tot(y)), le(tot(y), 1))
        return Num(tot(y), "f")
    c.stub((None, "total_weight_for_label"), total)
    def of_label(ev, a):
        shown(ev, a[0], a[2], "class-conditional statistics")
        y = ev.rd(a[1]).p; k = fresh("k")
        return Seq([Seg(nf, k, Tup([Num(T.app("mean_of", (y, P(k)), "R"), "f"), Num(T.app("var_of", (y, P(k)), "R"), "f")]))])
    c.stub(("Sample", "weighted_mean_and_variance_for_label"), of_label)
    def overall(ev, a):
        shown(ev, a[0], a[1], "statistics"); k = fresh("k")
        return Seq([Seg(nf, k, Tup([Num(T.app("mean", (P(k),), "R"), "f"), Num(T.app("var", (P(k),), "R"), "f")]))])
    c.stub(("Sample", "weighted_mean_and_variance"), overall)
    r = c.call("GaussianNB::produce", c.struct("GaussianNB", name="W"), S, d, trait="WeakLearner")
    q = c.get(r, "conditionals")
    c.ensure_eq("one entry per label", seq_len(q), K)
    at = lambda k, *f: c.get(seq_get(q, k), *f)
    c.ensure_all("the label", K, lambda k: eq(at(k, 0).p, c.at(lab, k)))
    c.ensure_all("its total weight as prior", K, lambda k: eq(at(k, 1).p, tot(c.at(lab, k))))
    k = fresh("k"); j = fresh("j")
    for f, s in (("means", "mean_of"), ("vars", "var_of")):
        c.ensure_all("per-label %s: one per feature" % f, K, lambda k: eq(seq_len(at(k, 2, f)), nf))
        c.ensure("per-label %s" % f, T.forall(k, K, T.forall(j, nf, eq(c.at(at(P(k), 2, f), P(j)), T.app(s, (c.at(lab, k), P(j)), "R")))))
    for f, s in (("means", "mean"), ("vars", "var")):
        c.ensure_seq("overall %s" % f, c.get(r, "density", f), nf, lambda j: T.app(s, (j,), "R"))
