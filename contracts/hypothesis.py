from contract import *


def hyps(c, n, name="h"):
    return c.opqs(name, n, "H")


def absum(c, n, w): return sum_(n, lambda i: T.absv(c.at(w, i)))


@contract(("E01", "A11"), "utils::normalize")
def _(c):
    n = c.len("n"); w = c.reals("w", n)
    c.assume(bnot(eq(absum(c, n, w), 0)))
    cell = c.cell(w)
    c.call("normalize", cell, file="common/utils")
    c.ensure_seq("w_i / sum |w|", cell, n, lambda i: c.at(w, i) * T.inv(absum(c, n, w)))


@contract("E01", "WeightedMajority::normalize")
def _(c):
    n = c.len("n"); w = c.reals("w", n); h = hyps(c, n)
    c.assume(bnot(eq(absum(c, n, w), 0)))
    s = c.cell(c.struct("WeightedMajority", over={"weights": w, "hypotheses": h}))
    c.call("WeightedMajority::normalize", s)
    c.ensure_seq("weights", c.get(s, "weights"), n, lambda i: c.at(w, i) * T.inv(absum(c, n, w)))
    c.ensure_seq("members unchanged", c.get(s, "hypotheses"), n, lambda i: c.at(h, i))


@contract("E01", "WeightedMajority::push")
def _(c):
    n = c.len("n"); w = c.reals("w", n); h = hyps(c, n); a = c.real("a"); g = c.opq("g", "H")
    s = c.cell(c.struct("WeightedMajority", over={"weights": w, "hypotheses": h}))
    c.call("WeightedMajority::push", s, a, g)
    c.ensure_seq("weights", c.get(s, "weights"), n + 1, lambda i: T.ite(lt(i, n), c.at(w, i), a))
    q = c.get(s, "hypotheses")
    c.ensure_eq("one more member", seq_len(q), n + 1)
    c.ensure_all("earlier members kept", n, lambda i: T.eqo(c.at(q, i), c.at(h, i)))
    c.ensure("new member last", T.eqo(c.at(q, n), g.p))


@contract("E01", "WeightedMajority::decompose")
def _(c):
    n = c.len("n"); w = c.reals("w", n); h = hyps(c, n)
    r = c.call("WeightedMajority::decompose", c.struct("WeightedMajority", over={"weights": w, "hypotheses": h}))
    c.ensure_seq("weights", c.get(r, 0), n, lambda i: c.at(w, i))
    c.ensure_seq("members", c.get(r, 1), n, lambda i: c.at(h, i))


@contract(("E01", "E02"), "WeightedMajority::confidence")
def _(c):
    n = c.len("n"); w = c.reals("w", n); h = hyps(c, n); S = c.sample(); i = c.index("row", c.get(S, "n_sample").p)
    m = c.struct("WeightedMajority", over={"weights": w, "hypotheses": h})
    x = c.call("WeightedMajority::confidence", m, S, Num(i, "u"), trait="Classifier")
    c.ensure_eq("sum of weight times confidence", x, sum_(n, lambda t: c.at(w, t) * conf(c.at(h, t), the_id(S), i)))


@contract("E01", "WeightedMajority::predict (regressor)")
def _(c):
    n = c.len("n"); w = c.reals("w", n); h = c.opqs("h", n, "HR"); S = c.sample(binary=False); i = c.index("row", c.get(S, "n_sample").p)
    m = c.struct("WeightedMajority", over={"weights": w, "hypotheses": h})
    x = c.call("WeightedMajority::predict", m, S, Num(i, "u"), trait="Regressor")
    c.ensure_eq("sum of weight times prediction", x, sum_(n, lambda t: c.at(w, t) * T.app("rpred", (c.at(h, t), the_id(S), i), "R")))


@contract("E01", "WeightedMajority::from_slices (no zero weight)")
def _(c):
    n = c.len("n", 1); w = c.reals("w", n, nonzero=True); h = hyps(c, n)
    c.assume(bnot(eq(absum(c, n, w), 0)))
    m = c.call("WeightedMajority::from_slices", w, h)
    c.ensure_seq("weights", c.get(m, "weights"), n, lambda i: c.at(w, i) * T.inv(absum(c, n, w)))
    c.ensure_seq("members", c.get(m, "hypotheses"), n, lambda i: c.at(h, i))


@contract("E01", "WeightedMajority::from_slices")
def _(c):
    n = c.len("n", 1); w = c.reals("w", n); h = hyps(c, n); S = c.sample(); i = c.index("row", c.get(S, "n_sample").p)
    c.assume(bnot(eq(absum(c, n, w), 0)))
    m = c.call("WeightedMajority::from_slices", w, h)
    nz = lambda t: bnot(eq(c.at(w, t), 0))
    c.ensure_filtered("weights of the non-zero inputs, scaled", c.get(m, "weights"), n, nz, lambda t: c.at(w, t) * T.inv(absum(c, n, w)))
    c.ensure_filtered("members of the non-zero inputs", c.get(m, "hypotheses"), n, nz, lambda t: c.at(h, t))
    x = c.call("WeightedMajority::confidence", m, S, Num(i, "u"), trait="Classifier")
    c.ensure_eq("confidence is the normalised vote of all inputs", x, sum_(n, lambda t: c.at(w, t) * conf(c.at(h, t), the_id(S), i)) * T.inv(absum(c, n, w)))


# ------------------------------------------------------------------ traits
@contract("E02", "Classifier::predict")
def _(c):
    h = c.opq("h", "H"); S = c.sample(); i = c.index("row", c.get(S, "n_sample").p)
    p = c.call("Classifier::predict", h, S, Num(i, "u"))
    x = conf(h.p, the_id(S), i)
    c.ensure_eq("+1 iff confidence >= 0", p, T.ite(le(0, x), const(1), const(-1)))


@contract("E02", "Classifier::confidence_all")
def _(c):
    h = c.opq("h", "H"); S = c.sample(); n = c.get(S, "n_sample").p
    c.ensure_seq("row by row", c.call("Classifier::confidence_all", h, S), n, lambda i: conf(h.p, the_id(S), i))


@contract("E02", "Classifier::predict_all")
def _(c):
    h = c.opq("h", "H"); S = c.sample(); n = c.get(S, "n_sample").p
    c.ensure_seq("row by row", c.call("Classifier::predict_all", h, S), n, lambda i: T.ite(le(0, conf(h.p, the_id(S), i)), const(1), const(-1)))


@contract("E02", "Regressor::predict_all")
def _(c):
    h = c.opq("h", "HR"); S = c.sample(binary=False); n = c.get(S, "n_sample").p
    c.ensure_seq("row by row", c.call("Regressor::predict_all", h, S), n, lambda i: T.app("rpred", (h.p, the_id(S), i), "R"))
