"""common/utils.rs: edges, margins, distributions from margins"""
from contract import *
from lib_utils import *


BOOSTERS = ("A06", "A07", "A08", "A09", "A10", "A11")


@contract(BOOSTERS, "utils::margins_of_hypothesis and edge_of_hypothesis")
def _(c):
    S, n, m, w, hs = world(c); h = c.opq("h", "H"); d = c.reals("d", n)
    g = margin_of(c, S, h.p)
    c.ensure_seq("margin y h(x)", c.call("margins_of_hypothesis", S, h, file=U), n, g)
    c.ensure_eq("edge = sum d y h(x)", c.call("edge_of_hypothesis", S, d, h, file=U), sum_(n, lambda i: c.at(d, i) * g(i)))


@contract(BOOSTERS, "utils::margins_of_weighted_hypothesis and edge_of_weighted_hypothesis")
def _(c):
    S, n, m, w, hs = world(c); d = c.reals("d", n)
    g = combined_margin(c, S, m, lambda t: c.at(w, t), hs)
    c.ensure_seq("margin y f(x)", c.call("margins_of_weighted_hypothesis", S, w, hs, file=U), n, g)
    c.ensure_eq("edge = sum d y f(x)", c.call("edge_of_weighted_hypothesis", S, d, w, hs, file=U), sum_(n, lambda i: c.at(d, i) * g(i)))


@contract(("A06", "A09", "A10", "A11"), "utils::log_exp_distribution")
def _(c):
    S, n, m, w, hs = world(c); eta = c.real("eta")
    r = c.call("log_exp_distribution", eta, S, w, hs, file=U)
    g = combined_margin(c, S, m, lambda t: c.at(w, t), hs)
    c.ensure_seq("-eta y f(x)", r, n, lambda i: -eta * g(i))


@contract(("A06", "A11"), "utils::exp_distribution")
def _(c):
    S, n, m, w, hs = world(c); eta = c.real("eta"); nu = c.real("nu")
    seen = []; projection(c, seen)
    r = c.call("exp_distribution", eta, nu, S, w, hs, file=U)
    g = combined_margin(c, S, m, lambda t: c.at(w, t), hs)
    c.ensure("projected once", bconst(len(seen) == 1))
    for v, q in seen:
        c.ensure_eq("onto the simplex capped at 1/nu", v, nu)
        c.ensure_seq("what is projected: -eta y f(x)", q, n, lambda i: -eta * g(i))
    c.ensure_seq("the projection is returned", r, n, lambda i: T.app("proj1", (i,), "R"))


@contract(("A06", "A10", "A11"), "utils::exp_distribution_from_margins")
def _(c):
    n = c.len("n", 1); q = c.reals("q", n); eta = c.real("eta"); nu = c.real("nu")
    seen = []; projection(c, seen)
    r = c.call("exp_distribution_from_margins", eta, nu, q, file=U)
    c.ensure("projected once", bconst(len(seen) == 1))
    for v, x in seen:
        c.ensure_eq("onto the simplex capped at 1/nu", v, nu)
        c.ensure_seq("what is projected: -eta margin", x, n, lambda i: -eta * c.at(q, i))
    c.ensure_seq("the projection is returned", r, n, lambda i: T.app("proj1", (i,), "R"))


@contract(("A09", "A10", "A11"), "utils::inner_product")
def _(c):
    n = c.len("n"); a = c.reals("a", n); b = c.reals("b", n)
    c.ensure_eq("sum a b", c.call("inner_product", a, b, file=U), sum_(n, lambda i: c.at(a, i) * c.at(b, i)))


@contract(("A07", "A09", "A11"), "utils::entropy and entropy_from_uni_distribution")
def _(c):
    n = c.len("n", 1); d = c.reals("d", n, nonneg=True)
    e = sum_(n, lambda i: T.ite(eq(c.at(d, i), 0), ZERO, c.at(d, i) * T.ln(c.at(d, i))))
    c.ensure_eq("sum d ln d, 0 ln 0 = 0", c.call("entropy", d, file=U), e)
    c.ensure_eq("relative to the uniform distribution", c.call("entropy_from_uni_distribution", d, file=U), e + T.ln(n))


@contract(("D01", "N01"), "utils::total_weight_for_label")
def _(c):
    n = c.len("n"); y = c.reals("y", n); d = c.reals("d", n); v = c.real("v")
    c.ensure_eq("total weight of the label", c.call("total_weight_for_label", v, y, d, file=U), sum_(n, lambda i: T.ite(eq(c.at(y, i), v), c.at(d, i), ZERO)))
