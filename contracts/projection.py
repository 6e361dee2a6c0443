"""common/utils.rs: the projection of an exponential distribution onto the capped simplex"""
from contract import *
from lib_utils import *


@contract("A06", "utils::project_log_distribution_to_capped_simplex")
def _(c):
    n = c.len("n", 1); x = c.reals("x", n); nu = c.real("nu", lo=1); c.assume(le(nu, n))
    c.stub((None, "check_capped_simplex_condition"), lambda ev, a: UNIT)
    r = c.call("project_log_distribution_to_capped_simplex", nu, x, file=U)
    c.ensure_eq("one entry per score", seq_len(r), n)
    c.ensure_all("non-negative", n, lambda i: le(0, c.at(r, i)))
    c.ensure_all("at most 1/nu", n, lambda i: le(c.at(r, i) * nu, 1))
    if len(c.ev.exits) == 1 and len(T.perms) == 1:
        # hints for a sorting implementation that caps the first K entries (none of them is needed elsewhere)
        K = c.ev.exits[0]; pm = next(iter(T.perms))
        e = lambda p: T.exp(c.at(x, T.app(pm, (P(p),), "I")))
        S = lambda h, f: sum_(h, f)
        c.lemma("fewer than nu entries are capped", lt(K, nu))
        p = fresh("p")
        c.lemma("capped entries would exceed the cap", T.forall(p, K, lt(S(n - K, lambda q: e(n - 1 - q)), (nu - K) * e(P(p)))))
        c.induct("tail sums", n - K, lambda m: T.eq(S(m, lambda q: e(n - 1 - q)) + S(n - m, e), S(n, e)))
    c.ensure_eq("total one", sum_(n, lambda i: c.at(r, i)), 1)
    i = c.index("i", n); j = c.index("j", n)
    xi, xj = c.at(x, i), c.at(x, j); c.assume(le(xi, xj))
    c.ensure("a larger score never gets less", le(c.at(r, i), c.at(r, j)))
    c.ensure("uncapped entries keep their ratio", implies(band(lt(c.at(r, i) * nu, 1), lt(c.at(r, j) * nu, 1)), T.eq(c.at(r, i) * T.exp(xj), c.at(r, j) * T.exp(xi))))
