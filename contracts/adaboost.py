from contract import *
from lib_boost import *


@contract("A01", "AdaBoost::boost (a regular round)")
def _(c):
    given = []
    W, h = learner(c, given)
    b, S, n, m, d, w, hs = booster(c, "AdaBoost", "adaboost_algorithm")
    it = c.len("it", 1)
    c.assume(le(it, c.get(b, "max_iter").p))
    e = c.define("edge", edge_of(c, S, n, d, h), lambda e: lt(e, 1), lambda e: lt(-1, e))
    a = c.define("alpha", T.ln((1 + e) * T.inv(1 - e)) * const(Fraction(1, 2)))
    r = c.call("AdaBoost::boost", b, W, Num(it, "u"))
    shown(c, "round", given, S, n, lambda i: c.at(d, i))
    c.ensure("training goes on", bconst(isinstance(r, Enum) and r.var == "Continue"))
    first_members(c, "round", b, m, w, hs, a, h)
    y = c.get(S, "target")
    z = sum_(n, lambda i: c.at(d, i) * T.exp(-a * c.at(y, i) * conf(h.p, the_id(S), i)))
    c.ensure_seq("the next distribution is proportional to d exp(-a y h)", c.get(b, "dist"), n,
                 lambda i: c.at(d, i) * T.exp(-a * c.at(y, i) * conf(h.p, the_id(S), i)) * T.inv(z))


# ------------------------------------------------------------------ what the boosters of this family share


@contract("A01", "AdaBoost::boost (past the round limit)")
def _(c): after_limit(c, "AdaBoost", "adaboost_algorithm")


@contract("A01", "AdaBoost::boost (|edge| >= 1)")
def _(c): perfect(c, "AdaBoost", "adaboost_algorithm")


@contract(("A01", "A13"), "AdaBoost::preprocess")
def _(c):
    W, h = learner(c, [])
    b, S, n, m, d, w, hs = booster(c, "AdaBoost", "adaboost_algorithm")
    q = c.get(b, "force_quit_at"); tol = c.get(b, "tolerance").p
    c.assume(lt(0, tol))
    c.call("AdaBoost::preprocess", b, W)
    uniform_start(c, b, n)
    forgets(c, b, "weights", "hypotheses")
    limit(c, b, q.v.p, T.trunc(T.ln(n) * T.inv(tol * tol)), q.c)


@contract("A01", "AdaBoost::postprocess and current_hypothesis")
def _(c): final_vote(c, "AdaBoost", "adaboost_algorithm")


@contract("A01", "AdaBoost settings")
def _(c): settings(c, "AdaBoost", "adaboost_algorithm", (("tolerance", "tolerance"), ("force_quit_at", "force_quit_at")))


@contract("A01", "AdaBoost::init and max_loop")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p
    b = c.call("AdaBoost::init", S)
    c.ensure_eq("default tolerance 1/(n+1)", c.get(b, "tolerance"), T.inv(n + 1))
    c.ensure("no forced stop", bnot(c.get(b, "force_quit_at").c))
    t = c.real("tol", gt=0)
    b = c.struct("AdaBoost", file="adaboost_algorithm", name="b", over={"sample": S, "tolerance": Num(t, "f")})
    c.ensure_eq("max_loop = floor(ln n / tol^2)", c.call("AdaBoost::max_loop", b), T.trunc(T.ln(n) * T.inv(t * t)))


# ------------------------------------------------------------------ AdaBoostV


@contract("A02", "AdaBoostV::boost (a regular round)")
def _(c):
    given = []
    W, h = learner(c, given)
    tol = c.real("tol", gt=0); g0 = c.real("gamma", hi=1)
    b, S, n, m, d, w, hs = booster(c, "AdaBoostV", "adaboostv_algorithm", extra={"tolerance": Num(tol, "f"), "gamma": Num(g0, "f")})
    it = c.len("it", 1)
    c.assume(le(it, c.get(b, "max_iter").p))
    e = c.define("edge", edge_of(c, S, n, d, h), lambda e: lt(e, 1), lambda e: lt(-1, e))
    g = T.vmin(e, g0)
    rho = g - tol
    c.assume(lt(-1, rho), lt(rho, 1))
    a = c.define("alpha", (T.ln((1 + e) * T.inv(1 - e)) - T.ln((1 + rho) * T.inv(1 - rho))) * const(Fraction(1, 2)))
    r = c.call("AdaBoostV::boost", b, W, Num(it, "u"))
    shown(c, "round", given, S, n, lambda i: c.at(d, i))
    c.ensure("training goes on", bconst(isinstance(r, Enum) and r.var == "Continue"))
    c.ensure_eq("smallest edge so far", c.get(b, "gamma"), g)
    c.ensure_eq("margin estimate = smallest edge - tolerance", c.get(b, "rho"), rho)
    first_members(c, "round", b, m, w, hs, a, h)
    y = c.get(S, "target")
    z = sum_(n, lambda i: c.at(d, i) * T.exp(-a * c.at(y, i) * conf(h.p, the_id(S), i)))
    c.ensure_seq("the next distribution is proportional to d exp(-a y h)", c.get(b, "dist"), n,
                 lambda i: c.at(d, i) * T.exp(-a * c.at(y, i) * conf(h.p, the_id(S), i)) * T.inv(z))


@contract("A02", "AdaBoostV::boost (past the round limit)")
def _(c): after_limit(c, "AdaBoostV", "adaboostv_algorithm")


@contract("A02", "AdaBoostV::boost (|edge| >= 1)")
def _(c): perfect(c, "AdaBoostV", "adaboostv_algorithm")


@contract(("A02", "A13"), "AdaBoostV::preprocess")
def _(c):
    W, h = learner(c, [])
    b, S, n, m, d, w, hs = booster(c, "AdaBoostV", "adaboostv_algorithm")
    q = c.get(b, "force_quit_at"); tol = c.get(b, "tolerance").p
    c.assume(lt(0, tol))
    c.call("AdaBoostV::preprocess", b, W)
    uniform_start(c, b, n)
    forgets(c, b, "weights", "hypotheses")
    c.ensure_eq("no edge seen yet", c.get(b, "gamma"), 1)
    limit(c, b, q.v.p, T.trunc(2 * T.ln(n) * T.inv(tol * tol)), q.c)


@contract("A02", "AdaBoostV::postprocess and current_hypothesis")
def _(c): final_vote(c, "AdaBoostV", "adaboostv_algorithm")


@contract("A02", "AdaBoostV settings, init and max_loop")
def _(c):
    settings(c, "AdaBoostV", "adaboostv_algorithm", (("tolerance", "tolerance"), ("force_quit_at", "force_quit_at")))
    S = c.sample("S2", n=c.len("n2", 1)); n = c.get(S, "n_sample").p
    b = c.call("AdaBoostV::init", S)
    c.ensure_eq("default tolerance 1/n", c.get(b, "tolerance"), T.inv(n))
    c.ensure("no forced stop", bnot(c.get(b, "force_quit_at").c))
    t = c.real("tol", gt=0)
    b = c.struct("AdaBoostV", file="adaboostv_algorithm", name="b", over={"sample": S, "tolerance": Num(t, "f")})
    c.ensure_eq("max_loop = floor(2 ln n / tol^2)", c.call("AdaBoostV::max_loop", b), T.trunc(2 * T.ln(n) * T.inv(t * t)))


# ------------------------------------------------------------------ MadaBoost


@contract("A03", "MadaBoost::boost (a regular round)")
def _(c):
    given = []
    W, h = learner(c, given)
    b, S, n, m, (bt, d), w, hs = mada(c)
    it = c.len("it", 1)
    c.assume(le(it, c.get(b, "max_iter").p))
    e = c.define("edge", mada_edge(c, S, n, d, h), lambda e: lt(e, 1), lambda e: lt(-1, e))
    eps = (1 - e) * const(Fraction(1, 2))
    x = T.sqrt(eps * const(Fraction(1, 2)))
    beta = c.define("B", T.sqrt(x * T.inv(1 - x)))
    c.lemma("beta is positive", lt(0, beta))
    r = c.call("MadaBoost::boost", b, W, Num(it, "u"))
    shown(c, "round", given, S, n, d)
    c.ensure("training goes on", bconst(isinstance(r, Enum) and r.var == "Continue"))
    first_members_of(c, "round", b, m, w, hs, -T.ln(beta), h, "alphas")
    y = c.get(S, "target")
    c.ensure_seq("log weights move by y h ln(beta)", c.get(b, "betas"), n, lambda i: c.at(bt, i) + c.at(y, i) * conf(h.p, the_id(S), i) * T.ln(beta))


@contract("A03", "MadaBoost::boost (past the round limit)")
def _(c): after_limit(c, "MadaBoost", "madaboost_algorithm", "alphas")


@contract("A03", "MadaBoost::boost (|edge| >= 1)")
def _(c):
    given = []
    W, h = learner(c, given)
    b, S, n, m, (bt, d), w, hs = mada(c)
    it = c.len("it", 1)
    c.assume(le(it, c.get(b, "max_iter").p))
    e = mada_edge(c, S, n, d, h)
    c.assume(bor(le(1, e), le(e, -1)))
    r = c.call("MadaBoost::boost", b, W, Num(it, "u"))
    breaks(c, "|edge| >= 1", r, it)
    c.ensure_eq("|edge| >= 1: a single vote", seq_len(c.get(b, "alphas")), 1)
    c.ensure_eq("|edge| >= 1: the vote is the sign of the edge", c.at(c.get(b, "alphas"), 0), T.signum(e))
    c.ensure_eq("|edge| >= 1: a single member", seq_len(c.get(b, "hypotheses")), 1)
    c.ensure("|edge| >= 1: the member is the new hypothesis", T.eqo(c.at(c.get(b, "hypotheses"), 0), h.p))


@contract(("A03", "A13"), "MadaBoost::preprocess")
def _(c):
    W, h = learner(c, [])
    b, S, n, m, d, w, hs = mada(c)
    q = c.get(b, "force_quit_at"); tol = c.get(b, "tolerance").p
    c.assume(lt(0, tol))
    c.call("MadaBoost::preprocess", b, W)
    c.ensure_seq("log weights 0", c.get(b, "betas"), n, lambda i: ZERO)
    forgets(c, b, "alphas", "hypotheses")
    limit(c, b, q.v.p, T.ceil((n - 1) * T.inv(tol * tol)), q.c)


@contract("A03", "MadaBoost::postprocess and current_hypothesis")
def _(c): final_vote(c, "MadaBoost", "madaboost_algorithm", "alphas")


@contract("A03", "MadaBoost settings, init and max_loop")
def _(c):
    settings(c, "MadaBoost", "madaboost_algorithm", (("tolerance", "tolerance"), ("force_quit_at", "force_quit_at")))
    S = c.sample("S2", n=c.len("n2", 1)); n = c.get(S, "n_sample").p
    b = c.call("MadaBoost::init", S)
    c.ensure_eq("default tolerance 1/(n+1)", c.get(b, "tolerance"), T.inv(n + 1))
    c.ensure("no forced stop", bnot(c.get(b, "force_quit_at").c))
    t = c.real("tol", gt=0)
    b = c.struct("MadaBoost", file="madaboost_algorithm", name="b", over={"sample": S, "tolerance": Num(t, "f")})
    c.ensure_eq("max_loop = ceil((n-1) / tol^2)", c.call("MadaBoost::max_loop", b), T.ceil((n - 1) * T.inv(t * t)))

