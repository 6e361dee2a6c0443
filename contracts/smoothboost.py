from contract import *
from lib_boost import *

F = "smoothboost_algorithm"


def smooth(c, **over):
    S = c.sample(); n = c.get(S, "n_sample").p; m = c.len("T")
    mm = c.reals("m", n, pos=True); nn = c.reals("slack", n); hs = c.opqs("member", m, "H")
    o = {"sample": S, "n_sample": Num(n, "u"), "m": mm, "n": nn, "hypotheses": hs}
    o.update(over)
    return c.cell(c.struct("SmoothBoost", file=F, name="b", over=o)), S, n, m, mm, nn, hs


@contract("A04", "SmoothBoost::boost (a regular round)")
def _(c):
    given = []
    W, h = learner(c, given)
    g = c.real("gamma", gt=0, lt_=1); th = c.real("theta"); kap = c.real("kappa", gt=0)
    b, S, n, m, mm, nn, hs = smooth(c, gamma=Num(g, "f"), theta=Num(th, "f"), kappa=Num(kap, "f"))
    it = c.len("it", 1)
    c.assume(le(it, c.get(b, "max_iter").p))
    tot = c.define("mass", sum_(n, lambda i: c.at(mm, i)))
    c.assume(le(n * kap, tot), lt(0, tot))
    r = c.call("SmoothBoost::boost", b, W, Num(it, "u"))
    shown(c, "round", given, S, n, lambda i: c.at(mm, i) * T.inv(tot))
    c.ensure("training goes on", bconst(isinstance(r, Enum) and r.var == "Continue"))
    q = c.get(b, "hypotheses")
    c.ensure_eq("one more member", seq_len(q), m + 1)
    c.ensure_all("earlier members kept", m, lambda i: T.eqo(c.at(q, i), c.at(hs, i)))
    c.ensure("the new member is last", T.eqo(c.at(q, m), h.p))
    y = c.get(S, "target")
    new = lambda i: c.at(nn, i) + c.at(y, i) * conf(h.p, the_id(S), i) - th
    c.ensure_seq("slack grows by the margin minus theta", c.get(b, "n"), n, new)
    c.ensure_seq("weight 1 if slack <= 0, else (1-gamma)^(slack/2)", c.get(b, "m"), n,
                 lambda i: T.ite(le(new(i), 0), ONE, T.powf(1 - g, new(i) * const(Fraction(1, 2)))))


@contract("A04", "SmoothBoost::boost (small mass)")
def _(c):
    given = []
    W, h = learner(c, given)
    kap = c.real("kappa", gt=0)
    b, S, n, m, mm, nn, hs = smooth(c, kappa=Num(kap, "f"))
    it = c.len("it", 1)
    c.assume(le(it, c.get(b, "max_iter").p))
    c.assume(lt(sum_(n, lambda i: c.at(mm, i)), n * kap))
    r = c.call("SmoothBoost::boost", b, W, Num(it, "u"))
    c.ensure("stops", bconst(isinstance(r, Enum) and r.var == "Break"))
    c.ensure("the weak learner is not asked", bconst(len(given) == 0))
    c.ensure_eq("terminated: the rounds completed", c.get(b, "terminated"), it - 1)
    c.ensure_seq("members unchanged", c.get(b, "hypotheses"), m, lambda i: c.at(hs, i))


@contract("A04", "SmoothBoost::boost (past the round limit)")
def _(c):
    given = []
    W, h = learner(c, given)
    b, S, n, m, mm, nn, hs = smooth(c)
    it = c.len("it", 1)
    c.assume(lt(c.get(b, "max_iter").p, it))
    r = c.call("SmoothBoost::boost", b, W, Num(it, "u"))
    c.ensure("stops", bconst(isinstance(r, Enum) and r.var == "Break"))
    c.ensure("the weak learner is not asked", bconst(len(given) == 0))
    c.ensure_seq("members unchanged", c.get(b, "hypotheses"), m, lambda i: c.at(hs, i))


@contract(("A04", "A13"), "SmoothBoost::preprocess")
def _(c):
    W, h = learner(c, [])
    g = c.real("gamma", gt=0, lt_=Fraction(1, 2)); kap = c.real("kappa", gt=0, lt_=1)
    b, S, n, m, mm, nn, hs = smooth(c, gamma=Num(g, "f"), kappa=Num(kap, "f"))
    c.call("SmoothBoost::preprocess", b, W)
    c.ensure_seq("weights 1", c.get(b, "m"), n, lambda i: ONE)
    c.ensure_seq("slacks 1", c.get(b, "n"), n, lambda i: ONE)
    forgets(c, b, "hypotheses")
    c.ensure_eq("theta = gamma / (2 + gamma)", c.get(b, "theta"), g * T.inv(2 + g))
    c.ensure_eq("round limit = ceil(2 / (kappa gamma^2 sqrt(1 - gamma)))", c.get(b, "max_iter"), T.ceil(2 * T.inv(kap * g * g * T.sqrt(1 - g))))
    c.same("terminated starts at the round limit", c.get(b, "terminated"), c.get(b, "max_iter"))


@contract("A04", "SmoothBoost::postprocess and current_hypothesis")
def _(c):
    W, h = learner(c, [])
    S = c.sample(); m = c.len("T", 1); hs = c.opqs("member", m, "H"); t = c.len("rounds", 1)
    b = c.cell(c.struct("SmoothBoost", file=F, name="b", over={"sample": S, "hypotheses": hs, "terminated": Num(t, "u")}))
    i = c.index("row", c.get(S, "n_sample").p)
    for label, f in (("returned", lambda: c.call("SmoothBoost::postprocess", b, W)), ("logged", lambda: c.call("SmoothBoost::current_hypothesis", b))):
        r = f()
        c.ensure_seq("%s: equal votes 1/m" % label, c.get(r, "weights"), m, lambda k: T.inv(m))
        c.ensure_seq("%s: all members" % label, c.get(r, "hypotheses"), m, lambda k: c.at(hs, k))
        x = c.call("WeightedMajority::confidence", r, S, Num(i, "u"), trait="Classifier")
        c.ensure_eq("%s: the average of the members" % label, x, sum_(m, lambda t: conf(c.at(hs, t), the_id(S), i)) * T.inv(m))


@contract("A04", "SmoothBoost settings")
def _(c):
    b = c.struct("SmoothBoost", file=F, name="b")
    k = c.real("k"); g = c.real("g", lo=0, lt_=Fraction(1, 2))
    c.ensure_eq("tolerance is kappa", c.get(c.call("SmoothBoost::tolerance", b, k), "kappa"), k)
    c.ensure_eq("gamma is recorded", c.get(c.call("SmoothBoost::gamma", b, g), "gamma"), g)
