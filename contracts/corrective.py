"""LPBoost, SoftBoost, TotalBoost, ERLPBoost: what each round does around its solver.
The solver (clarabel, behind LPModel / QPModel) is represented by its interface: a state, an update with one hypothesis on one sample, and what it reports."""
from lib_boost import *
from fractions import Fraction as F

LPF, SBF, ERF, TBF = "lpboost_algorithm", "softboost_algorithm", "erlpboost_algorithm", "totalboost"


def solver(c, sort, key, n):
    """the solver object: any state; update(sample, h) moves to a next state, which determines everything it reports"""
    for x in ("started", "updated", "optimum", "solution", "#votes", "vote_of"): c.declared.add(x)
    s0 = c.opq("model", sort)
    calls = []
    def upd(ev, a):
        s = ev.rd(a[0]).p
        x = T.app("updated", (s, the_id(ev.rd(a[1])), ev.rd(a[2]).p), sort)
        calls.append((s, the_id(ev.rd(a[1])), ev.rd(a[2]).p, ev.ctx))
        ev.write(a[0], Opq(sort, x))
        return Num(T.app("optimum", (x,), "R"), "f")
    def dist(ev, a):
        s = ev.rd(a[0]).p; k = fresh("k")
        return Seq([Seg(P(n), k, Num(T.app("solution", (s, P(k)), "R"), "f"))])
    def weight(ev, a):
        s = ev.rd(a[0]).p; k = fresh("k")
        l = T.app("#votes", (s,), "I"); ev.assume(le(0, l))
        return Seq([Seg(l, k, Num(T.app("vote_of", (s, P(k)), "R"), "f"))])
    c.stub((sort, "update"), upd); c.stub((sort, "distribution"), dist); c.stub((sort, "weight"), weight)
    return s0, calls


def started(c, sort, key):
    c.declared.add("started")
    def init(ev, a): return Opq(sort, T.app("started", tuple(ev.rd(x).p for x in a), sort))
    c.stub((key, "init"), init)
    return lambda *a: T.app("started", tuple(P(x) for x in a), sort)


def model_of(c, b, field):
    o = c.get(b, field)
    c.ensure("the solver is present", o.c)
    return c.ev.rd(o.v).p


def grown(c, label, b, m, hs, h):
    g = c.get(b, "hypotheses")
    c.ensure_eq(label + ": one more member", seq_len(g), m + 1)
    c.ensure_all(label + ": earlier members kept", m, lambda i: T.eqo(c.at(g, i), c.at(hs, i)))
    c.ensure(label + ": the new member is last", T.eqo(c.at(g, m), h.p))


def cases_of(r):
    return r.alts if isinstance(r, Cases) else [(TRUE, r)]


def stops_iff(c, label, r, cond, val):
    """boost breaks exactly when cond holds, and then reports val"""
    for g, x in cases_of(r):
        if x.var == "Break":
            c.ensure(label + ": stops only then", T.implies(g, cond))
            c.ensure(label + ": reported round", T.implies(g, eq(c.num(x.xs[0]).p, P(val))))
        else: c.ensure(label + ": goes on only otherwise", T.implies(g, bnot(cond)))


def votes_of(c, ty, file, field, sort, name="weight"):
    """postprocess and current_hypothesis: the members with the solver's weights, scaled to total 1"""
    W = c.opq("W", "WL"); s0 = c.opq("model", sort)
    S = c.sample(); m = c.len("T", 1); w = c.reals("vote", m); hs = c.opqs("member", m, "H")
    z = sum_(m, lambda i: T.absv(c.at(w, i)))
    c.assume(bnot(eq(z, 0)))
    def weight(ev, a):
        c.ensure("the weights come from the solver's current state", T.eqo(ev.rd(a[0]).p, s0.p), ev.ctx)
        if len(a) > 1:
            c.ensure("for the training sample", T.eqo(the_id(ev.rd(a[1])), the_id(S)), ev.ctx)
            g = ev.rd(a[2]); j = fresh("j")
            c.ensure("for the members obtained", band(eq(seq_len(g), m), T.forall(j, m, T.eqo(c.at(g, P(j)), c.at(hs, P(j))))), ev.ctx)
        return w
    c.stub((sort, name), weight)
    over = {"sample": S, "hypotheses": hs, field: Opt(TRUE, s0)}
    b = Inner(c, ty, over).b if ty in ("SoftBoost", "TotalBoost") else c.cell(c.struct(ty, file=file, name="b", over=over))
    i = c.index("row", c.get(S, "n_sample").p)
    for label, f in (("returned", lambda: c.call(ty + "::postprocess", b, W)), ("logged", lambda: c.call(ty + "::current_hypothesis", b))):
        r = f()
        x = c.call("WeightedMajority::confidence", r, S, Num(i, "u"), trait="Classifier")
        c.ensure_eq("%s hypothesis is the solver's weighting of the members, scaled to total 1" % label, x, sum_(m, lambda t: c.at(w, t) * conf(c.at(hs, t), the_id(S), i)) * T.inv(z))
    nz = lambda t: bnot(eq(c.at(w, t), 0))
    r = c.call(ty + "::postprocess", b, W)
    c.ensure_filtered("votes are scaled to total 1", c.get(r, "weights"), m, nz, lambda t: c.at(w, t) * T.inv(z))


@contract("A08", "LPBoost::postprocess/current_hypothesis")
def _(c): votes_of(c, "LPBoost", LPF, "lp_model", "LP")

@contract("A07", "SoftBoost::postprocess/current_hypothesis")
def _(c): votes_of(c, "SoftBoost", SBF, "qp_model", "QP", "weights")

@contract("A07", "TotalBoost::postprocess/current_hypothesis")
def _(c): votes_of(c, "TotalBoost", SBF, "qp_model", "QP", "weights")

@contract("A09", "ERLPBoost::postprocess/current_hypothesis")
def _(c): votes_of(c, "ERLPBoost", ERF, "qp_model", "QP")


@contract("A08", "LPBoost::preprocess")
def _(c):
    st = started(c, "LP", "LPModel")
    S = c.sample(); n = c.get(S, "n_sample").p
    c.stub(("Sample", "is_valid_binary_instance"), lambda ev, a: UNIT)
    b = c.cell(c.struct("LPBoost", file=LPF, name="b", over={"sample": S, "n_sample": Num(n, "u")}))
    nu = c.get(b, "nu").p
    c.assume(le(1, nu), le(nu, n))
    c.call("LPBoost::preprocess", b, c.opq("W", "WL"))
    uniform_start(c, b, n); forgets(c, b, "hypotheses")
    c.ensure_eq("smallest edge so far starts at 1", c.get(b, "gamma_hat"), 1)
    c.ensure("a fresh solver for n examples with the cap 1/nu", T.eqo(model_of(c, b, "lp_model"), st(n, T.inv(nu))))


@contract("A08", "LPBoost::boost")
def _(c):
    given = []
    W, h = learner(c, given)
    S = c.sample(); n = c.get(S, "n_sample").p; m = c.len("T")
    d = c.dist("d", n); hs = c.opqs("member", m, "H")
    s0, calls = solver(c, "LP", "LPModel", n)
    b = c.cell(c.struct("LPBoost", file=LPF, name="b", over={"sample": S, "n_sample": Num(n, "u"), "dist": d, "hypotheses": hs, "lp_model": Opt(TRUE, s0)}))
    g0 = c.get(b, "gamma_hat").p; tol = c.get(b, "tolerance").p
    it = c.len("it", 1)
    r = c.call("LPBoost::boost", b, W, Num(it, "u"))
    shown(c, "round", given, S, n, lambda i: c.at(d, i))
    e = edge_of(c, S, n, d, h); g1 = T.vmin(e, g0)
    s1 = T.app("updated", (s0.p, the_id(S), h.p), "LP")
    opt = T.app("optimum", (s1,), "R")
    c.ensure_eq("smallest edge so far", c.get(b, "gamma_hat"), g1)
    c.ensure("the program is extended once, by the new hypothesis on the training sample", T.eqo(model_of(c, b, "lp_model"), s1))
    stop = le(g1 - tol, opt)
    stops_iff(c, "the optimum is within the tolerance of the smallest edge", r, stop, it)
    grown(c, "round", b, m, hs, h)
    q = c.get(b, "dist"); j = fresh("j")
    c.ensure("otherwise the next distribution is the solver's", bor(stop, band(eq(seq_len(q), n), T.forall(j, n, eq(c.at(q, P(j)), T.app("solution", (s1, P(j)), "R"))))))


# ------------------------------------------------------------------ SoftBoost
class Inner:
    """TotalBoost is SoftBoost with nu = 1: the same contracts, on the booster inside"""
    def __init__(self, c, ty, over):
        sb = c.struct("SoftBoost", file=SBF, name="b", over=over)
        self.c = c; self.ty = ty
        self.b = c.cell(sb if ty == "SoftBoost" else c.struct("TotalBoost", file=TBF, name="tb", over={"softboost": sb}))
        self.pre = () if ty == "SoftBoost" else ("softboost",)
    def call(self, m, *a): return self.c.call(self.ty + "::" + m, self.b, *a)
    def sb(self):
        x = self.c.read(self.b)
        for f in self.pre: x = self.c.get(x, f)
        return x


def soft_pre(c, ty):
    st = started(c, "QP", "QPModel")
    S = c.sample(); n = c.get(S, "n_sample").p
    c.stub(("Sample", "is_valid_binary_instance"), lambda ev, a: UNIT)
    B = Inner(c, ty, {"sample": S}); b = B.sb()
    nu = c.get(b, "nu").p; tol = c.get(b, "tolerance").p
    c.assume(le(1, nu), le(nu, n), lt(0, tol))
    B.call("preprocess", c.opq("W", "WL")); b = B.sb()
    uniform_start(c, b, n); forgets(c, b, "hypotheses")
    c.ensure_eq("smallest edge so far starts at 1", c.get(b, "gamma_hat"), 1)
    c.ensure("a fresh solver for n examples with the cap 1/nu", T.eqo(model_of(c, b, "qp_model"), st(n, T.inv(nu))))
    x = c.get(b, "max_iter").p; L = 2 * T.ln(n * T.inv(nu)) * T.inv(tol) * T.inv(tol)
    c.ensure("the round limit is at least one", le(1, x))
    c.ensure_eq("the round limit is 2 ln(n/nu) / tolerance^2, rounded up, but at least one", x, T.vmax(T.ceil(L), P(1)))


def soft_boost(c, ty):
    given = []
    W, h = learner(c, given)
    S = c.sample(); n = c.get(S, "n_sample").p; m = c.len("T")
    d = c.dist("d", n); hs = c.opqs("member", m, "H")
    s0 = c.opq("model", "QP")
    c.declared.update(("feasible", "solution"))
    s1 = c.opq("model1", "QP").p; ok = T.bapp("feasible", [s1])
    calls = []
    def upd(ev, a):
        s = ev.rd(a[0]).p; q = ev.rd(a[2]); k = fresh("k")
        args = (s, the_id(ev.rd(a[1])), ev.rd(a[3]).p, ev.rd(a[4]).p)
        calls.append((args, q, ev.ctx))
        x = s1                                       # called once, see below
        ev.write(a[0], Opq("QP", x))
        ev.write(a[2], vite(ok, Seq([Seg(P(n), k, Num(T.app("solution", (x, P(k)), "R"), "f"))]), q))
        return Opt(ok, UNIT)
    c.stub(("QP", "update"), upd)
    B = Inner(c, ty, {"sample": S, "dist": d, "hypotheses": hs, "qp_model": Opt(TRUE, s0)}); b = B.sb()
    g0 = c.get(b, "gamma_hat").p
    it = c.len("it", 1)
    c.assume(le(it, c.get(b, "max_iter").p))
    r = B.call("boost", W, Num(it, "u")); b = B.sb()
    shown(c, "round", given, S, n, lambda i: c.at(d, i))
    e = edge_of(c, S, n, d, h); g1 = T.vmin(e, g0)
    c.ensure_eq("smallest edge so far", c.get(b, "gamma_hat"), g1)
    c.ensure("the program is solved once", bconst(len(calls) == 1))
    for (s, sid, g, hp), q, cx in calls:
        c.ensure("starting from the solver's state", T.eqo(s, s0.p), cx)
        c.ensure("on the training sample", T.eqo(sid, the_id(S)), cx)
        c.ensure("with the smallest edge so far as the bound", eq(g, g1), cx)
        c.ensure("with the new hypothesis as the new constraint", T.eqo(hp, h.p), cx)
    stops_iff(c, "the program has no solution", r, bnot(ok), it)
    grown(c, "round", b, m, hs, h)
    q = c.get(b, "dist"); j = fresh("j")
    c.ensure("otherwise the next distribution is the solution", bor(bnot(ok), T.forall(j, n, eq(c.at(q, P(j)), T.app("solution", (s1, P(j)), "R")))))
    c.ensure_eq("length of the distribution", seq_len(q), n)


def soft_after(c, ty):
    given = []
    W, h = learner(c, given)
    S = c.sample(); m = c.len("T"); hs = c.opqs("member", m, "H")
    B = Inner(c, ty, {"sample": S, "hypotheses": hs, "qp_model": Opt(TRUE, c.opq("model", "QP"))}); b = B.sb()
    it = c.len("it", 1); lim = c.get(b, "max_iter").p
    c.assume(lt(lim, it))
    r = B.call("boost", W, Num(it, "u")); b = B.sb()
    breaks(c, "past the limit", r, lim)
    c.ensure("past the limit: the weak learner is not asked", bconst(len(given) == 0))
    c.ensure_seq("past the limit: members unchanged", c.get(b, "hypotheses"), m, lambda i: c.at(hs, i))


for ty in ("SoftBoost", "TotalBoost"):
    contract("A07", ty + "::preprocess")(lambda c, ty=ty: soft_pre(c, ty))
    contract("A07", ty + "::boost")(lambda c, ty=ty: soft_boost(c, ty))
    contract("A07", ty + "::boost after the limit")(lambda c, ty=ty: soft_after(c, ty))


# ------------------------------------------------------------------ ERLPBoost
@contract("A09", "ERLPBoost::preprocess")
def _(c):
    st = started(c, "QP", "QPModel")
    S = c.sample(); n = c.get(S, "n_sample").p
    c.stub(("Sample", "is_valid_binary_instance"), lambda ev, a: UNIT)
    b = c.cell(c.struct("ERLPBoost", file=ERF, name="b", over={"sample": S, "n_sample": Num(n, "u")}))
    nu = c.get(b, "nu").p; ht = c.get(b, "half_tolerance").p
    c.assume(le(1, nu), le(nu, n), lt(0, ht), lt(ht, 1))
    c.call("ERLPBoost::preprocess", b, c.opq("W", "WL"))
    uniform_start(c, b, n); forgets(c, b, "hypotheses")
    c.ensure_eq("best regularised edge so far starts at 1", c.get(b, "gamma_hat"), 1)
    c.ensure_eq("attained optimum starts at -1", c.get(b, "gamma_star"), -1)
    L = T.ln(n * T.inv(nu)); eta = T.vmax(P(F(1, 2)), L * T.inv(ht))
    c.ensure_eq("eta = max(1/2, ln(n/nu) / (tolerance/2))", c.get(b, "eta"), eta)
    c.ensure("a fresh solver with eta, for n examples, with the cap 1/nu", T.eqo(model_of(c, b, "qp_model"), st(eta, n, T.inv(nu))))
    x = c.get(b, "max_iter").p; lim = T.vmax(4 * T.inv(ht), 8 * L * T.inv(ht) * T.inv(ht))
    c.ensure("the round limit is max(8 / tolerance, 32 ln(n/nu) / tolerance^2), rounded up", band(le(lim, x), lt(x, lim + 1)))


def entropy_of(n, d):
    """relative entropy from the uniform distribution"""
    return sum_(n, lambda i: T.ite(eq(d(i), 0), ZERO, d(i) * T.ln(d(i)))) + T.ln(P(n))


def erlp(c, stop):
    given = []
    W, h = learner(c, given)
    S = c.sample(); n = c.get(S, "n_sample").p; m = c.len("T")
    d = c.dist("d", n); hs = c.opqs("member", m, "H")
    s0 = c.opq("model", "QP"); s1 = c.opq("model1", "QP")
    nd = c.reals("solution", n, nonneg=True)
    calls = []
    def upd(ev, a):
        calls.append((ev.rd(a[0]).p, the_id(ev.rd(a[1])), ev.rd(a[2]).p, ev.ctx))
        ev.write(a[0], s1)
        return Num(T.app("optimum", (s1.p,), "R"), "f")
    def dist(ev, a):
        c.ensure("the distribution is read off the extended program", T.eqo(ev.rd(a[0]).p, s1.p), ev.ctx)
        return nd
    c.stub(("QP", "update"), upd); c.stub(("QP", "distribution"), dist); c.declared.add("optimum")
    b = c.cell(c.struct("ERLPBoost", file=ERF, name="b", over={"sample": S, "n_sample": Num(n, "u"), "dist": d, "hypotheses": hs, "qp_model": Opt(TRUE, s0)}))
    g0 = c.get(b, "gamma_hat").p; gs = c.get(b, "gamma_star").p; eta = c.get(b, "eta").p; ht = c.get(b, "half_tolerance").p
    c.assume(lt(0, eta))
    it = c.len("it", 1)
    c.assume(le(it, c.get(b, "max_iter").p))
    e = edge_of(c, S, n, d, h); E = c.define("E", entropy_of(n, lambda i: c.at(d, i)))
    reg = e + E * T.inv(eta); g1 = T.vmin(g0, reg)
    c.assume(stop(le(g1 - gs, ht)))
    r = c.call("ERLPBoost::boost", b, W, Num(it, "u"))
    shown(c, "round", given, S, n, lambda i: c.at(d, i))
    c.ensure_eq("best regularised edge so far", c.get(b, "gamma_hat"), g1)
    return b, r, it, S, n, m, d, nd, hs, h, s0, s1, eta, calls


@contract("A09", "ERLPBoost::boost/stops")
def _(c):
    b, r, it, S, n, m, d, nd, hs, h, s0, s1, eta, calls = erlp(c, lambda x: x)
    for g, x in cases_of(r):
        c.ensure("the best regularised edge is within half the tolerance of the optimum", bconst(x.var == "Break") if g is TRUE or x.var == "Break" else bnot(g))
        if x.var == "Break": c.ensure("reported round", T.implies(g, eq(c.num(x.xs[0]).p, P(it))))


@contract("A09", "ERLPBoost::boost/goes on")
def _(c):
    b, r, it, S, n, m, d, nd, hs, h, s0, s1, eta, calls = erlp(c, bnot)
    for g, x in cases_of(r):
        c.ensure("the best regularised edge is further from the optimum", bconst(x.var == "Continue") if g is TRUE or x.var == "Continue" else bnot(g))
    c.ensure("the program is extended once", bconst(len(calls) == 1))
    for s, sid, hp, cx in calls:
        c.ensure("starting from the solver's state", T.eqo(s, s0.p), cx)
        c.ensure("on the training sample", T.eqo(sid, the_id(S)), cx)
        c.ensure("with the new hypothesis as the new constraint", T.eqo(hp, h.p), cx)
    grown(c, "round", b, m, hs, h)
    c.ensure_seq("the next distribution is the solution", c.get(b, "dist"), n, lambda i: c.at(nd, i))
    y = c.get(S, "target"); E = entropy_of(n, lambda i: c.at(nd, i)) * T.inv(eta)
    edge = lambda f: sum_(n, lambda i: c.at(y, i) * conf(f, the_id(S), i) * c.at(nd, i))
    gs = c.get(b, "gamma_star").p; j = fresh("j")
    c.ensure("the attained optimum is at least the first member's regularised edge", bor(eq(m, 0), le(edge(c.at(hs, 0)) + E, gs)))
    c.ensure("and at least every later member's", T.forall(j, m - 1, le(edge(c.at(hs, P(j) + 1)) + E, gs)))
    c.ensure("and at least the new member's", le(edge(h.p) + E, gs))
    c.ensure("and equals one of them", bor(eq(gs, edge(h.p) + E), any_(m, lambda i: eq(gs, edge(c.at(hs, i)) + E))))


# ------------------------------------------------------------------ construction and settings
def started_with(c, b, **kw):
    for f, v in kw.items(): c.ensure_eq("%s at the start" % f, c.get(b, f), v)


@contract("A07", "SoftBoost::init/nu/tolerance")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p
    b = c.call("SoftBoost::init", S)
    c.ensure("the given sample", T.eqo(the_id(c.get(b, "sample")), the_id(S)))
    started_with(c, b, nu=1, tolerance=T.inv(n), gamma_hat=1)
    forgets(c, b, "hypotheses", "weights")
    t = c.real("t"); v = c.real("v"); c.assume(le(1, v), le(v, n))
    b = c.call("SoftBoost::tolerance", c.call("SoftBoost::nu", b, v), t)
    started_with(c, b, nu=v, tolerance=t, gamma_hat=1)


@contract("A07", "TotalBoost::init/tolerance")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p; t = c.real("t")
    b = c.call("TotalBoost::tolerance", c.call("TotalBoost::init", S), t)
    b = c.get(b, "softboost")
    c.ensure("the given sample", T.eqo(the_id(c.get(b, "sample")), the_id(S)))
    started_with(c, b, nu=1, tolerance=t, gamma_hat=1)
    forgets(c, b, "hypotheses", "weights")


@contract("A08", "LPBoost::init/nu/tolerance")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p
    b = c.call("LPBoost::init", S)
    c.ensure("the given sample", T.eqo(the_id(c.get(b, "sample")), the_id(S)))
    started_with(c, b, nu=1, tolerance=T.inv(n), n_sample=n)
    t = c.real("t"); v = c.real("v"); c.assume(le(1, v), le(v, n))
    b = c.call("LPBoost::tolerance", c.call("LPBoost::nu", b, v), t)
    started_with(c, b, nu=v, tolerance=t, n_sample=n)


@contract("A09", "ERLPBoost::init/nu/tolerance")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p
    b = c.call("ERLPBoost::init", S)
    c.ensure("the given sample", T.eqo(the_id(c.get(b, "sample")), the_id(S)))
    started_with(c, b, nu=1, half_tolerance=P(F(1, 200)), n_sample=n)
    t = c.real("t", gt=0); v = c.real("v"); c.assume(le(1, v), le(v, n))
    b = c.call("ERLPBoost::tolerance", c.call("ERLPBoost::nu", b, v), t)
    started_with(c, b, nu=v, half_tolerance=t * F(1, 2), n_sample=n)
