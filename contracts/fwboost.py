"""MLPBoost and CERLPBoost: what each round does around the Frank-Wolfe step and (MLPBoost) the secondary program"""
from lib_boost import *
from fractions import Fraction as F

ML, CE = "mlpboost_algorithm", "cerlpboost_algorithm"


def cases_of(r): return r.alts if isinstance(r, Cases) else [(TRUE, r)]


def outcome(c, label, r, var, val=None):
    """boost returns var (with val)"""
    for g, x in cases_of(r):
        c.ensure(label, TRUE if x.var == var else bnot(g))
        if x.var == "Break" and var == "Break": c.ensure_eq(label + ": reported round", x.xs[0], val) if g is TRUE else c.ensure(label + ": reported round", T.implies(g, eq(c.num(x.xs[0]).p, P(val))))


def same_seq(c, label, q, n, f, cx=None, opq=False):
    q = c.ev.rd(q); j = fresh("j")
    c.ensure(label + " (how many)", eq(seq_len(q), n), cx)
    y = c.at(q, P(j)); x = P(f(P(j)))
    c.ensure(label, T.forall(j, n, T.eqo(y, x) if opq else eq(y, x)), cx)


def exp_dist(c, b, S, n, m, w, hs):
    """the capped exponential distribution (its contracts: utilities.py, projection.py)"""
    d = c.dist("d", n, pos=False); calls = []
    def f(a):
        calls.append((a, c.ev.ctx))
        return d
    c.stub_named("exp_distribution", f, file="common/utils.rs")
    def check():
        if not calls: raise Unsupported("the distribution is not computed by exp_distribution")
        for a, cx in calls:
            c.ensure("exponential distribution: the booster's eta", eq(a["eta"].p, c.get(b, "eta").p), cx); c.ensure("exponential distribution: the booster's nu", eq(a["nu"].p, c.get(b, "nu").p), cx)
            c.ensure("exponential distribution: the training sample", T.eqo(the_id(a["sample"]), the_id(S)), cx)
            same_seq(c, "exponential distribution: of the current weights", a["weights"], m, lambda i: c.at(w, i), cx)
            same_seq(c, "exponential distribution: of the members", a["hypotheses"], m, lambda i: c.at(hs, i), cx, True)
    return d, check


@contract("A11", "MLPBoost::objval")
def _(c):
    """the smoothed soft margin: the edge of the weighting on its capped exponential distribution plus relative entropy / eta"""
    S = c.sample(); n = c.get(S, "n_sample").p; m = c.len("T", 1)
    w = c.reals("vote", m); hs = c.opqs("member", m, "H")
    b = c.struct("MLPBoost", file=ML, name="b", over={"sample": S, "hypotheses": hs})
    eta = c.get(b, "eta").p; c.assume(lt(0, eta))
    d, check = exp_dist(c, b, S, n, m, w, hs)
    r = c.call("MLPBoost::objval", b, w)
    check()
    y = c.get(S, "target"); D = lambda i: c.at(d, i)
    edge = sum_(n, lambda i: D(i) * c.at(y, i) * sum_(m, lambda t: c.at(w, t) * conf(c.at(hs, t), the_id(S), i)))
    ent = sum_(n, lambda i: T.ite(eq(D(i), 0), ZERO, D(i) * T.ln(D(i)))) + T.ln(n)
    c.ensure_eq("edge + relative entropy / eta", r, edge + ent * T.inv(eta))


def better(c, rel, label, which):
    S = c.sample(); m = c.len("T", 1)
    w1 = c.reals("w1", m); w2 = c.reals("w2", m); v1 = c.real("v1"); v2 = c.real("v2")
    c.assume(rel(v1, v2))
    def objval(a):
        q = a["weights"]; j = fresh("j")
        for w, v in ((w1, v1), (w2, v2)):
            if PR.prove(band(eq(seq_len(q), m), T.forall(j, m, eq(c.at(q, P(j)), c.at(w, P(j))))), c.ev.ctx): return Num(v, "f")
        raise Unsupported("the objective of another weighting")
    b = c.cell(c.struct("MLPBoost", file=ML, name="b", over={"sample": S, "hypotheses": c.opqs("member", m, "H")}))
    c.stub_named("MLPBoost::objval", objval)
    c.call("MLPBoost::better_weight", b, w1, w2)
    same_seq(c, label, c.get(b, "weights"), m, lambda i: c.at(w1 if which == 1 else w2, i))


@contract("A11", "MLPBoost::better_weight: the Frank-Wolfe weighting when its objective is higher")
def _(c): better(c, lambda x, y: lt(y, x), "the better weighting is kept", 1)

@contract("A11", "MLPBoost::better_weight: the secondary weighting when its objective is higher")
def _(c): better(c, lambda x, y: lt(x, y), "the better weighting is kept", 2)


def same_member(c, hs, m, h, new):
    """either h differs from every member, or some member p equals h"""
    j = fresh("j")
    if new:
        c.assume(T.forall(j, m, bnot(T.eqo(c.at(hs, P(j)), h.p)))); return m
    p = c.index("p", m)
    c.assume(T.eqo(c.at(hs, p), h.p))
    return p


def fw_step(c, n, m, steps):
    """the Frank-Wolfe step, by its contract (frankwolfe.py): one weight per member handed to it"""
    def f(a):
        l = seq_len(c.ev.rd(a["hypotheses"]))
        r = c.reals("next", l); steps.append((a, r, c.ev.ctx))
        return r
    c.stub_named("FrankWolfe::next_iterate", f)


def ensure_step(c, steps, it, S, d, n, m, hs, h, w, p, new):
    c.ensure("one Frank-Wolfe step", bconst(len(steps) == 1))
    l = m + 1 if new else m
    for a, r, cx in steps:
        g = lambda k: c.ev.rd(a[k])
        c.ensure("Frank-Wolfe step: the round", eq(c.num(g("iteration")).p, P(it)), cx)
        c.ensure("Frank-Wolfe step: the training sample", T.eqo(the_id(g("sample")), the_id(S)), cx)
        same_seq(c, "Frank-Wolfe step: the distribution of the round", g("dist"), n, lambda i: c.at(d, i), cx)
        q, v = g("hypotheses"), g("weights"); pos = c.num(g("position_of_new_one")).p
        c.ensure("Frank-Wolfe step: towards a member", band(le(0, pos), lt(pos, P(l))), cx)
        if new: c.ensure("Frank-Wolfe step: towards the new member", eq(pos, P(p)), cx)
        else: c.ensure("Frank-Wolfe step: towards a member equal to the new hypothesis", T.eqo(c.at(hs, pos), h.p), cx)
        c.ensure("Frank-Wolfe step: members", eq(seq_len(q), P(l)), cx); c.ensure("Frank-Wolfe step: weights", eq(seq_len(v), P(l)), cx)
        j = fresh("j")
        c.ensure("Frank-Wolfe step: earlier members", T.forall(j, m, T.eqo(c.at(q, P(j)), c.at(hs, P(j)))), cx)
        c.ensure("Frank-Wolfe step: earlier weights", T.forall(j, m, eq(c.at(v, P(j)), c.at(w, P(j)))), cx)
        if new:
            c.ensure("Frank-Wolfe step: the new hypothesis is the last member", T.eqo(c.at(q, m), h.p), cx)
            c.ensure("Frank-Wolfe step: it starts with weight 0", eq(c.at(v, m), ZERO), cx)


def ensure_members(c, label, b, m, hs, h, new):
    g = c.get(b, "hypotheses"); j = fresh("j")
    c.ensure_eq(label + ": how many", seq_len(g), m + 1 if new else m)
    c.ensure(label + ": earlier ones kept", T.forall(j, m, T.eqo(c.at(g, P(j)), c.at(hs, P(j)))))
    if new: c.ensure(label + ": the new one is last", T.eqo(c.at(g, m), h.p))


def stops(c, label, r, yes, val=None):
    for g, x in cases_of(r):
        if (x.var == "Break") != yes: c.ensure(label, bnot(g))
        elif yes: c.ensure(label + ": reported round", T.implies(g, eq(c.num(x.xs[0]).p, P(val))))
        else: c.ensure(label, TRUE)


def mlp(c, m):
    given = []
    W, h = learner(c, given)
    S = c.sample(); n = c.get(S, "n_sample").p
    w = c.reals("vote", m); hs = c.opqs("member", m, "H")
    b = c.cell(c.struct("MLPBoost", file=ML, name="b", over={"sample": S, "hypotheses": hs, "weights": w}))
    d, check = exp_dist(c, b, S, n, m, w, hs)
    seco, kept, steps, objs = [], [], [], []
    def secondary(a):
        o = c.ev.rd(a["opt_h"]); r = c.reals("lp", c.len("lps"))
        seco.append((o, r, c.ev.ctx)); return r
    def better(a):
        x = c.reals("kept", c.len("kepts"))
        kept.append((a, x, c.ev.ctx))
        return UNIT
    def objval(a):
        v = c.real("objective"); objs.append((a, v, c.ev.ctx)); return Num(v, "f")
    c.stub_named("MLPBoost::secondary_update", secondary); c.stub_named("MLPBoost::better_weight", better); c.stub_named("MLPBoost::objval", objval)
    c.stub_named("check_capped_simplex_condition", lambda a: UNIT, file="checker.rs")
    fw_step(c, n, m, steps)
    return given, W, h, S, n, w, hs, b, d, check, seco, kept, steps, objs


@contract("A11", "MLPBoost::boost: first round")
def _(c):
    m = c.len("T")
    c.assume(eq(m, 0))
    given, W, h, S, n, w, hs, b, d, check, seco, kept, steps, objs = mlp(c, ZERO)
    g0 = c.get(b, "gamma").p
    c.assume(le(1, c.get(b, "max_iter").p))
    r = c.call("MLPBoost::boost", b, W, Num(ONE, "u"))
    check(); shown(c, "first round", given, S, n, lambda i: c.at(d, i))
    stops(c, "first round: goes on", r, False)
    first_members(c, "first round", b, ZERO, w, hs, ONE, h)
    c.ensure_eq("smallest edge so far", c.get(b, "gamma"), T.vmin(edge_of(c, S, n, d, h), g0))
    c.ensure("first round: the linear program is told once", bconst(len(seco) == 1))
    for o, r, cx in seco:
        c.ensure("first round: the linear program gets the hypothesis", band(o.c, T.eqo(c.ev.rd(o.v).p, h.p)), cx)


def mlp_round(c, stop, new):
    m = c.len("T", 1)
    given, W, h, S, n, w, hs, b, d, check, seco, kept, steps, objs = mlp(c, m)
    g0 = c.get(b, "gamma").p; tol = c.get(b, "half_tolerance").p
    it = c.len("it", 2)
    c.assume(le(it, c.get(b, "max_iter").p))
    p = same_member(c, hs, m, h, new)
    e = edge_of(c, S, n, d, h); g1 = T.vmin(e, g0)
    obj = c.real("obj")
    c.stub_named("MLPBoost::objval", lambda a: (objs.append((a, obj, c.ev.ctx)), Num(obj, "f"))[1])
    c.assume(le(g1 - obj, tol) if stop else lt(tol, g1 - obj))
    r = c.call("MLPBoost::boost", b, W, Num(it, "u"))
    check(); shown(c, "round", given, S, n, lambda i: c.at(d, i))
    c.ensure_eq("smallest edge so far", c.get(b, "gamma"), g1)
    if not objs: raise Unsupported("the objective is not computed by MLPBoost::objval")
    for a, v, cx in objs: same_seq(c, "the objective is that of the current weights", a["weights"], m, lambda i: c.at(w, i), cx)
    if stop:
        stops(c, "stops when the smallest edge is within half the tolerance of the objective", r, True, it)
        c.ensure_eq("the round is recorded", c.get(b, "terminated"), it)
        same_seq(c, "the votes are kept", c.get(b, "weights"), m, lambda i: c.at(w, i))
        ensure_members(c, "members", b, m, hs, h, False)
        c.ensure("no step is taken", bconst(not steps and not seco and not kept)) if not (steps or seco or kept) else None
        return
    stops(c, "goes on while the smallest edge is further from the objective", r, False)
    ensure_members(c, "members", b, m, hs, h, new)
    ensure_step(c, steps, it, S, d, n, m, hs, h, w, p, new)
    c.ensure("the linear program is solved once", bconst(len(seco) == 1)); c.ensure("the two weightings are compared once", bconst(len(kept) == 1))
    for o, q, cx in seco:
        if new: c.ensure("the linear program gets the new hypothesis", band(o.c, T.eqo(c.ev.rd(o.v).p, h.p)), cx)
        else: c.ensure("the linear program gets no hypothesis twice", bnot(o.c), cx)
    for a, x, cx in kept:
        same_seq(c, "compared: the Frank-Wolfe weighting", a["w1"], seq_len(steps[0][1]), lambda i: c.at(steps[0][1], i), cx)
        same_seq(c, "compared: the linear program's weighting", a["w2"], seq_len(seco[0][1]), lambda i: c.at(seco[0][1], i), cx)


@contract("A11", "MLPBoost::boost: a new hypothesis")
def _(c): mlp_round(c, False, True)

@contract("A11", "MLPBoost::boost: a hypothesis seen before")
def _(c): mlp_round(c, False, False)

@contract("A11", "MLPBoost::boost: optimal")
def _(c): mlp_round(c, True, True)


@contract("A11", "MLPBoost::boost past the limit")
def _(c):
    m = c.len("T", 1)
    given, W, h, S, n, w, hs, b, d, check, seco, kept, steps, objs = mlp(c, m)
    it = c.len("it", 1); lim = c.get(b, "max_iter").p
    c.assume(lt(lim, it))
    r = c.call("MLPBoost::boost", b, W, Num(it, "u"))
    stops(c, "past the limit", r, True, lim)
    c.ensure("past the limit: the weak learner is not asked", bconst(len(given) == 0))
    same_seq(c, "past the limit: votes unchanged", c.get(b, "weights"), m, lambda i: c.at(w, i))
    ensure_members(c, "past the limit: members", b, m, hs, h, False)


def limits(c, ty, file, field):
    S = c.sample(); n = c.get(S, "n_sample").p
    c.stub(("Sample", "is_valid_binary_instance"), lambda ev, a: UNIT)
    b = c.cell(c.struct(ty, file=file, name="b", over={"sample": S}))
    nu = c.get(b, "nu").p; tol = c.get(b, "half_tolerance").p
    c.assume(le(1, nu), le(nu, n), lt(0, tol))
    return S, n, b, nu, tol


def limits_set(c, b, n, nu, tol, field):
    lnr = T.ln(n * T.inv(nu))
    c.ensure_eq("regularisation: ln(n/nu) / half the tolerance", c.get(b, "eta"), lnr * T.inv(tol))
    c.ensure_eq("the Frank-Wolfe step uses the same regularisation", c.get(b, field, "eta"), lnr * T.inv(tol))
    lim = T.vmax(T.ceil(P(8) * lnr * T.inv(tol * tol)), ONE)
    c.ensure_eq("round limit: 8 ln(n/nu) / half the tolerance squared, rounded up, at least 1", c.get(b, "max_iter"), lim)
    c.ensure_eq("termination round starts at the limit", c.get(b, "terminated"), lim)
    forgets(c, b, "weights", "hypotheses")


@contract("A11", "MLPBoost::preprocess")
def _(c):
    S, n, b, nu, tol = limits(c, "MLPBoost", ML, "primary")
    for x in ("started",): c.declared.add(x)
    c.stub(("LPModel", "init"), lambda ev, a: Opq("LP", T.app("started", tuple(ev.rd(x).p for x in a), "LP")))
    c.call("MLPBoost::preprocess", b, c.opq("W", "WL"))
    limits_set(c, b, n, nu, tol, "primary")
    c.ensure_eq("smallest edge so far starts at 1", c.get(b, "gamma"), 1)
    o = c.get(b, "secondary")
    c.ensure("the solver is present", o.c)
    c.ensure("a fresh solver for n examples with the cap 1/nu", T.eqo(c.ev.rd(o.v).p, T.app("started", (c.get(b, "eta").p, n, T.inv(nu)), "LP")))


@contract("A11", "MLPBoost::postprocess/current_hypothesis")
def _(c): final_vote(c, "MLPBoost", ML)


@contract("A06", "CERLPBoost::preprocess")
def _(c):
    S, n, b, nu, tol = limits(c, "CERLPBoost", CE, "frank_wolfe")
    c.call("CERLPBoost::preprocess", b, c.opq("W", "WL"))
    uniform_start(c, b, n)
    limits_set(c, b, n, nu, tol, "frank_wolfe")


@contract("A06", "CERLPBoost::postprocess/current_hypothesis")
def _(c): final_vote(c, "CERLPBoost", CE)


def cerlp(c, m):
    given = []
    W, h = learner(c, given)
    S = c.sample(); n = c.get(S, "n_sample").p
    w = c.reals("vote", m); hs = c.opqs("member", m, "H")
    b = c.cell(c.struct("CERLPBoost", file=CE, name="b", over={"sample": S, "hypotheses": hs, "weights": w, "dist": c.dist("d0", n, pos=False)}))
    d, check = exp_dist(c, b, S, n, m, w, hs)
    steps = []
    fw_step(c, n, m, steps)
    return given, W, h, S, n, w, hs, b, d, check, steps


def cerlp_round(c, stop, new):
    m = c.len("T")
    given, W, h, S, n, w, hs, b, d, check, steps = cerlp(c, m)
    tol = c.get(b, "half_tolerance").p
    it = c.len("it", 1)
    c.assume(le(it, c.get(b, "max_iter").p))
    p = same_member(c, hs, m, h, new)
    e = edge_of(c, S, n, d, h)
    y = c.get(S, "target")
    old = sum_(n, lambda i: c.at(d, i) * c.at(y, i) * sum_(m, lambda t: c.at(w, t) * conf(c.at(hs, t), the_id(S), i)))
    c.assume(le(e - old, tol) if stop else lt(tol, e - old))
    r = c.call("CERLPBoost::boost", b, W, Num(it, "u"))
    check(); shown(c, "round", given, S, n, lambda i: c.at(d, i))
    same_seq(c, "the distribution of the round is kept", c.get(b, "dist"), n, lambda i: c.at(d, i))
    if stop:
        stops(c, "stops when the new edge exceeds the current one by at most half the tolerance", r, True, it)
        c.ensure_eq("the round is recorded", c.get(b, "terminated"), it)
        same_seq(c, "the votes are kept", c.get(b, "weights"), m, lambda i: c.at(w, i))
        ensure_members(c, "members", b, m, hs, h, False)
        return
    stops(c, "goes on while the new edge exceeds the current one by more", r, False)
    ensure_members(c, "members", b, m, hs, h, new)
    ensure_step(c, steps, it, S, d, n, m, hs, h, w, p, new)
    for a, x, cx in steps: same_seq(c, "the weights are those of the Frank-Wolfe step", c.get(b, "weights"), seq_len(x), lambda i: c.at(x, i))


@contract("A06", "CERLPBoost::boost: a new hypothesis")
def _(c): cerlp_round(c, False, True)

@contract("A06", "CERLPBoost::boost: a hypothesis seen before")
def _(c): cerlp_round(c, False, False)

@contract("A06", "CERLPBoost::boost: optimal")
def _(c): cerlp_round(c, True, True)


@contract("A06", "CERLPBoost::boost past the limit")
def _(c):
    m = c.len("T", 1)
    given, W, h, S, n, w, hs, b, d, check, steps = cerlp(c, m)
    it = c.len("it", 1); lim = c.get(b, "max_iter").p
    c.assume(lt(lim, it))
    r = c.call("CERLPBoost::boost", b, W, Num(it, "u"))
    stops(c, "past the limit", r, True, lim)
    c.ensure("past the limit: the weak learner is not asked", bconst(len(given) == 0))
    same_seq(c, "past the limit: votes unchanged", c.get(b, "weights"), m, lambda i: c.at(w, i))
    ensure_members(c, "past the limit: members", b, m, hs, h, False)
