from contract import *

F = "gradient_boost/gbm"


def rpred(h, S, i): return T.app("rpred", (P(h), the_id(S), P(i)), "R")


def gbm(c, **over):
    S = c.sample(binary=False); n = c.get(S, "n_sample").p; m = c.len("T")
    w = c.reals("coef", m); hs = c.opqs("member", m, "HR")
    # the predictions kept are those of the additive model
    p = Seq([Seg(n, *(lambda k: (k, Num(sum_(m, lambda t: c.at(w, t) * rpred(c.at(hs, t), S, k)), "f")))(fresh("k")))])
    o = {"sample": S, "weights": w, "hypotheses": hs, "predictions": p, "loss": c.opq("loss", "L")}
    o.update(over)
    return c.cell(c.struct("GBM", file=F, name="b", over=o)), S, n, m, w, hs, p


def round_(c, coef):
    given = []; asked = []
    h = c.opq("h", "HR")
    def produce(ev, a):
        given.append((the_id(ev.rd(a[1])), ev.rd(a[2]), ev.ctx)); return h
    def best(ev, a):
        asked.append((ev.rd(a[1]), ev.rd(a[2]), ev.ctx)); return Num(coef, "f")
    c.stub(("WL", "produce"), produce); c.stub(("L", "best_coefficient"), best)
    return c.opq("W", "WL"), h, given, asked


def asked_once(c, given, asked, S, n, p, h):
    c.ensure("the weak learner is asked once", bconst(len(given) == 1))
    y = c.get(S, "target")
    for s, q, cx in given:
        c.ensure("it sees the training sample", T.eqo(s, the_id(S)), cx)
        k = fresh("k")
        c.ensure("it sees the current predictions", band(eq(seq_len(q), n), T.forall(k, n, eq(c.at(q, P(k)), c.at(p, P(k))))), cx)
    c.ensure("one coefficient is chosen", bconst(len(asked) == 1))
    for r, q, cx in asked:
        k = fresh("k")
        c.ensure("residuals are y - prediction", band(eq(seq_len(r), n), T.forall(k, n, eq(c.at(r, P(k)), c.at(y, P(k)) - c.at(p, P(k))))), cx)
        k = fresh("k")
        c.ensure("the direction is the new member's prediction", band(eq(seq_len(q), n), T.forall(k, n, eq(c.at(q, P(k)), rpred(h.p, S, P(k))))), cx)


@contract("A12", "GBM::boost (a regular round)")
def _(c):
    a = c.real("alpha"); c.assume(bnot(eq(a, 0)))
    W, h, given, asked = round_(c, a)
    b, S, n, m, w, hs, p = gbm(c)
    it = c.len("it", 1); c.assume(le(it, c.get(b, "max_iter").p))
    r = c.call("GBM::boost", b, W, Num(it, "u"))
    asked_once(c, given, asked, S, n, p, h)
    c.ensure("training goes on", bconst(isinstance(r, Enum) and r.var == "Continue"))
    q = c.get(b, "weights"); g = c.get(b, "hypotheses")
    c.ensure_eq("one more coefficient", seq_len(q), m + 1)
    c.ensure_eq("one more member", seq_len(g), m + 1)
    c.ensure_all("earlier coefficients kept", m, lambda i: eq(c.at(q, i), c.at(w, i)))
    c.ensure_all("earlier members kept", m, lambda i: T.eqo(c.at(g, i), c.at(hs, i)))
    c.ensure_eq("its coefficient is the chosen one", c.at(q, m), a)
    c.ensure("the new member is last", T.eqo(c.at(g, m), h.p))
    c.ensure_seq("predictions are those of the additive model", c.get(b, "predictions"), n,
                 lambda i: sum_(m, lambda t: c.at(w, t) * rpred(c.at(hs, t), S, i)) + a * rpred(h.p, S, i))


@contract("A12", "GBM::boost (zero coefficient)")
def _(c):
    W, h, given, asked = round_(c, ZERO)
    b, S, n, m, w, hs, p = gbm(c)
    it = c.len("it", 1); c.assume(le(it, c.get(b, "max_iter").p))
    r = c.call("GBM::boost", b, W, Num(it, "u"))
    asked_once(c, given, asked, S, n, p, h)
    c.ensure("training stops", bconst(isinstance(r, Enum) and r.var == "Break"))
    c.ensure_seq("coefficients unchanged", c.get(b, "weights"), m, lambda i: c.at(w, i))
    c.ensure_seq("members unchanged", c.get(b, "hypotheses"), m, lambda i: c.at(hs, i))
    c.ensure_seq("predictions unchanged", c.get(b, "predictions"), n, lambda i: c.at(p, i))


@contract("A12", "GBM::boost (past the round limit)")
def _(c):
    W, h, given, asked = round_(c, c.real("alpha"))
    b, S, n, m, w, hs, p = gbm(c)
    it = c.len("it", 1); c.assume(lt(c.get(b, "max_iter").p, it))
    r = c.call("GBM::boost", b, W, Num(it, "u"))
    c.ensure("training stops", bconst(isinstance(r, Enum) and r.var == "Break"))
    c.ensure("the weak learner is not asked", bconst(not given))
    c.ensure_seq("coefficients unchanged", c.get(b, "weights"), m, lambda i: c.at(w, i))
    c.ensure_seq("members unchanged", c.get(b, "hypotheses"), m, lambda i: c.at(hs, i))


@contract(("A12", "A13"), "GBM::preprocess")
def _(c):
    W, h, given, asked = round_(c, ZERO)
    b, S, n, m, w, hs, p = gbm(c)
    c.call("GBM::preprocess", b, W)
    c.ensure_eq("coefficients forgotten", seq_len(c.get(b, "weights")), 0)
    c.ensure_eq("members forgotten", seq_len(c.get(b, "hypotheses")), 0)
    c.ensure_seq("predictions start at zero", c.get(b, "predictions"), n, lambda i: ZERO)


@contract("A12", "GBM::postprocess and current_hypothesis")
def _(c):
    W, h, given, asked = round_(c, ZERO)
    b, S, n, m, w, hs, p = gbm(c)
    S2 = c.sample("S2", n=c.len("n2", 1), binary=False); i = c.index("row", c.get(S2, "n_sample").p)
    fs = [("returned", lambda: c.call("GBM::postprocess", b, W))]
    if "current_hypothesis" in c.prog.methods.get("GBM", {}): fs.append(("logged", lambda: c.call("GBM::current_hypothesis", b)))
    for label, f in fs:
        r = f()
        c.ensure_seq("%s: the coefficients, not rescaled" % label, c.get(r, "weights"), m, lambda k: c.at(w, k))
        c.ensure_seq("%s: all members" % label, c.get(r, "hypotheses"), m, lambda k: c.at(hs, k))
        x = c.call("WeightedMajority::predict", r, S2, Num(i, "u"), trait="Regressor")
        c.ensure_eq("%s: prediction on any row is the accumulated sum" % label, x, sum_(m, lambda t: c.at(w, t) * rpred(c.at(hs, t), S2, i)))


@contract("A12", "GBM settings and init")
def _(c):
    S = c.sample(binary=False); n = c.get(S, "n_sample").p; L = c.opq("loss", "L")
    b = c.call("GBM::init_with_loss", S, L)
    c.ensure_seq("predictions start at zero", c.get(b, "predictions"), n, lambda i: ZERO)
    c.ensure("the loss is the given one", T.eqo(c.get(b, "loss").p, L.p))
    t = c.real("tol")
    c.ensure_eq("tolerance is recorded", c.get(c.call("GBM::tolerance", b, t), "tolerance"), t)
    L2 = c.opq("loss2", "L")
    c.ensure("loss is recorded", T.eqo(c.get(c.call("GBM::loss", b, L2), "loss").p, L2.p))
