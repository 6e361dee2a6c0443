"""shared by the contracts of the boosters"""
from contract import *


def learner(c, given):
    """an arbitrary weak learner: returns some hypothesis; what it is shown is recorded in `given`"""
    h = c.opq("h", "H")
    def produce(ev, a):
        s = ev.rd(a[1]); d = ev.rd(a[2])
        given.append((the_id(s), d, ev.ctx))
        return h
    c.stub(("WL", "produce"), produce)
    return c.opq("W", "WL"), h


def booster(c, ty, file, extra=None, dist=None, S=None, T_=None):
    S = S or c.sample()
    n = c.get(S, "n_sample").p
    m = c.len("T") if T_ is None else T_
    d = dist if dist is not None else c.dist("d", n)
    w = c.reals("vote", m); hs = c.opqs("member", m, "H")
    over = {"sample": S, "dist": d, "weights": w, "hypotheses": hs}
    over.update(extra or {})
    return c.cell(c.struct(ty, file=file, name="b", over=over)), S, n, m, d, w, hs


def edge_of(c, S, n, d, h):
    y = c.get(S, "target")
    return sum_(n, lambda i: c.at(y, i) * conf(h.p, the_id(S), i) * c.at(d, i))


def var_of(ev, r):
    r = ev.rd(r)
    return r


def first_members(c, label, b, m, w, hs, vote, h): first_members_of(c, label, b, m, w, hs, vote, h, "weights")


def first_members_of(c, label, b, m, w, hs, vote, h, wname):
    """members and votes are the earlier ones followed by (h, vote)"""
    q = c.get(b, wname); g = c.get(b, "hypotheses")
    c.ensure_eq(label + ": one more vote", seq_len(q), m + 1)
    c.ensure_eq(label + ": one more member", seq_len(g), m + 1)
    c.ensure_all(label + ": earlier votes kept", m, lambda i: eq(c.at(q, i), c.at(w, i)))
    c.ensure_all(label + ": earlier members kept", m, lambda i: T.eqo(c.at(g, i), c.at(hs, i)))
    c.ensure_eq(label + ": the member's vote", c.at(q, m), vote)
    c.ensure(label + ": the new member is last", T.eqo(c.at(g, m), h.p))


def shown(c, label, given, S, n, d):
    c.ensure(label + ": the weak learner is asked exactly once", bconst(len(given) == 1))
    for s, q, cx in given:
        c.ensure(label + ": it sees the training sample", T.eqo(s, the_id(S)), cx)
        k = fresh("k")
        c.ensure(label + ": it sees the current distribution", T.forall(k, n, eq(c.at(q, P(k)), d(P(k)))), cx)


def uniform_start(c, b, n, field="dist"):
    c.ensure_seq("uniform distribution", c.get(b, field), n, lambda i: T.inv(n))


def forgets(c, b, *fields):
    for f in fields:
        c.ensure_eq("%s forgotten" % f, seq_len(c.get(b, f)), 0)


def limit(c, b, quit_at, loop, q):
    c.ensure_eq("round limit: force_quit_at if given, else max_loop", c.get(b, "max_iter"), T.ite(q, P(quit_at), P(loop)))


def breaks(c, label, r, val):
    c.ensure(label + ": stops", bconst(isinstance(r, Enum) and r.var == "Break"))
    if isinstance(r, Enum) and r.var == "Break": c.ensure_eq(label + ": reported round", r.xs[0], val)


def after_limit(c, ty, file, wname="weights"):
    given = []
    W, h = learner(c, given)
    b, S, n, m, d, w, hs = booster(c, ty, file) if ty != "MadaBoost" else mada(c)
    it = c.len("it", 1)
    lim = c.get(b, "max_iter").p
    c.assume(lt(lim, it))
    r = c.call(ty + "::boost", b, W, Num(it, "u"))
    breaks(c, "past the limit", r, lim)
    c.ensure("past the limit: the weak learner is not asked", bconst(len(given) == 0))
    c.ensure_seq("past the limit: votes unchanged", c.get(b, wname), m, lambda i: c.at(w, i))
    c.ensure_seq("past the limit: members unchanged", c.get(b, "hypotheses"), m, lambda i: c.at(hs, i))


def perfect(c, ty, file, wname="weights"):
    given = []
    W, h = learner(c, given)
    b, S, n, m, d, w, hs = booster(c, ty, file)
    it = c.len("it", 1)
    c.assume(le(it, c.get(b, "max_iter").p))
    e = edge_of(c, S, n, d, h)
    c.assume(bor(le(1, e), le(e, -1)))
    r = c.call(ty + "::boost", b, W, Num(it, "u"))
    breaks(c, "|edge| >= 1", r, it)
    c.ensure_eq("|edge| >= 1: a single vote", seq_len(c.get(b, wname)), 1)
    c.ensure_eq("|edge| >= 1: the vote is the sign of the edge", c.at(c.get(b, wname), 0), T.signum(e))
    c.ensure_eq("|edge| >= 1: a single member", seq_len(c.get(b, "hypotheses")), 1)
    c.ensure("|edge| >= 1: the member is the new hypothesis", T.eqo(c.at(c.get(b, "hypotheses"), 0), h.p))


def final_vote(c, ty, file, wname="weights"):
    """postprocess and current_hypothesis: every member with its vote, scaled to sum |w| = 1"""
    W, h = learner(c, [])
    S = c.sample(); m = c.len("T", 1); w = c.reals("vote", m); hs = c.opqs("member", m, "H")
    z = sum_(m, lambda i: T.absv(c.at(w, i)))
    c.assume(bnot(eq(z, 0)))
    b = c.cell(c.struct(ty, file=file, name="b", over={"sample": S, wname: w, "hypotheses": hs}))
    i = c.index("row", c.get(S, "n_sample").p)
    for label, f in (("returned", lambda: c.call(ty + "::postprocess", b, W)), ("logged", lambda: c.call(ty + "::current_hypothesis", b))):
        r = f()
        x = c.call("WeightedMajority::confidence", r, S, Num(i, "u"), trait="Classifier")
        c.ensure_eq("%s hypothesis is the normalised vote of the members" % label, x, sum_(m, lambda t: c.at(w, t) * conf(c.at(hs, t), the_id(S), i)) * T.inv(z))
    nz = lambda t: bnot(eq(c.at(w, t), 0))
    r = c.call(ty + "::postprocess", b, W)
    c.ensure_filtered("votes are scaled to total 1", c.get(r, "weights"), m, nz, lambda t: c.at(w, t) * T.inv(z))
    c.ensure_seq("the booster keeps its votes", c.get(b, wname), m, lambda i: c.at(w, i))


def settings(c, ty, file, methods):
    for mname, field in methods:
        b = c.struct(ty, file=file, name="b")
        if field == "force_quit_at":
            k = c.len("k"); r = c.call(ty + "::" + mname, b, Num(k, "u"))
            o = c.get(r, field)
            c.ensure("%s is recorded" % mname, o.c); c.ensure_eq("%s value" % mname, o.v, k)
        else:
            t = c.real("t"); r = c.call(ty + "::" + mname, b, t)
            c.ensure_eq("%s is recorded" % mname, c.get(r, field), t)


def mada(c):
    S = c.sample(); n = c.get(S, "n_sample").p; m = c.len("T")
    bt = c.reals("beta", n); w = c.reals("vote", m); hs = c.opqs("member", m, "H")
    b = c.cell(c.struct("MadaBoost", file="madaboost_algorithm", name="b", over={"sample": S, "betas": bt, "alphas": w, "hypotheses": hs}))
    v = c.define_seq("capped", n, lambda i: T.vmin(c.at(bt, i), ZERO))      # min(beta_i, 0)
    z = sum_(n, lambda i: T.exp(v(i)))
    d = c.define_seq("d", n, lambda i: T.exp(v(i)) * T.inv(z))              # the distribution: exp(min(beta_i, 0)) scaled to 1
    return b, S, n, m, (bt, d), w, hs


def mada_edge(c, S, n, d, h):
    y = c.get(S, "target")
    return sum_(n, lambda i: c.at(y, i) * conf(h.p, the_id(S), i) * d(i))

