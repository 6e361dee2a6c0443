from contract import *
from lib_boost import learner, shown

GS = "graph_separation_algorithm"
"""rows are vertices; edges[i] is the set of rows that row i is not yet separated from"""


def has(e, i, j):
    m = seq_get(e, i)
    return bsub(m.pres, {m.k: P(j)})


def booster(c, edges=None, n_edges=None):
    S = c.sample(); n = c.get(S, "n_sample").p
    c.ev.key_range = n
    hs = c.opqs("member", c.len("T"), "H")
    over = {"sample": S, "hypotheses": hs, "edges": edges(n) if edges else empty()}
    if n_edges: over["n_edges"] = Num(n_edges(n), "u")
    return c.cell(c.struct("GraphSepBoost", file=GS, name="b", over=over)), S, n, c.get(S, "target"), hs


def joined(c, name="joined"):
    """an arbitrary family of sets of rows"""
    c.declared.add(name)
    def edges(n):
        i, j = fresh("i", "I"), fresh("j", "I")
        b = band(le0(-P(j)), lt(P(j), n), T.bapp(name, [P(i), P(j)]))
        return Seq([Seg(n, i, MapV(j, b, UNIT))])
    return lambda i, j: T.bapp(name, [P(i), P(j)]), edges


def total(n, f): return sum_(n, lambda i: sum_(n, lambda j: T.ind(f(i, j))))


@contract("A05", "GraphSepBoost::preprocess")
def _(c):
    b, S, n, y, _ = booster(c)
    c.call("GraphSepBoost::preprocess", b, c.opq("W", "WL"), trait="Booster")
    i, j = c.index("i", n), fresh("j", "I")
    rel = lambda i, j: bnot(eq(c.at(y, i), c.at(y, j)))
    c.ensure("row i is joined to exactly the rows of the other label", iff(has(c.get(b, "edges"), i, P(j)), band(le0(-P(j)), lt(P(j), n), rel(i, P(j)))))
    c.ensure_eq("one set per row", seq_len(c.get(b, "edges")), n)
    c.ensure_eq("the pairs are counted", c.get(b, "n_edges"), total(n, rel))
    c.ensure_eq("no members yet", seq_len(c.get(b, "hypotheses")), ZERO)


def pred1(c, h, S, i): return T.ite(le(0, conf(h, the_id(S), i)), const(1), const(-1))
def pred(c, h, S, i): return pred1(c, h.p, S, i)


@contract("A05", "GraphSepBoost::update_params")
def _(c):
    rel, edges = joined(c)
    b, S, n, y, hs = booster(c, edges)
    h = c.opq("h", "H")
    c.call("GraphSepBoost::update_params", b, h)
    i, j = c.index("i", n), c.index("j", n)
    c.ensure("exactly the pairs that h separates are removed", iff(has(c.get(b, "edges"), i, j), band(rel(i, j), eq(pred(c, h, S, i), pred(c, h, S, j)))))
    c.ensure_eq("one set per row", seq_len(c.get(b, "edges")), n)


@contract("A05", "GraphSepBoost::boost")
def _(c):
    rel, edges = joined(c)
    b, S, n, y, hs = booster(c, edges, lambda n: total(n, rel))
    given = []
    W, h = learner(c, given)
    it = c.int("iteration")
    r = c.call("GraphSepBoost::boost", b, W, it, trait="Booster")
    t = total(n, rel)
    live = lt(0, t)
    after = lambda i, j: band(rel(i, j), eq(pred(c, h, S, i), pred(c, h, S, j)))
    t2 = total(n, after)
    c.ensure("the learner is asked at most once", bconst(len(given) == 1))
    for s, q, cx in given:
        c.ensure("only while a pair is left", live, cx)
        c.ensure("it sees the training sample", T.eqo(s, the_id(S)), cx)
        k = c.index("k", n)
        c.ensure("row k is shown its share of the unseparated pairs", eq(c.at(q, k), sum_(n, lambda j: T.ind(rel(k, j))) * T.inv(t)), cx)
    alts = r.alts if isinstance(r, Cases) else [(TRUE, r)]
    when = lambda p: bor(*[g for g, v in alts if p(v)])
    stop = lambda v: v.var == "Break"
    c.ensure("training ends when no pair was left or none was separated", iff(when(stop), bor(bnot(live), eq(t2, t))))
    for g, v in alts:
        if stop(v):
            c.ensure("ends before the round when no pair was left", implies(band(g, bnot(live)), eq(v.xs[0].p, it)))
            c.ensure("ends after the round when none was separated", implies(band(g, live), eq(v.xs[0].p, it + 1)))
    i, j = c.index("i", n), c.index("j", n)
    c.ensure("exactly the pairs that h separates are removed", implies(live, iff(has(c.get(b, "edges"), i, j), after(i, j))))
    c.ensure("the remaining pairs are counted", implies(live, eq(c.num(c.get(b, "n_edges")).p, t2)))
    q = c.get(b, "hypotheses"); m = seq_len(hs)
    c.ensure("one more member", implies(live, eq(seq_len(q), m + 1)))
    c.ensure("earlier members kept", implies(live, all_(m, lambda i: T.eqo(c.at(q, i), c.at(hs, i)))))
    c.ensure("the new member is last", implies(live, T.eqo(c.at(q, m), h.p)))


def bits(c, name, K, T_):
    """K arbitrary bit patterns of length T"""
    c.declared.add(name)
    k, t = fresh("k", "I"), fresh("t", "I")
    e = Seq([Seg(T_, t, Boo(T.bapp(name, [P(k), P(t)])))])
    return (lambda k, t: T.bapp(name, [P(k), P(t)])), Seq([Seg(K, k, e)])


@contract("A05", "NaiveAggregation::confidence")
def _(c):
    S = c.sample(); i = c.index("row", c.get(S, "n_sample").p)
    m = c.len("T"); K = c.len("K"); hs = c.opqs("h", m, "H")
    bit, pats = bits(c, "bit", K, m)
    f = c.struct("NaiveAggregation", over={"hypotheses": hs, "prediction": pats})
    r = c.call("NaiveAggregation::confidence", f, S, Num(i, "u"), trait="Classifier")
    vote = lambda t: eq(pred1(c, c.at(hs, t), S, i), 1)
    seen = any_(K, lambda k: all_(m, lambda t: iff(vote(t), bit(k, t))))
    c.ensure("+1 exactly when the pattern of the members' predictions is a stored one", eq(r.p, T.ite(seen, const(1), const(-1))))


@contract("A05", "NaiveAggregation::new")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p; y = c.get(S, "target")
    m = c.len("T"); hs = c.opqs("h", m, "H")
    f = c.call("NaiveAggregation::new", hs, S)
    c.ensure_seq("the members, in order", c.get(f, "hypotheses"), m, lambda t: c.at(hs, t))
    # one pattern per positive row: bit t is member t's prediction there
    q = c.get(f, "prediction")
    ok = len(q.segs) == 1 and isinstance(q.segs[0].e, Seq) and not q.segs[0].flat
    if not ok: raise Unsupported("the stored patterns are not one per selected row")
    s = q.segs[0]; i = c.index("row", n); t = c.index("t", m)
    c.ensure_eq("a pattern is considered for every row", s.n, n)
    c.ensure("exactly the positive rows have a pattern", iff(bsub(s.g, {s.k: i}), lt(0, c.at(y, i))))
    bits_ = vsubst(s.e, {s.k: i})
    c.ensure("patterns have one bit per member", implies(lt(0, c.at(y, i)), eq(seq_len(bits_), m)))
    c.ensure("a bit is set when the member predicts +1", implies(lt(0, c.at(y, i)), iff(seq_get(bits_, t).b, eq(pred1(c, c.at(hs, t), S, i), 1))))


for name, side in (("positive", lambda y: lt(0, y)), ("negative", lambda y: lt(y, 0))):
    @contract("A05", "NaiveAggregation: correct on a separated %s row" % name)
    def _(c, side=side, name=name):
        """the answer on a training row that is separated from every row of the other label"""
        S = c.sample(); n = c.get(S, "n_sample").p; y = c.get(S, "target")
        m = c.len("T"); hs = c.opqs("h", m, "H"); i = c.index("row", n)
        plus = lambda t, j: le(0, conf(c.at(hs, t), the_id(S), j))
        c.assume(side(c.at(y, i)))
        c.assume(all_(n, lambda q: bor(eq(c.at(y, i), c.at(y, q)), any_(m, lambda t: bnot(iff(plus(t, i), plus(t, q)))))))
        f = c.call("NaiveAggregation::new", hs, S)
        r = c.call("NaiveAggregation::confidence", f, S, Num(i, "u"), trait="Classifier")
        c.ensure("its label is answered", eq(r.p, const(1 if name == "positive" else -1)))


@contract("A05", "GraphSepBoost::postprocess")
def _(c):
    rel, edges = joined(c)
    b, S, n, y, hs = booster(c, edges)
    got = []
    c.stub(("NaiveAggregation", "new"), lambda ev, a: got.append([ev.rd(x) for x in a]) or UNIT)
    c.call("GraphSepBoost::postprocess", b, c.opq("W", "WL"), trait="Booster")
    c.ensure("the aggregation is built once", bconst(len(got) == 1))
    h, s = got[0]
    c.ensure_seq("from all members", h, seq_len(hs), lambda t: c.at(hs, t))
    c.ensure("on the training sample", T.eqo(the_id(s), the_id(S)))
