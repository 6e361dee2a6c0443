"""Decision and regression trees (properties T01, T02, T03)."""
from contract import *
from lib_trees import *
from eval import str_eq


# ---------------------------------------------------------------- regression trees
def grad_hess(c, n):
    g = c.reals("gradient", n); h = c.reals("hessian", n)
    lam = c.real("lambda", lo=0)
    return g, h, lam


def rows(c, n, name="row"):
    m = c.len("m", 1)
    c.declared.add(name)
    k = fresh("k")
    f = lambda i: T.app(name, (P(i),), "I")
    c.assume(T.forall(k, m, band(le(0, f(P(k))), lt(f(P(k)), n))))
    c.gens[name] = lambda M, i: M.rng.randint(0, max(0, int(M.val(n)) - 1)) if hasattr(M, "val") else M.rng.randint(0, 1)
    q = fresh("k")
    return Seq([Seg(m, q, Num(f(P(q)), "u"))]), m, f


@contract("T03", "prediction_and_loss")
def _(c):
    n = c.len("n", 1); g, h, lam = grad_hess(c, n); I, m, row = rows(c, n)
    c.assume(lt(0, sum_(m, lambda k: c.at(h, row(k))) + lam))
    r = c.call("prediction_and_loss", I, g, h, lam)
    gs = sum_(m, lambda k: c.at(g, row(k))); hs = sum_(m, lambda k: c.at(h, row(k)))
    c.ensure_eq("leaf value = - gradients / (second derivatives + lambda)", c.get(r, "0"), -gs * T.inv(hs + lam))
    c.ensure_eq("leaf loss", c.get(r, "1"), -const(Fraction(1, 2)) * gs * gs * T.inv(hs + lam))


@contract("T03", "best_split_at")
def _(c):
    m = c.len("m", 1); lam = c.real("lambda", gt=0)
    for nm in ("g", "h", "lo", "hi"): c.declared.add(nm)
    f = lambda nm: (lambda i: T.app(nm, (P(i),), "R"))
    g, h, lo, hi = map(f, ("g", "h", "lo", "hi"))
    c.assume(all_(m, lambda k: le(0, h(k))))
    c.gens["h"] = lambda M, i: abs(M.rng.gauss(0, 1))
    k = fresh("k"); K = P(k)
    t = c.tkey("Bin", REG)
    pack = Seq([Seg(m, k, Tup([Struct(t, {"0": Rng(Num(lo(K), "f"), Num(hi(K), "f"), False)}), Num(g(K), "f"), Num(h(K), "f")]))])
    G = sum_(m, g); H = sum_(m, h)
    L = lambda q, k: sum_(P(k), q) + q(P(k))
    score = c.loop_name("score", lambda k: L(g, k) * L(g, k) * T.inv(L(h, k) + lam) + (G - L(g, k)) * (G - L(g, k)) * T.inv(H - L(h, k) + lam))
    r = c.call("best_split_at", pack, lam)
    best, thr = c.num(c.get(r, "0")), c.num(c.get(r, "1"))
    MIN = -const(Fraction(2) ** 1024 - Fraction(2) ** 971)
    c.lemma("scores are not negative", all_(m, lambda k: le(0, score(k))), unfold=True)
    b = optimum(c, thr, "max", MIN, m, score)
    c.ensure_all("no boundary has a better score", m, lambda k: le(score(k), best.p))
    c.ensure("the threshold is a boundary with the best score", band(le(0, b), lt(b, m), eq(thr.p, hi(b)), eq(best.p, score(b))))


# ---------------------------------------------------------------- routing
@contract(("T02", "T03"), "Splitter::split")
def _(c):
    n = c.len("n", 1); s = Table(c, n); f = s.name("f"); thr = c.real("thr"); i = c.index("i", n)
    r = c.call("Splitter::split", splitter(c, f, thr), s.v, i)
    c.ensure("left iff the value is below the threshold", iff(c.ev.equal(r, c.enum("LR", "Left")), lt(s.x(f, i), thr)))
    c.ensure("right otherwise", iff(c.ev.equal(r, c.enum("LR", "Right")), le(thr, s.x(f, i))))


def children(c, method):
    """two opaque subtrees; value(node, row) is what they return for a row"""
    c.stub(("Node", method), lambda ev, a: Num(T.app("value", (ev.rd(a[0]).p, ev.rd(a[2]).p), "R"), "f"))
    c.declared.add("value")
    return c.opq("left", "Node"), c.opq("right", "Node")


def node_value(c, kind, method, leaf_field):
    n = c.len("n", 1); s = Table(c, n); f = s.name("f"); thr = c.real("thr"); i = c.index("i", n)
    l, r = children(c, method)
    b = c.struct("BranchNode", file=kind, over={"rule": splitter(c, f, thr), "left": l, "right": r})
    v = c.call("Node::%s" % method, c.enum("Node", "Branch", b, file=kind), s.v, i, file=kind)
    sub = lambda q: T.app("value", (q.p, P(i)), "R")
    c.ensure_eq("a branch routes a row left iff its value is below the threshold", v, T.ite(lt(s.x(f, i), thr), sub(l), sub(r)))
    p = c.real("p"); w = c.tkey("Prediction" if method == "predict" else "Confidence")
    leaf = c.struct("LeafNode", file=kind, over={leaf_field: Struct(w, {"0": Num(P(p), "f")})})
    v = c.call("Node::%s" % method, c.enum("Node", "Leaf", leaf, file=kind), s.v, i, file=kind)
    c.ensure_eq("a leaf returns its value", v, p)


@contract("T03", "Node::predict (regression tree)")
def _(c): node_value(c, REG, "predict", "prediction")


@contract("T02", "Node::confidence (decision tree)")
def _(c): node_value(c, CLS, "confidence", "confidence")


# ---------------------------------------------------------------- training trees
def train_stubs(c, kind):
    c.stub(("TrainNode", "leaves"), lambda ev, a: Num(T.app("leaves", (ev.rd(a[0]).p,), "I"), "u"))
    c.declared.add("leaves")


def as_cases(v):
    return v.alts if isinstance(v, Cases) else [(TRUE, v)]


def leaf_or_branch(c, r):
    """(condition, payload) of the leaves and of the branches among the outcomes"""
    lf = [(g, c.ev.rd(x.xs[0])) for g, x in as_cases(r) if x.var == "Leaf"]
    br = [(g, c.ev.rd(x.xs[0])) for g, x in as_cases(r) if x.var == "Branch"]
    return lf, br


def growth(c, kind, method):
    """one call of full_tree on any set of rows; the recursive calls return opaque subtrees, recorded with their arguments"""
    n = c.len("n", 1); s = Table(c, n, labels="pm1" if kind == CLS else True)
    f = s.name("f"); thr = c.real("thr")
    I, m, row = rows(c, n)
    train_stubs(c, kind)
    p = c.real("p"); loss = c.real("loss"); seen = []
    c.declared.update({"subtree0", "subtree1"})
    def sub(a):
        seen.append(a)
        return Opq("TrainNode", P(T.mk_atom("var", ("subtree%d" % (len(seen) - 1),), "TrainNode")))
    return n, s, f, thr, I, m, row, p, loss, seen, sub


def sides(c, s, f, thr, I, m, row, seen):
    lt_ = lambda k: lt(s.x(f, row(k)), thr)
    L, R = seen[0]["indices"], seen[1]["indices"]
    c.ensure_filtered("the left subtree is grown from the rows below the threshold", L, m, lt_, row)
    c.ensure_filtered("the right subtree is grown from the other rows", R, m, lambda k: bnot(lt_(k)), row)
    return any_(m, lt_), any_(m, lambda k: bnot(lt_(k)))


@contract("T03", "RegressionTree::full_tree")
def _(c):
    n, s, f, thr, I, m, row, p, loss, seen, sub = growth(c, REG, "predict")
    g = c.reals("gradient", n); h = c.reals("hessian", n); lam = c.real("lambda", lo=0); d = c.int("max_depth", 0)
    PT = lambda v, t: Struct(c.tkey(t), {"0": Num(P(v), "f")})
    args = {}
    def pl(a): args["pl"] = a; return Tup([PT(p, "Prediction"), PT(loss, "LossValue")])
    def bs(a): args["bs"] = a; return Tup([Str(f), PT(thr, "Threshold")])
    c.stub_named("prediction_and_loss", pl); c.stub_named("best_split", bs); c.stub_named("RegressionTree::full_tree", sub)
    eqv = lambda a, b: c.ev.equal(a, b)
    node = lambda a: band(eqv(a["gradient"], g), eqv(a["hessian"], h))
    t = c.struct("RegressionTree", name="T", over={"lambda_l2": Num(lam, "f"), "n_sample": Num(P(n), "u"), "bins": c.opq("bins", "Bins"), "loss_func": c.opq("loss_func", "L")})
    r = c.call("RegressionTree::full_tree", t, s.v, g, h, I, Num(P(d), "u"))
    hasl, hasr = sides(c, s, f, thr, I, m, row, seen)
    for k, nm in ((0, "left"), (1, "right")):
        c.ensure_eq("the %s subtree has one level less" % nm, seen[k]["max_depth"], d - 1)
        c.ensure("the %s subtree uses the same gradients and second derivatives" % nm, node(seen[k]))
    c.ensure("the leaf value is computed from this node", band(eqv(args["pl"]["indices"], I), node(args["pl"]), eq(args["pl"]["lambda_l2"].p, lam)))
    c.ensure("the split is chosen for this node", band(eqv(args["bs"]["idx"], I), node(args["bs"]), eq(args["bs"]["lambda_l2"].p, lam)))
    lf, br = leaf_or_branch(c, r)
    leaf = bor(*[g for g, _ in lf])
    c.ensure("a leaf iff the loss is zero, no level is left, or a side is empty", iff(leaf, bor(eq(loss, 0), le(d, 1), bnot(hasl), bnot(hasr))))
    c.ensure("leaves carry this node's value and loss", band(*[implies(g, band(eq(c.num(x.fs["prediction"]).p, p), eq(c.num(x.fs["loss_as_leaf"]).p, loss))) for g, x in lf]))
    c.ensure("branches carry the chosen rule and both subtrees", band(*[implies(g, band(eq(c.num(c.get(x, "rule", "threshold")).p, thr), str_eq(c.get(x, "rule", "feature").p, f),
        eqo(c.get(x, "left").p, P(T.mk_atom("var", ("subtree0",), "TrainNode"))), eqo(c.get(x, "right").p, P(T.mk_atom("var", ("subtree1",), "TrainNode"))))) for g, x in br]))


def vlt(b, want): return band(b) if want else bnot(b)


@contract("T02", "DecisionTree::full_tree")
def _(c):
    n, s, f, thr, I, m, row, p, loss, seen, sub = growth(c, CLS, "confidence")
    d = c.reals("dist", n, nonneg=True); depth = c.int("depth", 0)
    W = lambda v, t: Struct(c.tkey(t), {"0": Num(P(v), "u" if t == "Depth" else "f")})
    args = {}
    def cl(a): args["cl"] = a; return Tup([W(p, "Confidence"), W(loss, "LossValue")])
    def bs(a): args["bs"] = a; return Tup([Str(f), Num(P(thr), "f")])
    c.stub_named("confidence_and_loss", cl); c.stub_named("Criterion::best_split", bs); c.stub_named("DecisionTree::full_tree", sub)
    crit = c.enum("Criterion", "Edge")
    t = c.struct("DecisionTree", name="T", over={"bins": c.opq("bins", "Bins"), "criterion": crit, "max_depth": W(c.int("max_depth", 0), "Depth")})
    r = c.call("DecisionTree::full_tree", t, s.v, d, I, crit, W(depth, "Depth"))
    hasl, hasr = sides(c, s, f, thr, I, m, row, seen)
    eqv = lambda a, b: c.ev.equal(a, b)
    for k, nm in ((0, "left"), (1, "right")):
        c.ensure("the %s subtree has one level less" % nm, implies(le(1, depth), eq(c.num(seen[k]["depth"]).p, depth - 1)))
        c.ensure("the %s subtree uses the same weights and criterion" % nm, band(eqv(seen[k]["dist"], d), eqv(seen[k]["criterion"], crit)))
    c.ensure("the leaf value is computed from this node", band(eqv(args["cl"]["indices"], I), eqv(args["cl"]["dist"], d)))
    c.ensure("the split is chosen for this node", band(eqv(args["bs"]["dist"], d), eqv(args["bs"]["idx"], I), eqv(args["bs"]["self"], crit)))
    lf, br = leaf_or_branch(c, r)
    c.ensure("a leaf iff the loss is zero, no level is left, or a side is empty", iff(bor(*[g for g, _ in lf]), bor(eq(loss, 0), lt(depth, 1), bnot(hasl), bnot(hasr))))
    w = sum_(m, lambda k: c.at(d, row(k)))
    c.ensure("leaves carry this node's value, loss and weight", band(*[implies(g, band(eq(c.num(x.fs["confidence"]).p, p), eq(c.num(x.fs["loss_as_leaf"]).p, loss), eq(c.num(x.fs["total_weight"]).p, w))) for g, x in lf]))
    c.ensure("branches carry the chosen rule, both subtrees, and this node's value, loss and weight", band(*[implies(g, band(eq(c.num(c.get(x, "rule", "threshold")).p, thr), str_eq(c.get(x, "rule", "feature").p, f),
        eqo(c.get(x, "left").p, P(T.mk_atom("var", ("subtree0",), "TrainNode"))), eqo(c.get(x, "right").p, P(T.mk_atom("var", ("subtree1",), "TrainNode"))),
        eq(c.num(x.fs["confidence"]).p, p), eq(c.num(x.fs["loss_as_leaf"]).p, loss), eq(c.num(x.fs["total_weight"]).p, w))) for g, x in br]))


# ---------------------------------------------------------------- the final tree is the training tree
def conversion(c, kind, field, wrap):
    """Node::from keeps rules and leaf values; the conversion of the subtrees is the same function (opaque here)"""
    n = c.len("n", 1); s = Table(c, n); f = s.name("f"); thr = c.real("thr"); p = c.real("p"); loss = c.real("loss"); w = c.real("w")
    pv = Struct(c.tkey(wrap), {"0": Num(P(p), "f")}); lv = Struct(c.tkey("LossValue"), {"0": Num(P(loss), "f")})
    common = {field: pv, "loss_as_leaf": lv}
    if kind == CLS: common["total_weight"] = Num(P(w), "f")
    c.declared.add("converted")
    kids = [c.opq("left", "TrainNode"), c.opq("right", "TrainNode")]
    c.stub(("Node", "from"), lambda ev, a: Opq("Node", T.app("converted", (ev.rd(a[0]).p,), "Node")))
    b = c.struct("TrainBranchNode", file=kind, over=dict(common, rule=splitter(c, f, thr), left=kids[0], right=kids[1], leaves=Num(const(2), "u")))
    r = c.call("Node::from", c.enum("TrainNode", "Branch", b, file=kind), file=kind)
    c.ensure("a branch stays a branch", T.bconst(r.var == "Branch"))
    x = c.ev.rd(r.xs[0])
    c.ensure("with its splitting rule", band(eq(c.num(c.get(x, "rule", "threshold")).p, thr), str_eq(c.get(x, "rule", "feature").p, f)))
    for side, k in zip(("left", "right"), kids):
        q = c.get(x, side)
        c.ensure("the %s subtree is the converted %s subtree" % (side, side), eqo(q.p, T.app("converted", (k.p,), "Node")))
    leaf = c.struct("TrainLeafNode", file=kind, over=common)
    r = c.call("Node::from", c.enum("TrainNode", "Leaf", leaf, file=kind), file=kind)
    c.ensure("a leaf stays a leaf", T.bconst(r.var == "Leaf"))
    c.ensure_eq("with its value", c.get(r.xs[0], field), p)


@contract("T03", "Node::from (regression tree)")
def _(c): conversion(c, REG, "prediction", "Prediction")


@contract("T02", "Node::from (decision tree)")
def _(c): conversion(c, CLS, "confidence", "Confidence")


@contract("T02", "confidence_and_loss")
def _(c):
    n = c.len("n", 1); s = Table(c, n); I, m, row = rows(c, n); d = c.reals("dist", n, nonneg=True)
    w = lambda k: c.at(d, row(k)); y = lambda k: c.at(s.y, row(k))
    tot = sum_(m, w); pos = sum_(m, lambda k: T.ite(eq(y(k), 1), w(k), 0)); neg = sum_(m, lambda k: T.ite(eq(y(k), -1), w(k), 0))
    c.assume(lt(0, tot))
    c.keys(-1, 1)
    c.lemma("every row has one of the two labels", eq(tot, pos + neg))
    c.lemma("no row with a label has no weight (+1)", bor(any_(m, lambda k: eq(y(k), 1)), eq(pos, 0)))
    c.lemma("no row with a label has no weight (-1)", bor(any_(m, lambda k: eq(y(k), -1)), eq(neg, 0)))
    c.lemma("weights are not negative (+1)", le(0, pos)); c.lemma("weights are not negative (-1)", le(0, neg))
    r = c.call("confidence_and_loss", s.v, d, I)
    c.ensure_eq("the leaf predicts the weighted mean of the labels", c.get(r, "0"), (pos - neg) * T.inv(tot))
    c.ensure_eq("the leaf loss is the weight of the minority label", c.get(r, "1"), T.ite(lt(pos, neg), pos, neg))


@contract("T02", "confidence_and_loss (no weight)")
def _(c):
    n = c.len("n", 1); s = Table(c, n); I, m, row = rows(c, n); d = c.reals("dist", n, nonneg=True)
    c.assume(T.forall((k := fresh("k")), m, eq(c.at(d, row(P(k))), 0)))
    c.keys(-1, 1)
    for l in (1, -1): c.lemma("no weight on label %d" % l, eq(sum_(m, lambda k: T.ite(eq(c.at(s.y, row(k)), l), c.at(d, row(k)), 0)), 0))
    r = c.call("confidence_and_loss", s.v, d, I)
    p = c.num(c.get(r, "0")).p
    c.ensure("the leaf predicts a label", bor(eq(p, 1), eq(p, -1)))
    c.ensure_eq("the leaf loss is zero", c.get(r, "1"), 0)


def train_leaf(c, nm, r=None, w=None):
    p = c.real("p" + nm); r = c.real("r" + nm, lo=0) if r is None else r; w = c.real("w" + nm, lo=0) if w is None else w
    W = lambda v, t: Struct(c.tkey(t), {"0": Num(P(v), "f")})
    return p, r, w, {"confidence": W(p, "Confidence"), "loss_as_leaf": W(r, "LossValue"), "total_weight": Num(P(w), "f")}


@contract("T02", "TrainNode::remove_redundant_nodes")
def _(c):
    f = P(T.mk_atom("var", ("f",), "S")); c.declared.add("f"); thr = c.real("thr")
    (pl, rl, wl, ol), (pr, rr, wr, orr) = (train_leaf(c, x) for x in ("_l", "_r"))
    p, r, w, o = train_leaf(c, "", rl + rr + c.real("gain", lo=0), wl + wr)
    c.assume(lt(0, w))
    kids = [c.enum("TrainNode", "Leaf", c.struct("TrainLeafNode", file=CLS, over=x), file=CLS) for x in (ol, orr)]
    b = c.struct("TrainBranchNode", file=CLS, over=dict(o, rule=splitter(c, f, thr), left=kids[0], right=kids[1], leaves=Num(const(2), "u")))
    cell = c.cell(c.enum("TrainNode", "Branch", b, file=CLS))
    c.call("TrainNode::remove_redundant_nodes", cell, file=CLS)
    lf, br = leaf_or_branch(c, c.read(cell))
    leaf = bor(*[g for g, _ in lf])
    c.ensure("pruning does not increase the training error", implies(leaf, le(r, rl + rr)))
    c.ensure("a pruned node predicts its own value", band(*[implies(g, band(eq(c.num(x.fs["confidence"]).p, p), eq(c.num(x.fs["loss_as_leaf"]).p, r), eq(c.num(x.fs["total_weight"]).p, w))) for g, x in lf]))
    c.ensure("other nodes stay as they are", band(*[implies(g, band(eq(c.num(c.get(x, "rule", "threshold")).p, thr), str_eq(c.get(x, "rule", "feature").p, f),
        *[eq(c.num(c.get(c.get(x, side).xs[0], "confidence")).p, v) for side, v in (("left", pl), ("right", pr))])) for g, x in br]))


@contract("T02", "DecisionTree::produce")
def _(c):
    n = c.len("n", 1); s = Table(c, n); d = c.reals("dist", n, nonneg=True); depth = c.int("depth", 0)
    c.assume(lt(0, sum_(n, lambda i: c.at(d, i))))
    c.induct("some row has positive weight", n, lambda k: bor(le(sum_(k, lambda i: c.at(d, i)), 0), lt(0, sum_(k, lambda i: T.ite(lt(0, c.at(d, i)), 1, 0)))))
    seen = []
    root = c.opq("tree", "TrainNode"); c.declared.add("converted")
    def grow(a): seen.append(a); return root
    c.stub_named("DecisionTree::full_tree", grow)
    c.stub_unit(("TrainNode", "remove_redundant_nodes"))
    c.stub(("Node", "from"), lambda ev, a: Opq("Node", T.app("converted", (ev.rd(a[0]).p,), "Node")))
    crit = c.enum("Criterion", "Edge")
    t = c.struct("DecisionTree", name="T", over={"bins": c.opq("bins", "Bins"), "criterion": crit, "max_depth": Struct(c.tkey("Depth"), {"0": Num(P(depth), "u")})})
    r = c.call("DecisionTree::produce", t, s.v, d)
    a = seen[0]
    c.ensure_filtered("the tree is grown from the rows with positive weight", a["indices"], n, lambda i: lt(0, c.at(d, i)), lambda i: i)
    c.ensure("with the given weights and criterion", band(c.ev.equal(a["dist"], d), c.ev.equal(a["criterion"], crit)))
    c.ensure_eq("and the configured depth", a["depth"], depth)
    c.ensure("the classifier is the grown tree", eqo(c.get(r, "root").p, T.app("converted", (root.p,), "Node")))


@contract("T03", "RegressionTree::produce")
def _(c):
    n = c.len("n", 1); s = Table(c, n, labels=True); p = c.reals("prediction", n); depth = c.int("max_depth", 0)
    seen = []; given = []
    root = c.opq("tree", "TrainNode"); c.declared.update({"converted", "gradient", "hessian"})
    def grow(a): seen.append(a); return root
    c.stub_named("RegressionTree::full_tree", grow)
    c.stub(("Node", "from"), lambda ev, a: Opq("Node", T.app("converted", (ev.rd(a[0]).p,), "Node")))
    L = c.opq("loss", "L")
    def der(nm):
        def f(ev, a):
            given.append([ev.rd(x) for x in a[1:]]); q = fresh("i")
            return Seq([Seg(P(n), q, Num(T.app(nm, (P(q),), "R"), "f"))])
        return f
    for nm in ("gradient", "hessian"): c.stub(("L", nm), der(nm))
    t = c.struct("RegressionTree", name="T", over={"bins": c.opq("bins", "Bins"), "loss_func": L, "n_sample": Num(P(n), "u"), "max_depth": Num(P(depth), "u")})
    r = c.call("RegressionTree::produce", t, s.v, p)
    a = seen[0]
    c.ensure_seq("the tree is grown from all rows", a["indices"], n, lambda i: i)
    c.ensure_seq("with the gradients of the loss", a["gradient"], n, lambda i: T.app("gradient", (P(i),), "R"))
    c.ensure_seq("and its second derivatives", a["hessian"], n, lambda i: T.app("hessian", (P(i),), "R"))
    c.ensure("at the given predictions and the targets", band(*[band(c.ev.equal(x[0], p), c.ev.equal(x[1], s.y)) for x in given]))
    c.ensure_eq("and the configured depth", a["max_depth"], depth)
    c.ensure("the regressor is the grown tree", eqo(c.get(r, "root").p, T.app("converted", (root.p,), "Node")))
