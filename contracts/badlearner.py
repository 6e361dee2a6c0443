"""The deliberately weak learner for LPBoost (property W01)."""
from contract import *


def the_argmax(c, r):
    """the position the result was taken from"""
    a = [x for x in T.all_atoms(c.get(r, "$id").p, []) if x.kind == "app"]
    return a[0].data[1][0] if a else ZERO


def classifier(c, tag):
    h = c.struct("BadClassifier", name="h")
    c.assume(eq(c.get(h, "tag").p, tag) if tag < 2 else lt(1, c.get(h, "tag").p))
    return h, c.get(h, "index").p, c.get(h, "shift").p, c.get(h, "gap").p, c.get(h, "eps").p


def at_row(c):
    S = c.sample(); i = c.index("row", c.get(S, "n_sample").p)
    return S, i, c.at(c.get(S, "target"), i)


@contract("W01", "BadClassifier::confidence (first)")
def _(c):
    h, ix, sh, gap, eps = classifier(c, 0); S, i, y = at_row(c)
    r = c.call("BadClassifier::confidence", h, S, Num(i, "u"), trait="Classifier")
    c.ensure_eq("1 before index, -1+2eps in the block, -1+3eps after it, all times the label", r,
                T.ite(lt(i, ix), y, T.ite(lt(i, ix + sh), (2 * eps - 1) * y, (3 * eps - 1) * y)))


@contract("W01", "BadClassifier::confidence (middle)")
def _(c):
    h, ix, sh, gap, eps = classifier(c, 1); S, i, y = at_row(c)
    r = c.call("BadClassifier::confidence", h, S, Num(i, "u"), trait="Classifier")
    c.ensure_eq("1 on its block, -1+(gap-1)eps on the next, -1+gap eps elsewhere, all times the label", r,
                T.ite(band(le(ix, i), lt(i, ix + sh)), y, T.ite(band(le(ix + sh, i), lt(i, ix + sh + sh)), ((gap - 1) * eps - 1) * y, (gap * eps - 1) * y)))


@contract("W01", "BadClassifier::confidence (last)")
def _(c):
    h, ix, sh, gap, eps = classifier(c, 2); S, i, y = at_row(c)
    r = c.call("BadClassifier::confidence", h, S, Num(i, "u"), trait="Classifier")
    c.ensure_eq("-1+eps before index, 1-eps after, all times the label", r, T.ite(lt(i, ix), (eps - 1) * y, (1 - eps) * y))


def members(c, tol_hi=1):
    n = c.len("n", 2); tol = c.real("tol", gt=0, hi=1); nu = c.real("nu", lo=1); c.assume(le(nu, n))
    half = T.floor((n + 1) * const(Fraction(1, 2)))
    eps = tol * T.inv(2 * n)
    r = c.call("BadBaseLearner::new", Num(n, "u"), tol, nu)
    return n, tol, nu, half, eps, T.ceil(nu), c.get(r, "classifiers")


def num(c, h, f): return c.get(h, f).p


@contract("W01", "BadBaseLearner::new")
def _(c):
    n, tol, nu, half, eps, s, q = members(c)
    c.ensure_eq("half + 1 members", seq_len(q), half + 1)
    h = lambda k: c.ev.rd(seq_get(q, P(k)))
    for lab, f, first, mid, last in (
            ("kind", "tag", ZERO, lambda k: ONE, lambda t: lt(1, t)),
            ("gap", "gap", None, lambda k: 3 + 2 * k, None),
            ("block start", "index", half, lambda k: half + k - 1, lambda t: eq(t, half)),
            ("block length", "shift", s, lambda k: s, None),
            ("unit", "eps", eps, lambda k: eps, lambda t: eq(t, eps))):
        if first is not None: c.ensure_eq("first member: %s" % lab, num(c, h(0), f), first)
        c.ensure_all("member k: %s" % lab, half, lambda k: implies(le(1, k), eq(num(c, h(k), f), mid(k))))
        if last: c.ensure("last member: %s" % lab, last(num(c, h(half), f)))
    c.ensure_all("gap units fit in 1", half, lambda k: le(num(c, h(k), "gap") * eps, 1))


for tag, which in ((0, "first"), (1, "middle"), (2, "last")):
    @contract("W01", "BadClassifier::confidence (%s) is in [-1, 1] times the label" % which)
    def _(c, tag=tag):
        h, ix, sh, gap, eps = classifier(c, tag); S, i, y = at_row(c)
        c.gens["h.eps"] = lambda M: M.rng.uniform(0.01, 0.1); c.gens["h.gap"] = lambda M: M.rng.uniform(3, 9)
        c.assume(lt(0, eps), le(3, gap), le(gap * eps, 1))          # what BadBaseLearner::new builds
        r = c.call("BadClassifier::confidence", h, S, Num(i, "u"), trait="Classifier")
        c.ensure("within [-1, 1]", band(le(-1, r.p), le(r.p, 1)))


@contract("W01", "BadBaseLearner::produce")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p; d = c.dist("d", n, pos=False); m = c.len("m", 1)
    b = c.struct("BadBaseLearner", name="W"); q = c.get(b, "classifiers"); c.assume(eq(seq_len(q), m))
    c.declared.add("edge")
    edge = lambda i: T.app("edge", (P(i),), "R")
    def edge_(ev, a):
        s, x, h = ev.rd(a[0]), ev.rd(a[1]), ev.rd(a[2])
        c.ensure("edge: on the sample", T.eqo(the_id(s), the_id(S)), ev.ctx)
        k = fresh("k"); c.ensure("edge: under the distribution", T.forall(k, n, eq(c.at(x, P(k)), c.at(d, P(k)))), ev.ctx)
        return Num(T.app("edge", (c.get(h, "$id").p,), "R"), "f")
    c.stub((None, "edge_of_hypothesis"), edge_)
    r = c.call("BadBaseLearner::produce", b, S, d, trait="WeakLearner")
    best = the_argmax(c, r)
    c.ensure("a member of the pool", band(le(0, best), lt(best, m)))
    for f in ("tag", "index", "shift", "gap", "eps"):
        c.ensure_eq("the member itself: %s" % f, c.get(r, f).p, c.get(seq_get(q, best), f).p)
    c.ensure_all("no member has a larger edge", m, lambda i: le(T.app("edge", (c.get(seq_get(q, i), "$id").p,), "R"), T.app("edge", (c.get(r, "$id").p,), "R")))


@contract("W01", "BadBaseLearnerBuilder")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p
    b = c.call("BadBaseLearnerBuilder::new", S)
    c.ensure_eq("default capping", c.get(b, "nu").p, 1); c.ensure_eq("default tolerance", c.get(b, "tolerance").p, const(Fraction(1, 10 ** 9)))
    nu = c.real("nu", lo=1); c.assume(le(nu, n)); tol = c.real("tol", gt=0)
    b = c.call("BadBaseLearnerBuilder::nu", b, nu); b = c.call("BadBaseLearnerBuilder::tolerance", b, tol)
    got = []
    c.stub(("BadBaseLearner", "new"), lambda ev, a: got.append([ev.rd(x) for x in a]) or UNIT)
    c.call("BadBaseLearnerBuilder::build", b)
    c.ensure("built once", bconst(len(got) == 1))
    for label, x, y in zip(("number of examples", "tolerance", "nu"), got[0], (n, tol, nu)): c.ensure_eq("built with the given " + label, x, y)
