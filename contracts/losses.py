from contract import *


@contract("L01", "GBMLoss::eval_at_point")
def _(c):
    p, y = c.real("p"), c.real("y")
    f = lambda v: c.call("GBMLoss::eval_at_point", c.enum("GBMLoss", v), p, y)
    c.ensure_eq("L1 is |p - y|", f("L1"), T.absv(p - y))
    c.ensure_eq("L2 is (p - y)^2", f("L2"), (p - y) * (p - y))


@contract("L01", "LossFunction::eval")
def _(c):
    n = c.len("n", 1); p = c.reals("p", n); y = c.reals("y", n)
    for v, g in (("L1", lambda d: T.absv(d)), ("L2", lambda d: d * d)):
        r = c.call("GBMLoss::eval", c.enum("GBMLoss", v), p, y)
        c.ensure_eq("%s mean loss" % v, r, sum_(n, lambda i: g(c.at(p, i) - c.at(y, i))) * T.inv(n))


@contract("L01", "GBMLoss::gradient")
def _(c):
    n = c.len("n"); p = c.reals("p", n); y = c.reals("y", n)
    r = c.call("GBMLoss::gradient", c.enum("GBMLoss", "L1"), p, y)
    c.ensure_seq("L1 gradient is a subgradient sign", r, n, lambda i: T.signum(c.at(p, i) - c.at(y, i)))
    r = c.call("GBMLoss::gradient", c.enum("GBMLoss", "L2"), p, y)
    c.ensure_seq("L2 gradient is p - y", r, n, lambda i: c.at(p, i) - c.at(y, i))


@contract("L01", "GBMLoss::hessian")
def _(c):
    n = c.len("n"); p = c.reals("p", n); y = c.reals("y", n)
    for v, h in (("L1", 0), ("L2", 1)):
        r = c.call("GBMLoss::hessian", c.enum("GBMLoss", v), p, y)
        c.ensure_seq("%s second derivative" % v, r, n, lambda i: const(h))


@contract("L01", "GBMLoss::best_coefficient (L2)")
def _(c):
    n = c.len("n", 1); r = c.reals("r", n); p = c.reals("p", n)
    k = fresh("k")
    a = c.val(c.call("GBMLoss::best_coefficient", c.enum("GBMLoss", "L2"), r, p)).p
    rp = sum_(n, lambda i: c.at(r, i) * c.at(p, i)); pp = sum_(n, lambda i: c.at(p, i) * c.at(p, i))
    c.ensure("stationary: sum (r - a p) p = 0 unless p = 0", bor(eq(pp, 0), eq(a * pp, rp)))
    c.ensure("0 for the zero predictor", bor(bnot(eq(pp, 0)), eq(a, 0)))
    b = c.real("b")
    # minimality against any other coefficient b
    c.ev.assume(bnot(eq(pp, 0)))
    c.ensure_eq("excess loss of b is (a-b)^2 sum p^2",
                sum_(n, lambda i: (c.at(r, i) - b * c.at(p, i)) * (c.at(r, i) - b * c.at(p, i))) - sum_(n, lambda i: (c.at(r, i) - a * c.at(p, i)) * (c.at(r, i) - a * c.at(p, i))),
                (a - b) * (a - b) * pp)

def items_of(c):
    m = c.len("m", 1)
    c.declared.update({"wt", "at"})
    w = lambda k: T.app("wt", (P(k),), "R"); x = lambda k: T.app("at", (P(k),), "R")
    c.assume(all_(m, lambda k: lt(0, w(k)))); c.gens["wt"] = lambda M, i: abs(M.rng.gauss(0, 1)) + 0.01
    k = fresh("k")
    return m, w, x, Seq([Seg(m, k, Tup([Num(w(k), "f"), Num(x(k), "f")]))])


@contract("L01", "weighted_median (one item)")
def _(c):
    k = Num(c.real("x"), "f")
    c.ensure_eq("the item", c.call("weighted_median", c.cell(Seq([Seg(ONE, fresh("k"), Tup([Num(c.real("w", gt=0), "f"), k]))]))), k)


@contract("L01", "weighted_median")
def _(c):
    """no value has a smaller weighted distance to the items"""
    m, w, x, q = items_of(c)
    c.lemma("there is weight", lt(0, sum_(m, w)))
    c.assume(le(2, m))
    cell = c.cell(q)
    a = c.num(c.call("weighted_median", cell)).p
    # the item it comes from, in the order of the values
    s = [y for y in T.all_atoms(a) if y.kind == "app" and y.data[0].startswith("sort!")]
    if len(s) != 1: raise Unsupported("the result is not an item of the sorted sequence")
    pi = s[0].data[0]; E = s[0].data[1][0]
    W = sum_(m, w)
    v = lambda k: w(T.app(pi, (P(k),), "I")); y = lambda k: x(T.app(pi, (P(k),), "I"))
    e = c.real("e", lo=0)
    c.ensure("the result is an item", band(le(0, E), lt(E, m), eq(a, y(E))))
    c.induct("the last term of a sum", m, lambda k: implies(le(1, k), eq(sum_(k, v), sum_(P(k) - 1, v) + v(P(k) - 1))))
    c.induct("an empty sum", m, lambda k: implies(le(k, 0), eq(sum_(k, v), 0)))
    c.lemma("no item below", implies(le(E, 0), eq(sum_(E, v), 0)))
    c.lemma("the last item below", implies(le(1, E), eq(sum_(E, v), sum_(P(E) - 1, v) + v(P(E) - 1))))
    c.lemma("the items below have at most half of the weight", le(2 * sum_(E, v), W))
    c.lemma("the items up to it have at least half of the weight", le(W, 2 * sum_(E, v) + 2 * v(E)))
    cost = lambda z: sum_(m, lambda k: w(k) * T.absv(x(k) - z))
    for nm, b, side in (("larger", a + e, lambda k: 2 * T.ind(le(P(k), E)) - 1), ("smaller", a - e, lambda k: 1 - 2 * T.ind(lt(P(k), E)))):
        gain = lambda k: w(k) * (T.absv(x(k) - b) - T.absv(x(k) - a) - e * side(T.app("inv:" + pi, (P(k),), "I")))
        c.lemma("what a %s value costs for an item" % nm, all_(m, lambda k: le(0, gain(k))))
        c.induct("what a %s value costs for the first items" % nm, m, lambda k: le(0, sum_(k, gain)))
        c.lemma("what a %s value costs in total" % nm, le(0, sum_(m, gain)))
        c.lemma("the weight is balanced (%s)" % nm, le(0, e * sum_(m, lambda k: v(k) * side(k))))
        c.ensure("no %s value has a smaller weighted distance" % nm, le(cost(a), cost(b)))


@contract("L01", "GBMLoss::best_coefficient (L1)")
def _(c):
    """no coefficient has a smaller total absolute error; the weighted median is represented by its contract (above)"""
    n = c.len("n", 1); r = c.reals("r", n); p = c.reals("p", n)
    a = c.real("median"); e = c.real("e", lo=0)
    some = any_(n, lambda i: bnot(eq(c.at(p, i), 0)))
    def median(ev, args):
        q = ev.rd(ev.rd(args[0]))
        if len(q.segs) != 1: raise Unsupported("the items are not one sequence")
        s = q.segs[0]; w, x = [c.num(y).p for y in s.e.xs]
        at = lambda y, i: T.subst(y, {s.k: P(i)})
        in_ = lambda i: bsub(s.g, {s.k: P(i)})
        ev.obls.append(Obl("requires", all_(s.n, lambda i: implies(in_(i), lt(0, at(w, i)))), ev.ctx, c.name, "weights are positive"))
        ev.obls.append(Obl("requires", any_(s.n, in_), ev.ctx, c.name, "there is an item"))
        cost = lambda z: sum_(s.n, lambda i: T.ind(in_(i)) * at(w, i) * T.absv(at(x, i) - z))
        ev.assume(le(cost(a), cost(a + e)), le(cost(a), cost(a - e)))
        return Num(P(a), "f")
    c.stub((None, "weighted_median"), median)
    got = c.num(c.call("GBMLoss::best_coefficient", c.enum("GBMLoss", "L1"), r, p)).p
    c.ensure("the weighted median of the ratios, or 0 when the predictor is zero", eq(got, T.ite(some, P(a), ZERO)))
    err = lambda z: sum_(n, lambda i: T.absv(c.at(r, i) - z * c.at(p, i)))
    part = lambda i, z: T.ind(bnot(eq(c.at(p, i), 0))) * T.absv(c.at(p, i)) * T.absv(c.at(r, i) * T.inv(c.at(p, i)) - z) + T.ind(eq(c.at(p, i), 0)) * T.absv(c.at(r, i))
    for z in (P(a), a + e, a - e):
        c.lemma("the error at a row", all_(n, lambda i: eq(T.absv(c.at(r, i) - z * c.at(p, i)), part(i, z))))
        c.induct("the error of the first rows", n, lambda k: eq(sum_(k, lambda i: T.absv(c.at(r, i) - z * c.at(p, i))), sum_(k, lambda i: part(i, z))))
    c.ensure("no larger coefficient has a smaller error", implies(some, le(err(a), err(a + e))))
    c.ensure("no smaller coefficient has a smaller error", implies(some, le(err(a), err(a - e))))
    c.ensure("every coefficient has the same error for the zero predictor", implies(bnot(some), eq(err(ZERO), err(e))))
