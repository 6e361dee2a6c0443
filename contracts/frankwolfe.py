"""common/frank_wolfe.rs: the step rules"""
from contract import *
from lib_utils import *

FW = "common/frank_wolfe.rs"


def simplex(c, name, m):
    return c.dist(name, m, pos=False)


def in_simplex(c, label, r, m):
    c.ensure_eq(label + ": as many weights", seq_len(r), m)
    c.ensure_all(label + ": non-negative", m, lambda j: le(0, c.at(r, j)))
    c.ensure_eq(label + ": sum to one", sum_(m, lambda j: c.at(r, j)), 1)


def fw(c, kind):
    return c.struct("FrankWolfe", file=FW, name="fw", over={"fw_type": c.enum("FWType", kind)})


def toward(c, w, p, s): return lambda j: (1 - s) * c.at(w, j) + T.ite(eq(j, p), s, ZERO)


@contract("A10", "frank_wolfe::interior_point")
def _(c):
    m = c.len("T", 1); w = simplex(c, "w", m); p = c.index("p", m); s = c.real("s", lo=0, hi=1)
    r = c.call("interior_point", s, Num(p, "u"), w, file=FW)
    c.ensure_seq("moves by the step toward the vertex", r, m, toward(c, w, p, s))
    in_simplex(c, "result", r, m)


@contract("A10", "FrankWolfe::next_iterate (classic)")
def _(c):
    S, n, m, w, hs = world(c, 1); w = simplex(c, "v", m); p = c.index("p", m); t = c.len("t", 1); d = c.reals("d", n)
    r = c.call("FrankWolfe::next_iterate", fw(c, "Classic"), Num(t, "u"), S, d, hs, Num(p, "u"), w)
    c.ensure_seq("moves by 2/(t+1) toward the new member", r, m, toward(c, w, p, 2 * T.inv(t + 1)))
    in_simplex(c, "result", r, m)


def margins_by_contract(c, S, m, hs, table):
    """the margin functions by their contracts (utilities.py): margins of a weighting are a function of the weighting"""
    def weighted(ev, a):
        s, w, g = ev.rd(a[0]), ev.rd(a[1]), ev.rd(a[2])
        c.ensure("margins: on the sample", T.eqo(the_id(s), the_id(S)))
        j = fresh("j")
        cx = ev.ctx.plus(le(0, P(j)), lt(P(j), m))
        c.ensure("margins: of the members", T.forall(j, m, T.eqo(c.at(g, P(j)), c.at(hs, P(j)))))
        for name, f in table:
            if PR.prove(eq(c.at(w, P(j)), f(P(j))), cx) and PR.prove(eq(seq_len(w), m), ev.ctx):
                k = fresh("k")
                return Seq([Seg(c.get(S, "n_sample").p, k, Num(T.app(name, (P(k),), "R"), "f"))])
        raise Unsupported("margins of an unexpected weighting")
    c.stub((None, "margins_of_weighted_hypothesis"), weighted)
    def single(ev, a):
        s, h = ev.rd(a[0]), ev.rd(a[1])
        c.ensure("margins: on the sample", T.eqo(the_id(s), the_id(S)))
        k = fresh("k")
        return Seq([Seg(c.get(S, "n_sample").p, k, Num(T.app("hm", (h.p, P(k)), "R"), "f"))])
    c.stub((None, "margins_of_hypothesis"), single)
    for name, _ in table: c.declared.add(name)
    c.declared.add("hm")


@contract("A10", "FrankWolfe::next_iterate (short step, several members)")
def _(c):
    S, n, m, w, hs = world(c, 2); w = simplex(c, "v", m); p = c.index("p", m); t = c.len("t", 1); d = c.reals("d", n)
    f = fw(c, "ShortStep"); eta = c.get(f, "eta").p; c.assume(lt(0, eta))
    margins_by_contract(c, S, m, hs, [("aw", lambda j: c.at(w, j))])
    diff = lambda i: T.app("hm", (c.at(hs, p), i), "R") - T.app("aw", (i,), "R")
    k = fresh("k")
    big = T.fold("max", k, n, T.absv(diff(P(k))), ZERO)
    c.assume(lt(0, big))          # some margin changes (0/0 otherwise)
    ratio = c.define("ratio", sum_(n, lambda i: c.at(d, i) * diff(i)) * T.inv(eta * big * big))
    r = c.call("FrankWolfe::next_iterate", f, Num(t, "u"), S, d, hs, Num(p, "u"), w)
    step = T.vmin(T.vmax(ratio, ZERO), ONE)
    c.ensure_seq("moves by the clipped ratio toward the new member", r, m, toward(c, w, p, step))
    in_simplex(c, "result", r, m)


@contract("A10", "FrankWolfe::next_iterate (first member)")
def _(c):
    for kind in ("ShortStep", "LineSearch"):
        S, n, m, w, hs = world(c, 1); c.assume(eq(m, 1)); w = simplex(c, "v", m); t = c.len("t", 1); d = c.reals("d", n)
        r = c.call("FrankWolfe::next_iterate", fw(c, kind), Num(t, "u"), S, d, hs, Num(ZERO, "u"), w)
        c.ensure_seq("%s: all weight on it" % kind, r, ONE, lambda i: ONE)


def slope_by_contract(c, n, f):
    """the capped distribution at base + s dir (its contract: utilities.py), and the slope of the objective there"""
    eta, nu = c.get(f, "eta").p, c.get(f, "nu").p
    c.declared.add("dist_at")
    def from_margins(ev, a):
        q = ev.rd(a[2]) if not isinstance(a[2], Seq) else a[2]
        q = ev.collect(q) if hasattr(ev, "collect") else q
        c.ensure("the booster's eta", eq(ev.rd(a[0]).p, eta)); c.ensure("the booster's nu", eq(ev.rd(a[1]).p, nu))
        c.ensure("one margin per example", eq(seq_len(q), n))
        i = fresh("i")
        x = seq_get(q, P(i)).p; dm = T.app("dm", (P(i),), "R"); at = next(iter(next(iter(dm.t))))[0]
        s = T.mkpoly({tuple(y for y in mm if y[0] is not at): co for mm, co in x.t.items() if (at, 1) in mm})
        if x - T.app("aw", (P(i),), "R") - s * dm is not ZERO: raise Unsupported("not a point of the segment")
        k = fresh("k")
        return Seq([Seg(n, k, Num(T.app("dist_at", (s, P(k)), "R"), "f"))])
    c.stub((None, "exp_distribution_from_margins"), from_margins)
    c.declared.add("slope")
    def inner(ev, a):
        """its contract (utilities.py): sum_k dist_at(s, k) dm(k) =: slope(s)"""
        x, y = ev.rd(a[0]), ev.rd(a[1])
        k = fresh("k")
        u, v = seq_get(x, P(k)).p, seq_get(y, P(k)).p
        dm = T.app("dm", (P(k),), "R")
        if u is dm: u, v = v, u
        at = next(iter(u.t))[0][0] if len(u.t) == 1 else None
        if v is not dm or at is None or at.kind != "app" or at.data[0] != "dist_at" or u is not P(at): raise Unsupported("not the slope along the segment")
        return Num(T.app("slope", (at.data[1][0],), "R"), "f")
    c.stub((None, "inner_product"), inner)
    return lambda s: T.app("slope", (P(s),), "R")


def bracket(c, r, slope, hi):
    """bisection of [0, hi]: the slope is positive to the left of the answer and negative to its right"""
    xs = {a.data[0]: a for a in T.all_atoms(r, []) if a.kind == "app" and a.data[0].startswith("X") and len(a.data[1]) == 1}
    if len(xs) != 2: raise Unsupported("%d loop values" % len(xs))
    a, b = xs.values()
    K = a.data[1][0]
    x = lambda s: (lambda k: T.app(s, (P(k),), "R"))
    a, b = x(a.data[0]), x(b.data[0])
    if PR.prove(eq(b(ZERO), 0), c.ev.ctx): a, b = b, a
    c.lemma("starts at the whole segment", band(eq(a(ZERO), 0), eq(b(ZERO), hi)))
    c.induct("bracket", K, lambda k: band(bor(eq(a(k), 0), lt(0, slope(a(k)))), lt(slope(b(k)), 0), le(0, a(k)), le(a(k), b(k)), le(b(k), hi)))
    mid = (a(K) + b(K)) * const(Fraction(1, 2))
    c.lemma("stops at a stationary step or when the bracket is narrow", bor(eq(slope(mid), 0), le(b(K) - a(K), const(Fraction(1, 10 ** 9)))))
    return a(K), b(K), mid


@contract("A10", "FrankWolfe::next_iterate (line search)")
def _(c):
    S, n, m, w, hs = world(c, 2); w = simplex(c, "v", m); p = c.index("p", m); t = c.len("t", 1); d = c.reals("d", n)
    f = fw(c, "LineSearch")
    margins_by_contract(c, S, m, hs, [("aw", lambda j: c.at(w, j)), ("dm", lambda j: T.ite(eq(j, p), 1 - c.at(w, j), -c.at(w, j)))])
    slope = slope_by_contract(c, n, f)
    r = c.call("FrankWolfe::next_iterate", f, Num(t, "u"), S, d, hs, Num(p, "u"), w)

    full = le(0, slope(ONE))
    c.ensure_all("the whole step when the objective still increases there", m, lambda j: implies(full, eq(c.at(r, j), T.ite(eq(j, p), ONE, ZERO))))
    in_simplex(c, "result", r, m)
    c.ev.assume(bnot(full))
    lb, ub, mid = bracket(c, c.at(r, p), slope, ONE)
    c.ensure_seq("otherwise the middle of the bracket", r, m, toward(c, w, p, mid))
    # the objective is concave: its slope does not increase along the segment
    best = c.real("best", lo=0, hi=1)
    c.ev.assume(eq(slope(best), 0), implies(le(best, lb), le(slope(lb), slope(best))), implies(le(ub, best), le(slope(best), slope(ub))))
    c.ensure("within 1e-9 of the maximiser, or stationary itself", bor(eq(slope(mid), 0), le(T.absv(mid - best), const(Fraction(1, 10 ** 9)))))
