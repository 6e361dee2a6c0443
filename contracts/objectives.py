from contract import *

F = "objective_functions"


def binary_sample(c):
    """what check_sample requires: examples, features, and labels that are -1 or +1"""
    S = c.sample(); c.assume(le(1, c.get(S, "n_feature").p))
    return S, c.get(S, "n_sample").p


def atoms_named(p, *prefixes):
    """one atom of the value per prefix"""
    out = []
    for pre in prefixes:
        got = sorted({a.data[0]: a for a in T.all_atoms(p, []) if a.kind in ("var", "app") and a.data[0].startswith(pre)}.items())
        if len(got) != 1: raise Unsupported("%d witnesses %s" % (len(got), pre))
        out.append(got[0][1])
    return out


@contract("L02", "SoftMarginObjective::eval")
def _(c):
    S, n = binary_sample(c); h = c.opq("h", "H")
    y = c.get(S, "target")
    nu = c.real("nu", lo=1); c.assume(le(nu, n))
    d = c.reals("d", n, lo=ZERO, hi=T.inv(nu)); one_d = eq(sum_(n, lambda i: c.at(d, i)), 1); c.assume(one_d)
    c.gens["nu"] = lambda M: M.rng.uniform(1, PR.ev(n, M, {})); c.gens["d"] = lambda M, i: 1 / PR.ev(n, M, {})
    o = c.struct("SoftMarginObjective", file=F, over={"0": Num(nu, "f")})
    r = c.call("SoftMarginObjective::eval", o, S, h)
    m = lambda i: c.at(y, i) * conf(h.p, the_id(S), i)
    k, s = atoms_named(r.p, "exit!", "sort!")
    K = P(k); s = lambda j, f=s.data[0]: T.app(f, (P(j),), "I")
    u = T.inv(nu); th = m(s(K))
    base = list(c.ev.ctx.hyps)
    c.lemma("the caps cover the whole mass", le(1, n * u))
    c.lemma("each full weight was affordable", implies(le(1, K), lt(K * u, 1)))
    base += c.lemma("the weights run out inside the sample", lt(K, n))
    base += c.lemma("nothing is left over", band(le(0, 1 - u * K), le(1 - u * K, u)))
    f = lambda j: T.ite(lt(j, K), u, T.ite(eq(j, K), 1 - u * K, ZERO))
    w = c.ghost("w", n, f)
    cap = c.lemma("the minimiser is capped", all_(n, lambda j: band(le(0, w(j)), le(w(j), u))), using=base + [w.fact])
    one = c.lemma("the minimiser sums to one", eq(sum_(n, w), 1), unfold=True, using=base)
    V, v_is = c.ghost_value("value", r.p)
    att = c.lemma("the value is attained by a capped distribution", eq(V, sum_(n, lambda j: w(j) * m(s(j)))), unfold=True, using=base + [v_is])
    # any other capped distribution: moving its mass to the minimiser does not increase the edge
    x = lambda j: c.at(d, s(j))
    sides = c.lemma("capped by the minimiser before, above it after", all_(n, lambda j: band(
        implies(lt(j, K), band(le(x(j), w(j)), le(m(s(j)), th))), implies(lt(K, j), band(le(w(j), x(j)), le(th, m(s(j))))))), using=base + [w.fact])
    z = c.ghost("z", n, lambda j: (x(j) - w(j)) * (m(s(j)) - th))
    pos = c.lemma("exchange", all_(n, lambda j: le(0, z(j))), using=[z.fact] + sides)
    tot = c.lemma("exchange summed", le(0, sum_(n, z)), using=pos)
    ex = c.lemma("exchange expanded", eq(sum_(n, z), sum_(n, lambda i: c.at(d, i) * m(i)) - th * sum_(n, lambda i: c.at(d, i)) - sum_(n, lambda j: w(j) * m(s(j))) + th * sum_(n, w)),
                 unfold=True, using=[])
    c.lemma("no capped distribution has a smaller edge", le(V, sum_(n, lambda i: c.at(d, i) * m(i))), using=tot + ex + one + att + [one_d])


@contract("L02", "ExponentialLoss::eval")
def _(c):
    S, n = binary_sample(c); h = c.opq("h", "H")
    o = c.struct("ExponentialLoss", file=F)
    r = c.call("ExponentialLoss::eval", o, S, h)
    y = c.get(S, "target")
    c.ensure_eq("mean of exp(-y prediction)", r, sum_(n, lambda i: T.exp(-c.at(y, i) * T.ite(le(0, conf(h.p, the_id(S), i)), ONE, const(-1)))) * T.inv(n))


@contract("L02", "HardMarginObjective::eval")
def _(c):
    S, n = binary_sample(c); h = c.opq("h", "H")
    o = c.call("HardMarginObjective::new")
    asked = []
    r = c.real("soft")
    def ev_(ev, a): asked.append((ev.rd(a[0]), ev.rd(a[1]), ev.rd(a[2]))); return Num(r, "f")
    c.stub(("SoftMarginObjective", "eval"), ev_)
    x = c.call("HardMarginObjective::eval", o, S, h)
    c.ensure("soft-margin objective is consulted once", bconst(len(asked) == 1))
    for me, s, g in asked:
        c.ensure_eq("with nu = 1", c.get(me, "0"), 1)
        c.ensure("on the same sample", T.eqo(the_id(s), the_id(S))); c.ensure("and hypothesis", T.eqo(g.p, h.p))
    c.ensure_eq("its value is returned", x, r)
