"""shared by the contracts about common/utils.rs and its users"""
from contract import *

U = "common/utils.rs"


def world(c, lo=0):
    S = c.sample(); n = c.get(S, "n_sample").p
    m = c.len("T", lo); w = c.reals("w", m); hs = c.opqs("member", m, "H")
    return S, n, m, w, hs


def margin_of(c, S, h): return lambda i: c.at(c.get(S, "target"), i) * conf(h, the_id(S), i)


def combined_margin(c, S, m, w, hs):
    return lambda i: c.at(c.get(S, "target"), i) * sum_(m, lambda t: w(t) * conf(c.at(hs, t), the_id(S), i))


def projection(c, seen):
    """the capped projection, left abstract: a distribution that depends on its logarithmic argument"""
    def project(ev, a):
        nu, it = ev.rd(a[0]), a[1]
        q = ev.collect(it) if hasattr(ev, "collect") else it
        seen.append((nu.p, q))
        k = fresh("k")
        return Seq([Seg(seq_len(q), k, Num(T.app("proj%d" % len(seen), (P(k),), "R"), "f"))])
    c.stub((None, "project_log_distribution_to_capped_simplex"), project)
