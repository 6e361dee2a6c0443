"""Samples of dense columns and tree values for the tree contracts."""
from contract import *

CLS = "decision_tree/"; REG = "regression_tree/"


class Table:
    """a sample of n rows and d dense columns with known names; x(name, row)"""
    def __init__(self, c, n, labels="pm1"):
        self.c = c; self.n = n
        d = self.d = c.len("d", 1)
        c.declared.update({"cell", "colof", "hascol", "colname"})
        j = fresh("j"); i = fresh("i"); k = fresh("key", "S")
        col = c.enum("Feature", "Dense", c.struct("DenseFeature", name="col", over={
            "name": Str(T.app("colname", (P(j),), "S")), "sample": Seq([Seg(P(n), i, Num(T.app("cell", (P(j), P(i)), "R"), "f"))])}))
        f = P(k)
        c.ev.assume(T.forall(j2 := fresh("j"), d, band(T.bapp("hascol", [T.app("colname", (P(j2),), "S")]), eq(T.app("colof", (T.app("colname", (P(j2),), "S"),), "I"), P(j2)))))
        over = {"n_sample": Num(P(n), "u"), "features": Seq([Seg(d, j, col)]), "name_to_index": MapV(k, T.bapp("hascol", [f]), Num(T.app("colof", (f,), "I"), "u"))}
        if labels == "pm1":
            # labels are integers, -1 or +1
            q = fresh("i"); c.declared.add("y"); c.pm1.add("y") if hasattr(c, "pm1") else None
            self.y = over["target"] = Seq([Seg(P(n), q, Num(T.app("y", (P(q),), "I"), "f"))])
            v = fresh("i"); c.ev.assume(T.forall(v, P(n), bor(eq(T.app("y", (P(v),), "I"), 1), eq(T.app("y", (P(v),), "I"), -1))))
            c.gens["y"] = lambda M, i: M.rng.choice((-1, 1))
        elif labels: self.y = over["target"] = c.reals("y", n)
        self.v = c.struct("Sample", name="S", file="sample_struct", over=over)

    def name(self, s):
        """a known column name"""
        c = self.c; c.declared.add(s)
        f = P(T.mk_atom("var", (s,), "S"))
        k = T.app("colof", (f,), "I")
        c.assume(T.bapp("hascol", [f])); c.assume(le(0, k)); c.assume(lt(k, self.d))
        return f

    def x(self, f, i): return T.app("cell", (T.app("colof", (P(f),), "I"), P(i)), "R")


def splitter(c, f, thr):
    t = c.tkey("Threshold")
    return c.struct("Splitter", name="rule", over={"feature": Str(P(f)), "threshold": Struct(t, {"0": Num(P(thr), "f")})})


def kept(p):
    """the iteration whose value was kept last, as the engine knows it: a function of the iteration count"""
    xs = [a for a in T.all_atoms(p, []) if a.kind == "app" and a.data[0].startswith("last!")]
    if not xs: raise Unsupported("the kept position is not that of a running optimum")
    a = xs[0]
    return lambda k: T.app(a.data[0], tuple(a.data[1][:-1]) + (P(k),), "I")


def optimum(c, thr, op, init, n, score):
    """the running optimum after k iterations is the score of the iteration kept last (or the initial value)"""
    L = kept(thr.p)
    run = lambda k: T.fold(op, (i := fresh("i")), P(k), score(P(i)), init)
    c.induct("the running optimum is the score of the kept boundary", n,
             lambda k: band(le(-1, L(k)), lt(L(k), k), implies(le(0, L(k)), eq(run(k), score(L(k)))), implies(lt(L(k), 0), eq(run(k), init))))
    return L(n)
