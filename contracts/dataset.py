"""The dataset: column statistics, rows, labels, splitting (properties D01, D04, D05, N01)."""
from contract import *

STATS = (("weighted_mean", False, 1), ("weighted_mean_and_variance", False, 2), ("weighted_mean_for_label", True, 1), ("weighted_mean_and_variance_for_label", True, 2))


def stat_of_every_feature(m, label, arity):
    @contract(("D01", "N01"), "Sample::%s" % m)
    def _(c):
        S = c.sample(); n = c.get(S, "n_sample").p; w = c.reals("w", n, nonneg=True); y = c.real("label"); nf = c.len("nf")
        c.assume(eq(seq_len(c.get(S, "features")), nf))
        F = lambda j: c.at(c.get(S, "features"), j)
        c.declared.update(("stat0", "stat1"))
        def one(ev, a):
            f, a = a[0], a[1:]
            if label:
                c.ensure("for the given label", eq(ev.rd(a[0]).p, y), ev.ctx)
                k = fresh("k"); c.ensure("with the targets", T.forall(k, n, eq(c.at(ev.rd(a[1]), P(k)), c.at(c.get(S, "target"), P(k)))), ev.ctx)
                a = a[2:]
            k = fresh("k"); c.ensure("with the given weights", T.forall(k, n, eq(c.at(ev.rd(a[0]), P(k)), c.at(w, P(k)))), ev.ctx)
            xs = [Num(T.app("stat%d" % i, (ev.rd(f).p,), "R"), "f") for i in range(arity)]
            return xs[0] if arity == 1 else Tup(xs)
        c.stub(("Feature", m), one)
        r = c.call("Sample::" + m, *([S, y, w] if label else [S, w]))
        c.ensure_eq("one entry per feature", seq_len(r), nf)
        for i in range(arity):
            get = lambda k: (seq_get(r, k) if arity == 1 else c.get(seq_get(r, k), i)).p
            c.ensure_all("the statistic of each feature, in order (%d)" % i, nf, lambda k: eq(get(k), T.app("stat%d" % i, (F(k),), "R")))


for s in STATS: stat_of_every_feature(*s)


@contract(("D03", "D05"), "Sample::at and shape")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p; i = c.index("row", n); nf = c.len("nf")
    c.assume(eq(seq_len(c.get(S, "features")), nf))
    F = lambda j: c.at(c.get(S, "features"), j)
    c.declared.add("cell")
    c.stub(("Feature", "index"), lambda ev, a: Num(T.app("cell", (P(ev.rd(a[0]).p), P(ev.rd(a[1]).p)), "R"), "f"))
    r = c.call("Sample::at", S, Num(i, "u"))
    c.ensure_seq("the row of every feature", c.get(r, 0), nf, lambda j: T.app("cell", (F(j), i), "R"))
    c.ensure_eq("its label", c.get(r, 1), c.at(c.get(S, "target"), i))
    r = c.call("Sample::shape", S)
    c.ensure_eq("examples", c.get(r, 0), n); c.ensure_eq("features", c.get(r, 1), c.get(S, "n_feature").p)


@contract("D05", "CrossValidation::fold_at")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p
    cv = c.struct("CrossValidation", name="cv", over={"sample": S})
    tr = c.get(cv, "train_size").p; i = c.len("fold")
    c.assume(le(tr, n))
    got = []
    c.stub(("Sample", "split"), lambda ev, a: got.append([ev.rd(x) for x in a] + [ev.ctx]) or Tup([UNIT, UNIT]))
    c.call("CrossValidation::fold_at", cv, Num(i, "u"))
    c.ensure("split once", bconst(len(got) == 1))
    s, ix, lo, hi, cx = got[0]
    c.ensure("of the given dataset", T.eqo(the_id(s), the_id(S)))
    c.same("along the (possibly shuffled) order", ix, c.get(cv, "ix"))
    test = n - tr
    c.ensure_eq("fold i tests from i * test size", lo, T.vmin(i * test, n))
    c.ensure_eq("up to (i+1) * test size, at most n", hi, T.vmin((i + 1) * test, n))
    # distinct folds test disjoint ranges, and together they cover [0, n) once (i+1) * test reaches n
    j = c.len("other"); c.assume(lt(i, j))
    c.ensure("folds do not overlap", le(hi.p, T.vmin(j * test, n)))


@contract("D05", "CrossValidation::next")
def _(c):
    S = c.sample()
    cv = c.cell(c.struct("CrossValidation", name="cv", over={"sample": S}))
    cur, nf = c.get(cv, "current_fold").p, c.get(cv, "n_folds").p
    got = []
    def fold(ev, a):
        got.append((ev.rd(a[1]).p, ev.ctx))
        return Tup([S, S])
    c.stub(("CrossValidation", "fold_at"), fold)
    r = c.call("CrossValidation::next", cv, trait="Iterator")
    c.ensure("some fold while fewer than n_folds were given", iff(r.c if isinstance(r, Opt) else FALSE, lt(cur, nf)))
    c.ensure("one fold is made", bconst(len(got) == 1))
    for p, cx in got: c.ensure("it is the current fold", eq(p, cur), cx)
    c.ensure_eq("the next call gives the next fold", c.get(cv, "current_fold").p, T.ite(lt(cur, nf), cur + 1, cur))


@contract("D05", "CrossValidation settings")
def _(c):
    S = c.sample(); n = c.get(S, "n_sample").p
    r = c.call("CrossValidation::new", S)
    c.ensure_seq("rows in order", c.get(r, "ix"), n, lambda i: i)
    c.ensure_eq("starts at the first fold", c.get(r, "current_fold").p, 0)
    c.ensure("training part is not larger than the dataset", le(c.get(r, "train_size").p, n))
    q = c.real("ratio", gt=0, lt_=1)
    r = c.call("CrossValidation::train_ratio", r, q)
    c.ensure_eq("training size", c.get(r, "train_size").p, T.floor(q * n)); c.ensure("not larger than the dataset", le(c.get(r, "train_size").p, n))
    f = c.len("folds"); r = c.call("CrossValidation::n_folds", r, Num(f, "u")); c.ensure_eq("folds", c.get(r, "n_folds").p, f)
    s = c.len("seed"); r = c.call("CrossValidation::seed", r, Num(s, "u")); c.ensure_eq("seed", c.get(r, "seed").p, s)


@contract("D04", "Sample::unique_target")
def _(c):
    S = c.sample(binary=False); n = c.get(S, "n_sample").p; y = c.get(S, "target")
    r = c.call("Sample::unique_target", S); K = seq_len(r)
    u = lambda k: c.at(r, k)
    c.ensure_all("strictly increasing: sorted and free of duplicates", K - 1, lambda k: lt(u(k), u(k + 1)))
    c.induct("increasing", K - 1, lambda k: le(u(0), u(k)))
    k, i = c.index("entry", K), c.index("row", n)
    c.ensure("every entry is a label of some row", any_(n, lambda i: eq(c.at(y, i), u(k))))
    srt, src = [[a for a in T.all_atoms(u(k), []) if a.kind == "app" and a.data[0].startswith(x)] for x in ("sort!", "src!")]
    if len(srt) != 1 or len(src) != 1: raise Unsupported("not the sorted labels without repetitions")
    g = T.app(src[0].data[0].replace("src", "group"), (T.app("inv:" + srt[0].data[0], (i,), "I"),), "I")
    c.lemma("the group of the label", band(le(0, g), lt(g, K), eq(u(g), c.at(y, i))))


def labelled(c, integers):
    """a dataset with N labels recorded for n_sample rows"""
    n = c.len("n", 1); N_ = c.len("n_sample")
    del c.ev.stubs[("Sample", "is_valid_binary_instance")]
    if integers:
        c.declared.add("y"); k = fresh("k")
        t = Seq([Seg(n, k, Num(T.app("y", (P(k),), "I"), "f"))])
        c.gens["y"] = lambda M, i: M.rng.randint(-1, 1)
    else: t = c.reals("y", n)
    return n, N_, t, c.struct("Sample", name="S", file="sample_struct", over={"target": t, "n_sample": Num(N_, "u")})


@contract("D04", "Sample::is_valid_binary_instance (accepts)")
def _(c):
    n, N_, t, S = labelled(c, True)
    a, b = c.index("a", n), c.index("b", n)
    c.assume(eq(n, N_), bnot(eq(c.at(t, a), c.at(t, b))), all_(n, lambda i: bor(eq(c.at(t, i), c.at(t, a)), eq(c.at(t, i), c.at(t, b)))))
    c.call("Sample::is_valid_binary_instance", S)      # no panic is reachable
    c.ensure("accepted", TRUE)


@contract("D04", "Sample::is_valid_binary_instance (refuses other than integers)")
def _(c):
    n, N_, t, S = labelled(c, False)
    c.ev.quiet = True                       # it may panic; when it returns:
    c.call("Sample::is_valid_binary_instance", S)
    c.ev.quiet = False
    c.ensure("one label per row", eq(n, N_))
    c.ensure_all("every label is an integer", n, lambda i: eq(T.trunc(c.at(t, i)), c.at(t, i)))


@contract("D04", "Sample::is_valid_binary_instance (refuses other than two labels)")
def _(c):
    n, N_, t, S = labelled(c, True)
    c.ev.quiet = True
    c.call("Sample::is_valid_binary_instance", S)
    c.ev.quiet = False
    c.ensure("at least two labels occur", any_(n, lambda i: bnot(eq(c.at(t, i), c.at(t, 0)))))
    p, q, r = c.index("p", n), c.index("q", n), c.index("r", n)
    c.ensure("no three different labels occur", bor(eq(c.at(t, p), c.at(t, q)), eq(c.at(t, q), c.at(t, r)), eq(c.at(t, p), c.at(t, r))))


def named_columns(c, nf):
    """nf columns of any storage with pairwise different names (as far as column q and the target name are concerned)"""
    c.declared.add("name_of")
    nm = lambda f: T.app("name_of", (P(f),), "S")
    c.stub(("Feature", "name"), lambda ev, a: Str(nm(ev.rd(a[0]).p)))
    return nm


@contract("D03", "Sample::set_target")
def _(c):
    n = c.len("n", 1); nf = c.len("nf", 1); F = c.opqs("column", nf, "Feature"); nm = named_columns(c, nf)
    col = lambda j: c.at(F, j)
    c.declared.add("cell_of")
    def into(ev, a):
        k = fresh("i"); f = ev.rd(a[0]).p
        return Seq([Seg(P(n), k, Num(T.app("cell_of", (f, P(k)), "R"), "f"))])
    c.stub(("Feature", "into_target"), into)
    S = c.struct("Sample", file="sample_struct", name="S", over={"features": F, "n_feature": Num(nf, "u"), "n_sample": Num(n, "u"), "target": Seq([]),
                                                              "name_to_index": MapV(fresh("key", "S"), FALSE, Num(ZERO, "u"))})
    p = c.index("p", nf); q = c.index("q", nf)
    for x in (p, q):                   # names are pairwise different
        j = fresh("j"); c.assume(T.forall(j, nf, bor(eq(P(j), P(x)), bnot(T.eqo(nm(col(P(j))), nm(col(x)))))))
    c.assume(bnot(eq(p, q)))
    r = c.call("Sample::set_target", S, Str(nm(col(p))))
    c.ensure_seq("the labels are the chosen column", c.get(r, "target"), n, lambda i: T.app("cell_of", (col(p), i), "R"))
    G = c.get(r, "features")
    c.ensure_eq("one column less", seq_len(G), nf - 1); c.ensure_eq("as the shape says", c.get(r, "n_feature"), nf - 1)
    c.ensure_eq("no row is lost", c.get(r, "n_sample"), n)
    c.ensure("the other columns keep their order", T.forall((j := fresh("j")), nf - 1, T.eqo(c.at(G, P(j)), col(T.ite(lt(P(j), p), P(j), P(j) + 1)))))
    x = c.call("Sample::index", r, Str(nm(col(q))), trait="Index")
    c.ensure("the name of any other column leads to that column", T.eqo(c.ev.rd(x).p, col(q)))


@contract("D03", "Sample::replace_names")
def _(c):
    n = c.len("n", 1); nf = c.len("nf", 1); F = c.opqs("column", nf, "Feature")
    c.declared.update(("name_of", "data_of", "renamed", "new_name"))
    nm = lambda f: T.app("name_of", (P(f),), "S")
    new = lambda j: T.app("new_name", (P(j),), "S")
    col = lambda j: c.at(F, j)
    # a column is (name, data): renaming gives another name to the same data
    c.stub(("Feature", "name"), lambda ev, a: Str(name_after(ev.rd(a[0]).p)))
    def name_after(p):
        at = next(iter(next(iter(p.t))))[0] if len(p.t) == 1 else None
        return P(at.data[1][1]) if at is not None and at.kind == "app" and at.data[0] == "renamed" else nm(p)
    def rename(ev, a):
        old = ev.rd(a[0]).p
        ev.write(a[0], Opq("Feature", T.app("renamed", (old, ev.rd(a[1]).p), "Feature")))
        return Str(name_after(old))
    c.stub(("Feature", "replace_name"), rename)
    S = c.cell(c.struct("Sample", file="sample_struct", name="S", over={"features": F, "n_feature": Num(nf, "u"), "n_sample": Num(n, "u"),
                                                                     "name_to_index": MapV(fresh("key", "S"), FALSE, Num(ZERO, "u"))}))
    k = fresh("k")
    names = Seq([Seg(nf, k, Str(new(k)))])
    q = c.index("q", nf)
    j = fresh("j"); c.assume(T.forall(j, nf, bor(eq(P(j), P(q)), bnot(T.eqo(new(P(j)), new(q))))))
    r = c.call("Sample::replace_names", S, names)
    c.ensure_eq("one old name per column", seq_len(r), nf)
    c.ensure("the old names are returned in order", T.forall((j := fresh("j")), nf, T.eqo(c.at(r, P(j)), nm(col(P(j))))))
    G = c.get(S, "features")
    c.ensure_eq("no column is lost", seq_len(G), nf)
    c.ensure("every column keeps its data and gets its new name", T.forall((j := fresh("j")), nf, T.eqo(c.at(G, P(j)), T.app("renamed", (col(P(j)), new(P(j))), "Feature"))))
    x = c.call("Sample::index", c.read(S), Str(new(q)), trait="Index")
    c.ensure("the new name of a column leads to that column", T.eqo(c.ev.rd(x).p, T.app("renamed", (col(q), new(q)), "Feature")))
