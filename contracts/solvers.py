"""The programs handed to the solver (clarabel): LPModel of LPBoost / MLPBoost, QPModel of SoftBoost / ERLPBoost."""
from lib_boost import *
from fractions import Fraction as F
from eval import *

SQ, EQ_, LQ = "softboost/qp_model", "erlpboost/qp_model", "/lpboost/lp_model"


def csc(c):
    """CscMatrix::new: the matrix is its column pointers, row numbers and values; recorded"""
    got = []
    def new(ev, a):
        a = [ev.rd(x) for x in a]
        got.append(a)
        return Opq("Csc", c.sym("matrix%d" % len(got), "Csc", ()))
    c.stub(("CscMatrix", "new"), new)
    for q in (None, "SupportedConeT"):
        for k in ("ZeroConeT", "NonnegativeConeT"): c.stub((q, k), lambda ev, a, k=k: Enum("Cone", k, [ev.rd(a[0])]))
    return got


def blocks(c, q):
    """the pieces a vector was built from: (count, the j-th of them)"""
    out = []; run = []
    def flush():
        if run:
            x = Seq(list(run)); run.clear()
            out.append((P(1), lambda j: x))
    for s in norm(c.ev.rd(q)).segs:
        if not s.flat: run.append(s)
        else:
            flush()
            if s.g is not TRUE: raise Unsupported("a filtered vector")
            out.append((s.n, lambda j, s=s: c.ev.rd(vsubst(s.e, {s.k: P(j)}))))
    flush()
    return out


def column_major(c, got, nrows, ncols, cols):
    """the matrix in compressed columns: cols = groups of (how many columns, entries), entries = runs of (how many, row, value), rows increasing"""
    c.ensure("one matrix is built", bconst(len(got) == 1))
    R, C, ptr, rows, vals = got[0]
    c.ensure_eq("number of rows", R, nrows); c.ensure_eq("number of columns", C, ncols)
    rb, vb = blocks(c, rows), blocks(c, vals)
    if len(rb) != len(cols) or len(vb) != len(cols): raise Unsupported("the columns are built in another grouping")
    base = col = ZERO
    for g, ((cnt, runs), (nr, fr), (nv, fv)) in enumerate(zip(cols, rb, vb)):
        L = "columns %d" % g
        c.ensure_eq(L + ": how many (rows)", nr, cnt); c.ensure_eq(L + ": how many (values)", nv, cnt)
        j = fresh("j"); J = P(j)
        tot = ZERO
        for m, r, v in runs:
            i = fresh("i"); I = P(i)
            c.ensure(L + ": rows", T.forall(j, cnt, T.forall(i, m, eq(c.at(fr(J), tot + I), P(r(J, I))))))
            c.ensure(L + ": values", T.forall(j, cnt, T.forall(i, m, eq(c.at(fv(J), tot + I), P(v(J, I))))))
            tot = tot + m
        c.ensure(L + ": nothing else", T.forall(j, cnt, band(eq(seq_len(fr(J)), tot), eq(seq_len(fv(J)), tot))))
        c.ensure(L + ": start of each column", T.forall(j, cnt, eq(c.at(ptr, col + J), base + J * tot)))
        base = base + P(cnt) * tot; col = col + cnt
    c.ensure_eq("end of the last column", c.at(ptr, col), base)
    c.ensure_eq("one pointer per column and the end", seq_len(ptr), col + 1)


def margins(c, n, t):
    mg = c.fn("margin"); i = fresh("k"); j = fresh("k")
    return mg, Seq([Seg(P(n), i, Seq([Seg(P(t), j, Num(mg(P(i), P(j)), "f"))]))])


def qp(c, file, **over):
    n = c.len("n", 1); t = c.len("t", 1)
    mg, M = margins(c, n, t)
    over = dict({"n_examples": Num(n, "u"), "n_hypotheses": Num(t, "u"), "margins": M}, **over)
    return n, t, mg, c.struct("QPModel", file=file, name="q", over=over)


def example_column(n, mg, t):
    """the column of example j: sum, lower bound, cap, one row per member"""
    one = P(1)
    return lambda o: [(one, lambda j, i: ZERO, lambda j, i: one), (one, lambda j, i: j + 1, lambda j, i: -one), (one, lambda j, i: n + j + 1, lambda j, i: one),
            (t, lambda j, i: 2 * n + 1 + i, lambda j, i: mg(j, i))]


def slack_column(n, t): return [(t, lambda j, i: 2 * n + 1 + i, lambda j, i: P(-1))]


@contract("A07", "softboost QPModel::build_constraint_matrix")
def _(c):
    """rows: sum = 1; -d_i <= 0; d_i <= 1/nu; the edge of each member <= bound"""
    got = csc(c); n, t, mg, q = qp(c, SQ)
    c.call("QPModel::build_constraint_matrix", q, file=SQ)
    column_major(c, got, 2 * n + t + 1, n, [(n, example_column(n, mg, t)(0))])


@contract("A07", "softboost QPModel::build_constraint_matrix_lp")
def _(c):
    got = csc(c); n, t, mg, q = qp(c, SQ)
    c.call("QPModel::build_constraint_matrix_lp", q, file=SQ)
    column_major(c, got, 2 * n + t + 1, n + 1, [(P(1), slack_column(n, t)), (n, example_column(n, mg, t)(1))])


@contract("A09", "erlpboost QPModel::build_constraint_matrix")
def _(c):
    got = csc(c); n, t, mg, q = qp(c, EQ_)
    c.call("QPModel::build_constraint_matrix", q, file=EQ_)
    column_major(c, got, 2 * n + t + 1, n + 1, [(P(1), slack_column(n, t)), (n, example_column(n, mg, t)(1))])


def rhs_of(c, label, r, n, t, cap, bound):
    c.ensure_eq(label + ": length", seq_len(r), 2 * n + t + 1)
    c.ensure_eq(label + ": the entries sum to 1", c.at(r, 0), 1)
    c.ensure_all(label + ": lower bound 0", n, lambda i: eq(c.at(r, i + 1), ZERO))
    c.ensure_all(label + ": upper bound 1/nu", n, lambda i: eq(c.at(r, n + 1 + i), cap))
    c.ensure_all(label + ": bound on the edges", t, lambda i: eq(c.at(r, 2 * n + 1 + i), bound))


def sense_of(c, s, n, t):
    segs = norm(c.ev.rd(s)).segs
    c.ensure_eq("two groups of rows", seq_len(s), 2)
    a, b = c.ev.rd(seq_get(s, ZERO)), c.ev.rd(seq_get(s, P(1)))
    c.ensure("first an equation, then inequalities", bconst(a.var == "ZeroConeT" and b.var == "NonnegativeConeT"))
    c.ensure_eq("one equation", a.xs[0], 1); c.ensure_eq("the rest are inequalities", b.xs[0], 2 * n + t)


@contract("A07", "softboost QPModel: right-hand sides and row kinds")
def _(c):
    csc(c); n, t, mg, q = qp(c, SQ)
    cap = c.get(q, "cap_inv").p; g = c.real("ghat")
    rhs_of(c, "quadratic program", c.call("QPModel::build_rhs", q, g, file=SQ), n, t, cap, g)
    rhs_of(c, "linear program", c.call("QPModel::build_rhs_lp", q, file=SQ), n, t, cap, ZERO)
    sense_of(c, c.call("QPModel::build_sense", q, file=SQ), n, t)
    sense_of(c, c.call("QPModel::build_sense_lp", q, file=SQ), n, t)


@contract("A09", "erlpboost QPModel: right-hand side and row kinds")
def _(c):
    csc(c); n, t, mg, q = qp(c, EQ_)
    rhs_of(c, "program", c.call("QPModel::build_rhs", q, file=EQ_), n, t, c.get(q, "cap_inv").p, ZERO)
    sense_of(c, c.call("QPModel::build_sense", q, file=EQ_), n, t)


@contract("A07", "softboost QPModel: objectives")
def _(c):
    got = csc(c); n, t, mg, q = qp(c, SQ)
    d = c.reals("d", n, pos=True)
    c.ensure_seq("linear part: ln d_i", c.call("QPModel::build_linear_part_objective", q, d, file=SQ), n, lambda i: T.ln(c.at(d, i)))
    l = c.call("QPModel::build_linear_part_objective_lp", q, file=SQ)
    c.ensure_eq("linear program: length", seq_len(l), n + 1); c.ensure_eq("linear program: minimise the largest edge", c.at(l, 0), 1)
    c.ensure_all("linear program: nothing else", n, lambda i: eq(c.at(l, i + 1), ZERO))
    c.call("QPModel::build_quadratic_part_objective", q, d, file=SQ)
    diagonal(c, got, n, lambda i: T.inv(c.at(d, i)))


def diagonal(c, got, n, f, skip=0):
    """a diagonal matrix with entries f(i), after `skip` zero columns"""
    c.ensure("one matrix is built", bconst(len(got) == 1))
    R, C, ptr, rows, vals = got[0]
    c.ensure_eq("number of rows", R, n + skip); c.ensure_eq("number of columns", C, n + skip)
    c.ensure_seq("rows", rows, n, lambda i: i + skip)
    c.ensure_seq("values", vals, n, f)
    c.ensure_eq("pointers", seq_len(ptr), n + skip + 1)
    for k in range(skip): c.ensure_eq("empty column", c.at(ptr, k), 0)
    c.ensure_all("one entry per column", n + 1, lambda i: eq(c.at(ptr, i + skip), i))


@contract("A09", "erlpboost QPModel: objective")
def _(c):
    """the largest edge plus the second-order expansion of the relative entropy over eta (1e-100 keeps the logarithm finite)"""
    got = csc(c); n, t, mg, q = qp(c, EQ_)
    d = c.reals("d", n, nonneg=True); eta = c.get(q, "eta").p; c.assume(lt(0, eta))
    eps = F("1e-100")
    l = c.call("QPModel::build_linear_part_objective", q, d, file=EQ_)
    c.ensure_eq("linear part: length", seq_len(l), n + 1); c.ensure_eq("linear part: the largest edge", c.at(l, 0), 1)
    c.ensure_all("linear part: ln d_i / eta", n, lambda i: eq(c.at(l, i + 1), T.ln(c.at(d, i) + eps) * T.inv(eta)))
    c.call("QPModel::build_quadratic_part_objective", q, d, file=EQ_)
    diagonal(c, got, n, lambda i: T.inv((c.at(d, i) + eps) * eta), 1)


# ------------------------------------------------------------------ the linear programs of LPBoost and MLPBoost
def clarabel(c):
    """the solver: what it is given is recorded; its answer x, z, obj_val is any vector of the right size"""
    got = csc(c); given = []
    keep = lambda ev, a: a[0]
    c.stub(("DefaultSettingsBuilder", "default"), lambda ev, a: Opq("Settings", c.sym("settings", "Settings", ())))
    for m in ("equilibrate_enable", "verbose", "max_iter", "tol_gap_abs", "tol_gap_rel", "tol_feas", "time_limit"): c.stub(("Settings", m), keep)
    c.stub(("Settings", "build"), lambda ev, a: Enum("Result", "Ok", [ev.rd(a[0])]))
    c.stub(("CscMatrix", "zeros"), lambda ev, a: Opq("Csc", T.app("zero_matrix", tuple(ev.rd(x).p for x in ev.rd(a[0]).xs), "Csc")))
    for x in ("x_", "z_", "objval_", "zero_matrix"): c.declared.add(x)
    def new(ev, a):
        a = [ev.rd(x) for x in a]
        given.append((a, ev.ctx))
        nv, nr = seq_len(a[1]), seq_len(a[3])
        k = fresh("k"); j = fresh("k")
        sol = Struct(("Solution", ""), {"x": Seq([Seg(nv, k, Num(T.app("x_", (P(k),), "R"), "f"))]), "z": Seq([Seg(nr, j, Num(T.app("z_", (P(j),), "R"), "f"))]),
                                        "obj_val": Num(T.var("objval_"), "f"), "status": Opq("Status", c.sym("status", "Status", ()))})
        return Struct(("Solver", ""), {"solution": sol})
    c.stub(("DefaultSolver", "new"), new); c.stub(("Solver", "solve"), lambda ev, a: UNIT)
    return got, given


def cone_rows(c, s, want):
    c.ensure_eq("groups of rows", seq_len(s), len(want))
    for k, (var, n) in enumerate(want):
        x = c.ev.rd(seq_get(s, P(k)))
        c.ensure("kind of group %d" % k, bconst(x.var == var)); c.ensure_eq("size of group %d" % k, x.xs[0], n)


def lp_init(c, file, cost):
    """column 0 is the margin rho; then one slack column per example"""
    n = c.len("n", 1); ub = c.real("ub", gt=0)
    m = c.call("LPModel::init", Num(n, "u"), ub, file=file)
    l = c.get(m, "lin_obj")
    c.ensure_eq("objective: length", seq_len(l), n + 1); c.ensure_eq("objective: -rho", c.at(l, 0), -1)
    c.ensure_all("objective: cost of each slack", n, lambda i: eq(c.at(l, i + 1), cost(ub)))
    c.ensure_eq("examples", c.get(m, "n_examples"), n); c.ensure_eq("no member yet", c.get(m, "n_hypotheses"), 0)
    one = P(1)
    # the last start pointer is pushed when the next column begins: complete the list to check it
    rows, vals, ptr = c.get(m, "row_val"), c.get(m, "nonzero"), c.get(m, "col_ptr")
    full = Seq(list(norm(ptr).segs) + [Seg(one, fresh("k"), Num(seq_len(rows), "u"))])
    column_major(c, [[Num(ZERO, "u"), Num(n + 1, "u"), full, rows, vals]], ZERO, n + 1,
                 [(one, [(n, lambda j, i: i, lambda j, i: one)]), (n, [(one, lambda j, i: j, lambda j, i: -one), (one, lambda j, i: n + 1 + j, lambda j, i: -one)])])


def lp_update(c, file, opt, ret):
    """one more column: -margin of every example, 1 in the row `weights sum to one`, -1 in its own sign row; everything before it stays"""
    got, given = clarabel(c)
    S = c.sample(); n = c.get(S, "n_sample").p; t = c.len("t"); L = c.len("L"); C = c.len("C")
    y = c.get(S, "target")
    h = c.opq("h", "H")
    rows, vals, ptr = Seq([Seg(P(L), (k := fresh("k")), Num(T.app("row", (P(k),), "I"), "u"))]), c.reals("val", L), Seq([Seg(P(C), (k2 := fresh("k")), Num(T.app("ptr", (P(k2),), "I"), "u"))])
    c.declared.update(("row", "ptr"))
    lin = c.reals("lin", n + 1 + t)
    m = c.cell(c.struct("LPModel", file=file, name="m", over={"lin_obj": lin, "nonzero": vals, "col_ptr": ptr, "row_val": rows, "n_examples": Num(n, "u"), "n_hypotheses": Num(t, "u")}))
    r = c.call("LPModel::update", m, S, Opt(TRUE, h) if opt else h, file=file)
    N = n; T1 = t + 1
    c.ensure("one matrix, one solve", bconst(len(got) == 1 and len(given) == 1))
    R, Cc, p, rv, nz = got[0]
    c.ensure_eq("number of rows", R, 2 * N + T1 + 1); c.ensure_eq("number of columns", Cc, N + T1 + 1)
    for label, a, b, old, new in (("row numbers", rv, c.get(m, "row_val"), lambda i: T.app("row", (P(i),), "I"), (lambda i: i, N, 2 * N + T1)),
                                  ("values", nz, c.get(m, "nonzero"), lambda i: c.at(vals, i), (lambda i: -c.at(y, i) * conf(h.p, the_id(S), i), P(1), P(-1)))):
        for who, q in (("given", a), ("kept", b)):
            w = "%s (%s): " % (label, who)
            c.ensure_eq(w + "length", seq_len(q), L + N + 2)
            c.ensure_all(w + "earlier columns unchanged", L, lambda i: eq(c.at(q, i), old(i)))
            c.ensure_all(w + "the new column", N, lambda i: eq(c.at(q, L + i), new[0](i)))
            c.ensure_eq(w + "weights sum to one", c.at(q, L + N), new[1]); c.ensure_eq(w + "own sign row", c.at(q, L + N + 1), new[2])
    kept = c.get(m, "col_ptr")
    c.ensure_eq("start pointers kept: length", seq_len(kept), C + 1); c.ensure_eq("the new column starts where the others end", c.at(kept, C), L)
    c.ensure_eq("pointers given: length", seq_len(p), C + 2)
    c.ensure_all("pointers given: earlier ones", C, lambda i: eq(c.at(p, i), T.app("ptr", (P(i),), "I")))
    c.ensure_eq("pointers given: new column", c.at(p, C), L); c.ensure_eq("pointers given: end", c.at(p, C + 1), L + N + 2)
    c.ensure_all("pointers kept: earlier ones", C, lambda i: eq(c.at(kept, i), T.app("ptr", (P(i),), "I")))
    a, cx = given[0]
    c.ensure("no quadratic part", T.eqo(a[0].p, T.app("zero_matrix", (N + T1 + 1, N + T1 + 1), "Csc")))
    q = a[1]
    c.ensure_eq("objective: length", seq_len(q), N + T1 + 1); c.ensure_all("objective: unchanged", N + 1 + t, lambda i: eq(c.at(q, i), c.at(lin, i))); c.ensure_eq("objective: members cost nothing", c.at(q, N + 1 + t), 0)
    c.ensure("the matrix built", T.eqo(a[2].p, c.sym("matrix1", "Csc", ())))
    b = a[3]
    c.ensure_eq("right-hand side: length", seq_len(b), 2 * N + T1 + 1)
    c.ensure_eq("right-hand side: weights sum to one", c.at(b, N), 1)
    c.ensure_all("right-hand side: zero before", N, lambda i: eq(c.at(b, i), ZERO)); c.ensure_all("right-hand side: zero after", N + T1, lambda i: eq(c.at(b, N + 1 + i), ZERO))
    cone_rows(c, a[4], [("NonnegativeConeT", N), ("ZeroConeT", 1), ("NonnegativeConeT", N), ("NonnegativeConeT", T1)])
    c.ensure_eq("one more member", c.get(m, "n_hypotheses"), T1); c.ensure_eq("as many examples", c.get(m, "n_examples"), N)
    c.ensure_seq("weights: the members' part of the solution", c.get(m, "weights"), T1, lambda i: T.app("x_", (N + 1 + i,), "R"))
    c.ensure_seq("distribution: the multipliers of the margin rows", c.get(m, "dist"), N, lambda i: T.app("z_", (P(i),), "R"))
    c.model = m
    ret(c, r, T1)


@contract("A08", "lpboost LPModel::init")
def _(c): lp_init(c, LQ, lambda ub: ub)

@contract("A08", "lpboost LPModel::update")
def _(c): lp_update(c, LQ, False, lambda c, r, t1: c.ensure_eq("the optimum is the negated minimum", r, -T.var("objval_")))

# ------------------------------------------------------------------ the secondary program of MLPBoost
PM = "perturbed_lp_model"


def pm(c, **over):
    n = c.len("n", 1); t = c.len("t", 1)
    mg, M = margins(c, n, t)
    return n, t, mg, c.struct("LPModel", file=PM, name="q", over=dict({"n_examples": Num(n, "u"), "n_hypotheses": Num(t, "u"), "margins": M}, **over))


@contract("A11", "mlpboost LPModel::build_constraint_matrix")
def _(c):
    got = csc(c); n, t, mg, q = pm(c)
    c.call("LPModel::build_constraint_matrix", q, file=PM)
    column_major(c, got, 2 * n + t + 1, n + 1, [(P(1), slack_column(n, t)), (n, example_column(n, mg, t)(1))])


@contract("A11", "mlpboost LPModel: right-hand side and row kinds")
def _(c):
    csc(c); n, t, mg, q = pm(c)
    rhs_of(c, "program", c.call("LPModel::build_rhs", q, file=PM), n, t, c.get(q, "cap_inv").p, ZERO)
    sense_of(c, c.call("LPModel::build_sense", q, file=PM), n, t)


@contract("A11", "mlpboost LPModel::build_linear_part_objective")
def _(c):
    csc(c); n, t, mg, q = pm(c)
    r = c.real("random", gt=0, lt_=1); c.assume(lt(0, c.get(q, "eta").p))
    for k in ("StdRng", None): c.stub((k, "gen"), lambda ev, a: Num(r, "f"))       # any number in (0, 1)
    l = c.call("LPModel::build_linear_part_objective", c.cell(q), file=PM)
    c.ensure_eq("objective: length", seq_len(l), n + 1); c.ensure_eq("objective: the largest edge", c.at(l, 0), 1)


def extended(c, label, M, n, t, old, new):
    """every example's margins, followed by the new one"""
    c.ensure_eq(label + ": one row per example", seq_len(M), n)
    i = fresh("i"); j = fresh("j")
    row = lambda k: c.ev.rd(seq_get(c.ev.rd(M), P(k)))
    c.ensure(label + ": one more margin each", T.forall(i, n, eq(seq_len(row(i)), P(t) + 1)))
    c.ensure(label + ": earlier margins kept", T.forall(i, n, T.forall(j, t, eq(c.at(row(i), P(j)), old(P(i), P(j))))))
    c.ensure(label + ": the new margin", T.forall(i, n, eq(c.at(row(i), P(t)), new(P(i)))))


@contract("A11", "mlpboost LPModel::update")
def _(c):
    got, given = clarabel(c)
    S = c.sample(); n = c.get(S, "n_sample").p; t = c.len("t"); y = c.get(S, "target"); h = c.opq("h", "H")
    mg, M = margins(c, n, t)
    q = c.cell(c.struct("LPModel", file=PM, name="q", over={"n_examples": Num(n, "u"), "n_hypotheses": Num(t, "u"), "margins": M}))
    rhs = c.reals("b", 2 * n + t + 2); seen = []
    at_call = lambda nm, r: (lambda a: (seen.append((nm, a["self"], c.ev.ctx)), r)[1])
    sense = Seq([]); lin = c.reals("linear", n + 1); mat = Opq("Csc", c.sym("matrix", "Csc", ()))
    for nm, r in (("build_constraint_matrix", mat), ("build_sense", c.opqs("sense", c.len("#sense"), "Cone")), ("build_rhs", rhs), ("build_linear_part_objective", lin)):
        c.stub_named("LPModel::" + nm, at_call(nm, r), file=PM)
    c.declared.add("part")
    w = lambda i: T.app("part", (P(i),), "R"); j = fresh("j")
    c.assume(T.forall(j, t + 1, le(0, w(P(j)))))
    z = sum_(t + 1, w)
    c.assume(lt(0, z))           # some multiplier is positive
    def normalize(ev, a):
        """its contract (utilities.py): every item divided by the total of the absolute values"""
        v = ev.rd(a[0]); j = fresh("j")
        c.ensure("what is scaled: length", eq(seq_len(v), t + 1), ev.ctx)
        c.ensure("what is scaled: the multipliers of the margin rows, made non-negative", T.forall(j, t + 1, eq(c.at(v, P(j)), T.vmax(T.app("z_", (2 * n + 1 + P(j),), "R"), ZERO))), ev.ctx)
        k = fresh("k")            # from here on called part(0), part(1), ..
        ev.write(a[0], Seq([Seg(t + 1, k, Num(w(P(k)) * T.inv(z), "f"))]))
        return UNIT
    c.stub((None, "normalize"), normalize)
    r = c.call("LPModel::update", q, S, Opt(TRUE, h), file=PM)
    for nm, m, cx in seen:
        c.ensure_eq(nm + ": with the new member", c.get(m, "n_hypotheses"), t + 1)
        extended(c, nm, c.get(m, "margins"), n, t, lambda i, j: mg(i, j), lambda i: c.at(y, i) * conf(h.p, the_id(S), i))
    c.ensure("one solve", bconst(len(given) == 1))
    a, cx = given[0]
    c.ensure("no quadratic part", T.eqo(a[0].p, T.app("zero_matrix", (n + 1, n + 1), "Csc")))
    c.ensure("the matrix built", T.eqo(a[2].p, mat.p))
    c.ensure_seq("the linear objective", a[1], n + 1, lambda i: c.at(lin, i)); c.ensure_seq("the right-hand side", a[3], 2 * n + t + 2, lambda i: c.at(rhs, i))
    c.ensure_seq("weights: the multipliers of the margin rows, scaled to total 1", r, t + 1, lambda i: w(i) * T.inv(z))
    c.ensure_all("weights are non-negative", t + 1, lambda i: le(0, c.at(r, i)))
    c.ensure_eq("weights sum to one", sum_(t + 1, lambda i: c.at(r, i)), 1)
    c.ensure_seq("weights kept", c.get(q, "weights"), t + 1, lambda i: w(i) * T.inv(z))


@contract("A11", "mlpboost LPModel::update without a hypothesis")
def _(c):
    got, given = clarabel(c)
    n = c.len("n", 1); t = c.len("t"); d = c.reals("w", t)
    m = c.cell(c.struct("LPModel", file=PM, name="m", over={"n_examples": Num(n, "u"), "weights": d}))
    r = c.call("LPModel::update", m, c.sample(), Opt(FALSE, c.opq("h", "H")), file=PM)
    c.ensure("nothing is solved", bconst(not given))
    c.ensure_seq("the last weights are returned", r, t, lambda i: c.at(d, i))


@contract("A11", "mlpboost LPModel::init")
def _(c):
    n = c.len("n", 1); ub = c.real("ub"); eta = c.real("eta")
    c.stub(("SeedableRng", "seed_from_u64"), lambda ev, a: Opq("StdRng", c.sym("rng", "StdRng", ())))
    m = c.call("LPModel::init", eta, Num(n, "u"), ub, file=PM)
    c.ensure_eq("cap", c.get(m, "cap_inv"), ub); c.ensure_eq("eta", c.get(m, "eta"), eta); c.ensure_eq("examples", c.get(m, "n_examples"), n); c.ensure_eq("no member yet", c.get(m, "n_hypotheses"), 0)
    M = c.get(m, "margins"); i = fresh("i")
    c.ensure_eq("one row per example", seq_len(M), n); c.ensure("no margin yet", T.forall(i, n, eq(seq_len(c.ev.rd(seq_get(c.ev.rd(M), P(i)))), 0)))
