"""Neural networks: activations, layers, losses, read-outs (property N02)."""
from contract import *


def act(c, kind, *xs): return c.enum("Activation", kind, *[Num(x, "f") for x in xs])


def matrix(c, name, nr, nc):
    c.declared.add(name)
    i, j = fresh("i"), fresh("j")
    return Seq([Seg(P(nr), i, Seq([Seg(P(nc), j, Num(T.app(name, (P(i), P(j)), "R"), "f"))]))]), lambda i, j: T.app(name, (P(i), P(j)), "R")


def entry(c, q, i, j): return c.at(c.ev.rd(seq_get(q, P(i))), j)


def ensure_matrix(c, label, q, nr, nc, f):
    c.ensure_eq("%s: rows" % label, seq_len(q), nr)
    i, j = fresh("i"), fresh("j")
    c.ensure_all("%s: columns" % label, nr, lambda i: eq(seq_len(c.ev.rd(seq_get(q, i))), nc))
    c.ensure("%s: entries" % label, T.forall(i, P(nr), T.forall(j, P(nc), eq(entry(c, q, P(i), P(j)), f(P(i), P(j))))))


@contract("N02", "Activation::eval and diff (sigmoid)")
def _(c):
    n = c.len("n"); x = c.reals("x", n); eta = c.real("eta")
    r = c.call("Activation::eval", act(c, "Sigmoid", eta), x)
    s = lambda i: T.inv(1 + T.exp(-eta * c.at(x, i)))
    c.ensure_seq("1 / (1 + exp(-eta x))", r, n, s)
    r = c.call("Activation::diff", act(c, "Sigmoid", eta), x)
    c.ensure_seq("derivative: eta s (1 - s)", r, n, lambda i: eta * s(i) * (1 - s(i)))


@contract("N02", "Activation::eval and diff (ReLU)")
def _(c):
    n = c.len("n"); x = c.reals("x", n); th = c.real("threshold")
    r = c.call("Activation::eval", act(c, "ReLu", th), x)
    c.ensure_seq("x above the threshold, else 0", r, n, lambda i: T.ite(lt(th, c.at(x, i)), c.at(x, i), ZERO))
    r = c.call("Activation::diff", act(c, "ReLu", th), x)
    c.ensure_eq("one derivative per input", seq_len(r), n)
    c.ensure_all("derivative: 1 above the threshold, 0 below", n, lambda i: bor(eq(c.at(x, i), th), eq(c.at(r, i), T.ite(lt(th, c.at(x, i)), ONE, ZERO))))


@contract("N02", "Activation::eval and diff (identity)")
def _(c):
    n = c.len("n"); x = c.reals("x", n)
    c.ensure_seq("x itself", c.call("Activation::eval", act(c, "Id"), x), n, lambda i: c.at(x, i))
    c.ensure_seq("derivative 1", c.call("Activation::diff", act(c, "Id"), x), n, lambda i: ONE)


@contract("N02", "Activation::eval and diff (softmax)")
def _(c):
    n = c.len("n", 1); x = c.reals("x", n); eta = c.real("eta")
    p = c.dist("p", n)
    def project(ev, a):
        """its contract (A06): the distribution proportional to the exponentials, capped at 1/nu"""
        c.ensure("uncapped", eq(ev.rd(a[0]).p, 1), ev.ctx)
        q = ev.rd(a[1])
        c.ensure("one score per input", eq(seq_len(q), n), ev.ctx)
        k = fresh("k"); c.ensure("scores eta x", T.forall(k, n, eq(c.at(q, P(k)), eta * c.at(x, P(k)))), ev.ctx)
        return p
    c.stub((None, "project_log_distribution_to_capped_simplex"), project)
    c.ensure_seq("the distribution proportional to exp(eta x)", c.call("Activation::eval", act(c, "SoftMax", eta), x), n, lambda i: c.at(p, i))
    c.ensure_seq("derivative: eta p (1 - p)", c.call("Activation::diff", act(c, "SoftMax", eta), x), n, lambda i: eta * c.at(p, i) * (1 - c.at(p, i)))


def layer(c):
    nr = c.len("nr", 1); nc = c.len("nc", 1)
    W, w = matrix(c, "W", nr, nc); b = c.reals("b", nr)
    L = c.struct("Layer", name="L", over={"nrow": Num(nr, "u"), "ncol": Num(nc, "u"), "matrix": W, "bias": b})
    return L, nr, nc, w, b


@contract("N02", "Layer::affine")
def _(c):
    L, nr, nc, w, b = layer(c); x = c.reals("x", nc)
    r = c.call("Layer::affine", L, x)
    c.ensure_seq("W x + b", r, nr, lambda i: sum_(nc, lambda j: w(i, j) * c.at(x, j)) + c.at(b, i))
    c.ensure_eq("output dimension", c.call("Layer::output_dim", L), nr)


@contract("N02", "Layer::forward")
def _(c):
    L, nr, nc, w, b = layer(c); x = c.reals("x", nc)
    u = c.reals("u", nr); z = c.reals("z", nr)
    c.stub(("Layer", "affine"), lambda ev, a: (c.same("of the input", ev.rd(a[1]), x), u)[1])
    c.stub(("Activation", "eval"), lambda ev, a: (c.same("of W x + b", ev.rd(a[1]), u), c.same("with the layer's activation", ev.rd(a[0]), c.get(L, "activation")), z)[2])
    c.ensure_seq("activation(W x + b)", c.call("Layer::forward", L, x), nr, lambda i: c.at(z, i))
    c.ensure_seq("activation(u)", c.call("Layer::nonlinear", L, u), nr, lambda i: c.at(z, i))


@contract("N02", "Layer::backward")
def _(c):
    L, nr, nc, w, b = layer(c); rate = c.real("rate")
    dW, dw = matrix(c, "dW", nr, nc); db = c.reals("db", nr)
    cell = c.cell(L)
    c.call("Layer::backward", cell, rate, dW, db)
    ensure_matrix(c, "W - rate dW", c.get(cell, "matrix"), nr, nc, lambda i, j: w(i, j) - rate * dw(i, j))
    c.ensure_seq("b - rate db", c.get(cell, "bias"), nr, lambda i: c.at(b, i) - rate * c.at(db, i))


@contract("N02", "matrix products")
def _(c):
    n, p, q = c.len("n", 1), c.len("p", 1), c.len("q", 1)
    A, a = matrix(c, "A", n, p); B, b = matrix(c, "B", n, q)
    ensure_matrix(c, "A^T B", c.call("matrix_inner_product", A, B), p, q, lambda i, j: sum_(n, lambda k: a(k, i) * b(k, j)))
    C_, d = matrix(c, "C", p, q)
    ensure_matrix(c, "A C", c.call("matrix_product", A, C_), n, q, lambda i, j: sum_(p, lambda k: a(i, k) * d(k, j)))
    c.ensure_seq("column sums", c.call("column_sum", A), p, lambda j: sum_(n, lambda k: a(k, j)))
    D, e = matrix(c, "D", n, p)
    ensure_matrix(c, "entrywise product", c.call("hadamard_product", A, D), n, p, lambda i, j: a(i, j) * e(i, j))


@contract("N02", "NNLoss::diff")
def _(c):
    n = c.len("n"); p = c.reals("p", n); y = c.reals("y", n)
    for kind in ("L2", "CrossEntropy"):
        c.ensure_seq("%s: prediction minus target" % kind, c.call("NNLoss::diff", c.enum("NNLoss", kind), p, y), n, lambda i: c.at(p, i) - c.at(y, i))


@contract("N02", "task::binarize")
def _(c):
    y = c.reals("y", ONE, lo=0, hi=1)
    c.ensure_eq("one output: the probability of +1", c.call("binarize", y), 2 * c.at(y, 0) - 1)
    z = c.reals("z", const(2), lo=0, hi=1)
    a, b = c.at(z, 0), c.at(z, 1)
    c.ensure_eq("two outputs: the more confident, signed", c.call("binarize", z), T.ite(lt(b, a), -a, b))


@contract("N02", "task::discretize")
def _(c):
    n = c.len("n", 1); y = c.reals("y", n)
    r = c.call("discretize", y, Num(n, "u"))
    c.ensure("a class", band(le(0, r.p), lt(r.p, n)))
    c.ensure_all("no output is larger", n, lambda i: le(c.at(y, i), c.at(y, r.p)))


@contract("N02", "task::vectorize")
def _(c):
    y = c.real("y")
    r = c.call("vectorize", y, Num(ONE, "u")); c.ensure_seq("one output: the label itself", r, ONE, lambda i: y)
    n = c.len("n", 2); k = c.len("k"); c.assume(lt(k, n))
    r = c.call("vectorize", Num(k, "f"), Num(n, "u")); c.ensure_seq("class k", r, n, lambda i: T.ind(eq(i, k)))
    r = c.call("vectorize", Num(-ONE, "f"), Num(n, "u")); c.ensure_seq("label -1 is class 0", r, n, lambda i: T.ind(eq(i, 0)))


@contract("N02", "NNClassifier::confidence")
def _(c):
    S = c.sample(); i = c.index("row", c.get(S, "n_sample").p); m = c.len("m", 1)
    x = c.reals("x", c.len("d")); out = c.reals("out", m, lo=0, hi=1)
    c.stub(("Sample", "at"), lambda ev, a: (c.ensure("the given row", eq(ev.rd(a[1]).p, i)), Tup([x, Num(c.real("label"), "f")]))[1])
    c.stub(("NNHypothesis", "eval"), lambda ev, a: (c.same("of the row", ev.rd(a[1]), x), out)[1])
    got = []
    c.stub((None, "binarize"), lambda ev, a: (c.same("of the outputs", ev.rd(a[0]), out), Num(c.real("signed"), "f"))[1])
    c.stub((None, "discretize"), lambda ev, a: (c.same("of the outputs", ev.rd(a[0]), out), c.ensure("number of classes", eq(ev.rd(a[1]).p, kc)), Num(c.real("class"), "f"))[2])
    kc = c.len("K", 2)
    def net(task):
        f = c.struct("NNHypothesis", name="f", over={"task": task, "layers": Opq("Layers", c.sym("layers", "Layers", ()))})
        return f
    wrap = lambda ty, f: Struct(c.tkey(ty), {"0": f, "$id": f.fs["$id"]})
    r = c.call("NNClassifier::confidence", wrap("NNClassifier", net(c.enum("Task", "Binary"))), S, Num(i, "u"), trait="Classifier")
    c.ensure_eq("binary: signed confidence", r, c.real("signed"))
    r = c.call("NNClassifier::confidence", wrap("NNClassifier", net(c.enum("Task", "MultiClass", Num(kc, "u")))), S, Num(i, "u"), trait="Classifier")
    c.ensure_eq("several classes: the class", r, c.real("class"))
    c.ev.assume(eq(m, 1))
    r = c.call("NNRegressor::predict", wrap("NNRegressor", net(c.enum("Task", "Regression"))), S, Num(i, "u"), trait="Regressor")
    c.ensure_eq("regression: the output", r, c.at(out, 0))


def network(c, depth):
    """a network of `depth` layers of any widths; returns the struct cell, dims, and per layer (weights, biases, activation name)"""
    dims = [c.len("d%d" % l, 1) for l in range(depth + 1)]
    ls = []; ws = []
    for l in range(depth):
        W, w = matrix(c, "W%d" % l, dims[l + 1], dims[l]); b = c.reals("b%d" % l, dims[l + 1])
        eta = c.real("eta%d" % l)
        ls.append(c.struct("Layer", name="L%d" % l, over={"nrow": Num(dims[l + 1], "u"), "ncol": Num(dims[l], "u"), "matrix": W, "bias": b, "activation": act(c, "Sigmoid", eta)}))
        ws.append((w, b, eta))
    return ls, dims, ws


def forwarding(depth):
    @contract("N02", "NNHypothesis::eval (%d layer%s)" % (depth, "s" if depth > 1 else ""))
    def _(c):
        ls, dims, ws = network(c, depth)
        c.declared.add("sigma")
        x = c.reals("x", dims[0])
        def apply(ev, a):
            v = ev.rd(a[0]); eta = ev.rd(v.xs[0]).p; q = ev.rd(a[1]); k = fresh("k")
            return Seq([Seg(seq_len(q), k, Num(T.app("sigma", (eta, c.at(q, P(k))), "R"), "f"))])
        c.stub(("Activation", "eval"), apply)
        r = c.call("NNHypothesis::eval", c.struct("NNHypothesis", name="f", over={"layers": Seq([Seg(ONE, fresh("k"), l) for l in ls])}), x)
        z = [lambda j: c.at(x, j)]
        for l in range(depth):
            w, b, eta = ws[l]
            z.append(lambda r, w=w, b=b, l=l, eta=eta: T.app("sigma", (eta, sum_(dims[l], lambda j: w(r, j) * z[l](j)) + c.at(b, r)), "R"))
        c.ensure_seq("layer after layer", r, dims[-1], lambda i: z[depth](P(i)))


def training(depth):
    @contract("N02", "NNHypothesis::train (%d layer%s)" % (depth, "s" if depth > 1 else ""))
    def _(c):
        ls, dims, ws = network(c, depth)
        n = c.len("n", 1); m = c.len("batch", 1); rate = c.real("rate")
        c.declared.update(("cell", "row", "label", "sigma", "dsigma", "code"))
        S = c.struct("Sample", name="S", file="sample_struct", over={"n_sample": Num(n, "u")})
        k = fresh("k"); rows = Seq([Seg(m, k, Num(T.app("row", (P(k),), "I"), "u"))])
        row = lambda i: T.app("row", (P(i),), "I")
        x = lambda i, j: T.app("cell", (row(i), P(j)), "R")
        def vec(n, f): k = fresh("k"); return Seq([Seg(P(n), k, Num(f(P(k)), "f"))])
        c.stub(("Sample", "at"), lambda ev, a: Tup([vec(dims[0], lambda j, i=ev.rd(a[1]).p: T.app("cell", (i, j), "R")), Num(T.app("label", (ev.rd(a[1]).p,), "R"), "f")]))
        # activations: any function and its derivative, entry by entry (their own contracts: eval and diff)
        par = lambda ev, v: ev.rd(ev.rd(v).xs[0]).p
        def apply(f):
            def g(ev, a):
                eta = par(ev, a[0]); q = ev.rd(a[1])
                return vec(seq_len(q), lambda j: T.app(f, (eta, c.at(q, j)), "R"))
            return g
        c.stub(("Activation", "eval"), apply("sigma")); c.stub(("Activation", "diff"), apply("dsigma"))
        c.stub((None, "vectorize"), lambda ev, a: (c.ensure("coded with the output dimension", eq(ev.rd(a[1]).p, dims[-1]), ev.ctx), vec(dims[-1], lambda j, y=ev.rd(a[0]).p: T.app("code", (y, j), "R")))[1])
        # matrix functions and Layer::affine by their contracts
        at = lambda q, i, j: entry(c, q, i, j)
        def mat(nr, nc, f):
            i, j = fresh("i"), fresh("j")
            return Seq([Seg(P(nr), i, Seq([Seg(P(nc), j, Num(f(P(i), P(j)), "f"))]))])
        cols = lambda ev, q: seq_len(ev.rd(seq_get(q, ZERO)))
        def inner(ev, a):
            A, B = ev.rd(a[0]), ev.rd(a[1]); c.ensure("matrix_inner_product: one row per row", eq(seq_len(A), seq_len(B)), ev.ctx)
            return mat(cols(ev, A), cols(ev, B), lambda i, j: sum_(seq_len(A), lambda k: at(A, k, i) * at(B, k, j)))
        def product(ev, a):
            A, B = ev.rd(a[0]), ev.rd(a[1]); c.ensure("matrix_product: dimensions agree", eq(cols(ev, A), seq_len(B)), ev.ctx)
            return mat(seq_len(A), cols(ev, B), lambda i, j: sum_(seq_len(B), lambda k: at(A, i, k) * at(B, k, j)))
        def hadamard(ev, a):
            A, B = ev.rd(a[0]), ev.rd(a[1]); c.ensure("hadamard_product: dimensions agree", band(eq(seq_len(A), seq_len(B)), eq(cols(ev, A), cols(ev, B))), ev.ctx)
            return mat(seq_len(A), cols(ev, A), lambda i, j: at(A, i, j) * at(B, i, j))
        c.stub((None, "matrix_inner_product"), inner); c.stub((None, "matrix_product"), product); c.stub((None, "hadamard_product"), hadamard)
        c.stub((None, "column_sum"), lambda ev, a: (lambda A: vec(cols(ev, A), lambda j: sum_(seq_len(A), lambda k: at(A, k, j))))(ev.rd(a[0])))
        net = c.cell(c.struct("NNHypothesis", name="f", over={"layers": Seq([Seg(ONE, fresh("k"), l) for l in ls])}))
        c.call("NNHypothesis::train", net, rate, c.enum("NNLoss", "CrossEntropy"), S, rows)
        # forward: z_0 = x, u_l = W_l z_(l-1) + b_l, z_l = sigma(u_l)
        z = [x]; u = []
        for l in range(depth):
            w, b, eta = ws[l]
            u.append(lambda i, r, w=w, b=b, l=l: sum_(dims[l], lambda j: w(r, j) * z[l](i, j)) + c.at(b, r))
            z.append(lambda i, r, eta=eta, l=l: T.app("sigma", (eta, u[l](i, r)), "R"))
        # backward, with the weights as they were before the step: signal of the output layer is prediction minus target
        sig = [None] * depth
        sig[-1] = lambda i, r: z[depth](i, r) - T.app("code", (T.app("label", (row(i),), "R"), P(r)), "R")
        for l in range(depth - 2, -1, -1):
            sig[l] = lambda i, r, l=l: T.app("dsigma", (ws[l][2], u[l](i, r)), "R") * sum_(dims[l + 2], lambda k: sig[l + 1](i, k) * ws[l + 1][0](k, r))
        q = c.get(net, "layers")
        c.ensure_eq("number of layers", seq_len(q), depth)
        for l in range(depth):
            L = c.ev.rd(seq_get(q, const(l)))
            w, b, eta = ws[l]
            ensure_matrix(c, "layer %d: weights move by rate times the derivative" % l, c.get(L, "matrix"), dims[l + 1], dims[l], lambda r, j: w(r, j) - rate * sum_(m, lambda i: sig[l](i, r) * z[l](i, j)))
            c.ensure_seq("layer %d: biases move by rate times the derivative" % l, c.get(L, "bias"), dims[l + 1], lambda r: c.at(b, r) - rate * sum_(m, lambda i: sig[l](i, r)))


for depth in (1, 2, 3): forwarding(depth); training(depth)


@contract("N02", "NeuralNetwork::produce")
def _(c):
    n = c.len("n", 1); S = c.struct("Sample", name="S", file="sample_struct", over={"n_sample": Num(n, "u")}); d = c.dist("d", n)
    B = c.len("batch", 1); lr = c.real("lr")
    W = c.struct("NeuralNetwork", name="net", over={"learning_rate": Num(lr, "f"), "minibatch_size": Num(B, "u")})
    c.declared.add("drawn")
    c.stub(("NNHypothesis", "new"), lambda ev, a: (c.same("the network's dimensions", ev.rd(a[1]), c.get(W, "dimensions")), c.same("the network's activations", ev.rd(a[2]), c.get(W, "activations")),
                                                 c.same("the task", ev.rd(a[0]), c.get(W, "task")), Struct(c.tkey("NNHypothesis"), {"layers": Num(ZERO, "u")}))[-1])      # a network is represented by the number of training steps it has made
    k = fresh("k"); drawn = Seq([Seg(B, k, Num(T.app("drawn", (P(k),), "I"), "u"))])
    def draw(ev, a):
        c.ensure("rows are drawn from the sample", eq(ev.rd(a[1]).p, n), ev.ctx); c.ensure("one minibatch", eq(ev.rd(a[3]).p, B), ev.ctx)
        i = c.index("any", n)
        c.ensure_eq("with the weights given", ev.call_value(a[2], [Num(i, "u")]), c.at(d, i))
        return Opt(TRUE, drawn)
    c.stub(("index", "sample_weighted"), draw); c.stub((None, "sample_weighted"), draw)
    c.stub((None, "thread_rng"), lambda ev, a: Opq("Rng", c.sym("rng", "Rng", ())))
    def train(ev, a):
        c.ensure("learning rate per row of the minibatch", eq(ev.rd(a[1]).p * B, lr), ev.ctx)
        c.same("the configured loss", ev.rd(a[2]), c.get(W, "loss_func")); c.same("on the sample", ev.rd(a[3]), S); c.same("on the rows drawn", ev.rd(a[4]), drawn)
        f = ev.rd(a[0]); ev.write(a[0], Struct(f.name, {"layers": Num(f.fs["layers"].p + 1, "u")}))
        return UNIT
    c.stub(("NNHypothesis", "train"), train)
    r = c.call("NeuralNetwork::produce", W, S, d, trait="WeakLearner")
    c.ensure_eq("every epoch makes its number of steps", c.get(c.get(r, "0"), "layers"), c.get(W, "n_epoch").p * c.get(W, "n_iter_per_epoch").p)
