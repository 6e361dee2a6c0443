from contract import *


@contract("R01", "Logger::run")
def _(c):
    """the rounds of Booster::run; after each of them one line with the values for the hypothesis current then"""
    SB = "State"
    app = lambda f, *a: T.app(f, tuple(P(x) for x in a), SB)
    brk = lambda s, i: T.bapp("stops", [P(s), P(i)])
    c.declared.update(("stops", "pre", "next", "post", "why", "current", "objective", "loss", "wrote", "created"))
    S, V = c.sample(), c.sample("V")
    W = c.opq("W", "WL"); s0 = c.opq("state", SB); limit = c.int("limit")
    log = []
    FS = "File"
    fs = c.cell(Opq(FS, c.sym("nothing", FS, ()) if hasattr(c, "sym") else T.var("nothing", FS)))
    line = lambda f, x: T.app("wrote", (P(f), P(x)), FS)
    def write_all(ev, a):
        ev.write(a[0], Opq(FS, line(ev.rd(a[0]).p, ev.rd(a[1]).p)))
        return Enum("Result", "Ok", [UNIT])
    def create(ev, a):
        log.append("create")
        ev.write(fs, Opq(FS, T.app("created", (), FS)))
        return Enum("Result", "Ok", [fs])
    def pre(ev, a): log.append("pre"); ev.write(a[0], Opq(SB, app("pre", ev.rd(a[0]).p))); return UNIT
    def boost(ev, a):
        s = ev.rd(a[0]).p; i = ev.rd(a[2]).p
        ev.write(a[0], Opq(SB, app("next", s, i))); b = brk(s, i)
        return Cases([(b, Enum("ControlFlow", "Break", [Num(T.app("why", (s, i), "I"), "u")])), (bnot(b), Enum("ControlFlow", "Continue", [UNIT]))])
    def post(ev, a): log.append("post"); return Opq("Out", T.app("post", (ev.rd(a[0]).p,), "Out"))
    cur = lambda s: T.app("current", (P(s),), "Out")
    obj = lambda i, h: T.app("objective", (P(i), P(h)), "R")
    loss = lambda i, h: T.app("loss", (P(i), P(h)), "R")
    for k, f in (((SB, "preprocess"), pre), ((SB, "boost"), boost), ((SB, "postprocess"), post), ((FS, "write_all"), write_all), (("File", "create"), create),
                 ((SB, "current_hypothesis"), lambda ev, a: Opq("Out", cur(ev.rd(a[0]).p))),
                 (("Obj", "eval"), lambda ev, a: Num(obj(the_id(ev.rd(a[1])), ev.rd(a[2]).p), "f"))): c.stub(k, f)
    c.stub(("Logger", "print_stats"), lambda ev, a: UNIT); c.stub(("Logger", "print_log_header"), lambda ev, a: UNIT)
    L = c.cell(c.struct("Logger", name="L", over={"booster": s0, "weak_learner": W, "objective_func": c.opq("F", "Obj"), "loss_func": FnV(lambda a: Num(loss(the_id(c.ev.rd(a[0])), c.ev.rd(a[1]).p), "f")),
        "train": S, "test": V, "time_limit": Num(limit, "u")}))
    c.assume(lt(0, c.get(L, "round").p))          # a progress line is printed every `round` rounds
    r = c.call("Logger::run", L, UNIT)
    if isinstance(r, Enum) and r.var == "Ok": r = r.xs[0]
    c.ensure("the file is created once, preprocess comes first, postprocess last, each once", bconst(log == ["create", "pre", "post"]))
    # the result is post(next(s, i)) and the file ends in wrote(f, line): the states and files s(0), s(1), .. are read off and checked
    atom = lambda p: next(iter(next(iter(P(p).t))))[0]
    def is_(p, f): return len(P(p).t) == 1 and atom(p).kind == "app" and atom(p).data[0] == f
    F = c.ev.rd(fs).p
    if not (is_(r.p, "post") and is_(atom(r.p).data[1][0], "next")): raise Unsupported("the result is not postprocess of a boosted state")
    if not is_(F, "wrote"): raise Unsupported("the file does not end in a written line")
    s, i = atom(atom(r.p).data[1][0]).data[1]
    f, x = atom(F).data[1]
    X = atom(s); Y = atom(f); K = X.data[1][-1]
    c.declared.update((X.data[0], Y.data[0], atom(K).data[0]))
    st = lambda k: T.app(X.data[0], tuple(X.data[1][:-1]) + (P(k),), SB)
    fl = lambda k: T.app(Y.data[0], tuple(Y.data[1][:-1]) + (P(k),), FS)
    # the time column may show anything
    last = atom(x).data[1][-1]
    time = lambda k: T.subst(last, {atom(K): P(k)})
    def row(k):
        h = cur(st(k))
        return T.app("fmt:{},{},{},{}\n", (obj(the_id(S), h), loss(the_id(S), h), loss(the_id(V), h), time(P(k) - 1)), "S")
    j = fresh("j")
    c.ensure_eq("the last round is number K+1", i, K + 1)
    c.ensure("the first state is the preprocessed one", T.eqo(st(0), app("pre", s0.p)))
    c.ensure("every round continues from the previous one, with the next round number", T.forall(j, K, T.eqo(st(P(j) + 1), app("next", st(P(j)), P(j) + 1))))
    over = lambda k: lt(limit, time(k))
    c.ensure("no earlier round asked to stop or passed the time limit", T.forall(j, K, bnot(bor(brk(st(P(j)), P(j) + 1), over(P(j))))))
    c.ensure("the last round asked to stop, or passed the time limit", bor(brk(st(K), K + 1), over(K)))
    c.ensure("the file starts with the header", T.eqo(fl(0), line(T.app("created", (), FS), P(T.mk_atom("var", ('"ObjectiveValue,TrainLoss,TestLoss,Time\n"',), "S")))))
    c.ensure("one line per round, for the hypothesis current after it", T.forall(j, K, T.eqo(fl(P(j) + 1), line(fl(P(j)), row(P(j) + 1)))))
    # the last round
    nx = app("next", st(K), K + 1); h = cur(nx)
    c.ensure("a line for the last round", T.eqo(F, line(fl(K), T.app("fmt:{},{},{},{}\n", (obj(the_id(S), h), loss(the_id(S), h), loss(the_id(V), h), last), "S"))))
