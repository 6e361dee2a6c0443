from contract import *


@contract("A13", "Booster::run")
def _(c):
    """preprocess once, then boost with rounds 1, 2, .. until the first Break, then postprocess; nothing else"""
    SB = "State"
    app = lambda f, *a: T.app(f, tuple(P(x) for x in a), SB)
    brk = lambda s, i: T.bapp("stops", [P(s), P(i)])
    c.declared.update(("stops", "pre", "next", "post", "why"))
    log = []
    W = c.opq("W", "WL"); s0 = c.opq("state", SB)
    def same_learner(ev, w):
        c.ensure("the given weak learner is used", T.eqo(ev.rd(w).p, W.p), ev.ctx)
    def pre(ev, a):
        same_learner(ev, a[1]); log.append("pre")
        ev.write(a[0], Opq(SB, app("pre", ev.rd(a[0]).p)))
        return UNIT
    def boost(ev, a):
        same_learner(ev, a[1]); log.append("boost")
        s = ev.rd(a[0]).p; i = ev.rd(a[2]).p
        ev.write(a[0], Opq(SB, app("next", s, i)))
        b = brk(s, i)
        return Cases([(b, Enum("ControlFlow", "Break", [Num(T.app("why", (s, i), "I"), "u")])), (bnot(b), Enum("ControlFlow", "Continue", [UNIT]))])
    def post(ev, a):
        same_learner(ev, a[1]); log.append("post")
        return Opq("Out", T.app("post", (ev.rd(a[0]).p,), "Out"))
    for n, f in (("preprocess", pre), ("boost", boost), ("postprocess", post)): c.stub((SB, n), f)
    b = c.cell(s0)
    r = c.call("Booster::run", b, W)
    c.ensure("preprocess comes first, postprocess last, each once", bconst(log.count("pre") == 1 and log.count("post") == 1 and log[0] == "pre" and log[-1] == "post"))
    # the result is post(next(s, i)): the states s(0), s(1), .. are read off and checked
    atom = lambda p: next(iter(next(iter(p.t))))[0]
    a = atom(r.p)
    ok = a.kind == "app" and a.data[0] == "post" and atom(a.data[1][0]).kind == "app" and atom(a.data[1][0]).data[0] == "next"
    if not ok: raise Unsupported("the result is not postprocess of a boosted state")
    s, i = atom(a.data[1][0]).data[1]
    X = atom(s)
    K = X.data[1][-1]
    # the states and the number of the last round are determined by what is assumed about them
    c.declared.update((X.data[0], atom(K).data[0]))
    st = lambda k: T.app(X.data[0], tuple(X.data[1][:-1]) + (P(k),), SB)
    j = fresh("j")
    c.ensure_eq("the last round is number K+1", i, K + 1)
    c.ensure("the first state is the preprocessed one", T.eqo(st(0), app("pre", s0.p)))
    c.ensure("every round continues from the previous one, with the next round number", T.forall(j, K, T.eqo(st(P(j) + 1), app("next", st(P(j)), P(j) + 1))))
    c.ensure("no earlier round asked to stop", T.forall(j, K, bnot(brk(st(P(j)), P(j) + 1))))
    c.ensure("the last round asked to stop", brk(st(K), K + 1))
