//! Parses every Rust file given on the command line and prints its functions, types and constants as JSON.
//! Nothing is interpreted here; what is dropped: comments, attributes other than cfg/derive, visibility, lifetimes, where clauses.
use quote::ToTokens;
use std::fmt::Write;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r",
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"'); o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String { format!("[{}]", i.into_iter().collect::<Vec<_>>().join(",")) }
fn node(k: &str, line: usize, fields: &[(&str, String)]) -> String {
    let mut s = format!("{{\"k\":{},\"l\":{}", q(k), line);
    for (n, v) in fields { let _ = write!(s, ",{}:{}", q(n), v); }
    s.push('}'); s
}
fn toks<T: ToTokens>(t: &T) -> String { q(&t.to_token_stream().to_string()) }
fn opt(o: Option<String>) -> String { o.unwrap_or("null".into()) }

fn ty(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            if let Some(qs) = &p.qself { return node("tqself", 0, &[("self", ty(&qs.ty)), ("path", path(&p.path))]); }
            node("tpath", 0, &[("path", path(&p.path))])
        }
        Type::Reference(r) => node("tref", 0, &[("mut", r.mutability.is_some().to_string()), ("ty", ty(&r.elem))]),
        Type::Slice(s) => node("tslice", 0, &[("ty", ty(&s.elem))]),
        Type::Array(s) => node("tarray", 0, &[("ty", ty(&s.elem))]),
        Type::Tuple(t) => node("ttuple", 0, &[("ts", arr(t.elems.iter().map(ty)))]),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Infer(_) => node("tinfer", 0, &[]),
        _ => node("tother", 0, &[("src", toks(t))]),
    }
}
fn path(p: &Path) -> String {
    arr(p.segments.iter().map(|s| {
        let g = match &s.arguments {
            PathArguments::AngleBracketed(a) => arr(a.args.iter().filter_map(|x| match x { GenericArgument::Type(t) => Some(ty(t)), _ => None })),
            _ => "[]".into(),
        };
        format!("[{},{}]", q(&s.ident.to_string()), g)
    }))
}
fn lit(l: &Lit, line: usize) -> String {
    match l {
        Lit::Int(i) => node("int", line, &[("v", q(i.base10_digits())), ("suf", q(i.suffix()))]),
        Lit::Float(f) => node("float", line, &[("v", q(f.base10_digits())), ("suf", q(f.suffix()))]),
        Lit::Bool(b) => node("bool", line, &[("v", b.value.to_string())]),
        Lit::Str(s) => node("str", line, &[("v", q(&s.value()))]),
        Lit::Char(c) => node("char", line, &[("v", q(&c.value().to_string()))]),
        Lit::Byte(b) => node("int", line, &[("v", q(&b.value().to_string())), ("suf", q("u8"))]),
        _ => node("unsupported", line, &[("src", toks(l))]),
    }
}
fn pat(p: &Pat) -> String {
    let l = p.span().start().line;
    match p {
        Pat::Ident(i) => node("pident", l, &[("name", q(&i.ident.to_string())), ("byref", i.by_ref.is_some().to_string()), ("mut", i.mutability.is_some().to_string()), ("sub", opt(i.subpat.as_ref().map(|s| pat(&s.1))))]),
        Pat::Wild(_) => node("pwild", l, &[]),
        Pat::Rest(_) => node("prest", l, &[]),
        Pat::Tuple(t) => node("ptuple", l, &[("ps", arr(t.elems.iter().map(pat)))]),
        Pat::TupleStruct(t) => node("pts", l, &[("path", path(&t.path)), ("ps", arr(t.elems.iter().map(pat)))]),
        Pat::Struct(s) => node("pstruct", l, &[("path", path(&s.path)), ("fs", arr(s.fields.iter().map(|f| format!("[{},{}]", q(&f.member.to_token_stream().to_string()), pat(&f.pat)))))]),
        Pat::Path(p) => node("ppath", l, &[("path", path(&p.path))]),
        Pat::Reference(r) => node("pref", l, &[("p", pat(&r.pat))]),
        Pat::Type(t) => node("ptype", l, &[("p", pat(&t.pat)), ("ty", ty(&t.ty))]),
        Pat::Or(o) => node("por", l, &[("ps", arr(o.cases.iter().map(pat)))]),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Lit(e) => node("plit", l, &[("e", lit(&e.lit, l))]),
        Pat::Range(r) => node("prange", l, &[("lo", opt(r.start.as_ref().map(|e| expr(e)))), ("hi", opt(r.end.as_ref().map(|e| expr(e)))), ("incl", matches!(r.limits, RangeLimits::Closed(_)).to_string())]),
        Pat::Slice(s) => node("pslice", l, &[("ps", arr(s.elems.iter().map(pat)))]),
        _ => node("unsupported", l, &[("src", toks(p))]),
    }
}
fn block(b: &Block) -> String { node("block", b.span().start().line, &[("ss", arr(b.stmts.iter().filter_map(stmt)))]) }
fn cfg_of(attrs: &[Attribute]) -> Option<String> {
    attrs.iter().find(|a| a.path().is_ident("cfg")).map(|a| match &a.meta { Meta::List(l) => l.tokens.to_string(), _ => String::new() })
}
fn stmt(s: &Stmt) -> Option<String> {
    let l = s.span().start().line;
    Some(match s {
        Stmt::Local(x) => {
            let (p, t) = match &x.pat { Pat::Type(pt) => (pat(&pt.pat), Some(ty(&pt.ty))), p => (pat(p), None) };
            node("let", l, &[("p", p), ("ty", opt(t)), ("e", opt(x.init.as_ref().map(|i| expr(&i.expr)))), ("else", opt(x.init.as_ref().and_then(|i| i.diverge.as_ref().map(|d| expr(&d.1)))))])
        }
        Stmt::Item(i) => { let mut v = vec![]; item(i, "", &mut v); node("items", l, &[("items", arr(v))]) }
        Stmt::Expr(e, semi) => node("expr", l, &[("e", expr(e)), ("semi", semi.is_some().to_string())]),
        Stmt::Macro(m) => node("expr", l, &[("e", mac(&m.mac, l)), ("semi", m.semi_token.is_some().to_string())]),
    })
}
fn mac(m: &Macro, l: usize) -> String {
    let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    let raw = q(&m.tokens.to_string());
    if name == "vec" {
        struct Rep(Expr, Expr);
        impl syn::parse::Parse for Rep {
            fn parse(i: syn::parse::ParseStream) -> Result<Self> { let a: Expr = i.parse()?; i.parse::<Token![;]>()?; let b: Expr = i.parse()?; Ok(Rep(a, b)) }
        }
        if let Ok(r) = m.parse_body::<Rep>() { return node("vecrep", l, &[("e", expr(&r.0)), ("n", expr(&r.1))]); }
        if let Ok(v) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) { return node("array", l, &[("es", arr(v.iter().map(expr)))]); }
    }
    if name == "matches" {
        struct M(Expr, Pat, Option<Expr>);
        impl syn::parse::Parse for M {
            fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                let a: Expr = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                let g = if i.parse::<Token![if]>().is_ok() { Some(i.parse()?) } else { None };
                let _ = i.parse::<Token![,]>();
                Ok(M(a, p, g))
            }
        }
        if let Ok(x) = m.parse_body::<M>() { return node("matches", l, &[("e", expr(&x.0)), ("p", pat(&x.1)), ("guard", opt(x.2.as_ref().map(expr)))]); }
    }
    let args = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).map(|v| arr(v.iter().map(expr))).unwrap_or("null".into());
    node("macro", l, &[("name", q(&name)), ("args", args), ("raw", raw)])
}
fn expr(e: &Expr) -> String {
    let l = e.span().start().line;
    match e {
        Expr::Lit(x) => lit(&x.lit, l),
        Expr::Path(p) => {
            if let Some(qs) = &p.qself { return node("qpath", l, &[("self", ty(&qs.ty)), ("path", path(&p.path))]); }
            node("path", l, &[("path", path(&p.path))])
        }
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Binary(b) => node("bin", l, &[("op", q(&b.op.to_token_stream().to_string())), ("a", expr(&b.left)), ("b", expr(&b.right))]),
        Expr::Unary(u) => node("un", l, &[("op", q(&u.op.to_token_stream().to_string())), ("e", expr(&u.expr))]),
        Expr::Assign(a) => node("assign", l, &[("a", expr(&a.left)), ("b", expr(&a.right))]),
        Expr::Call(c) => node("call", l, &[("f", expr(&c.func)), ("args", arr(c.args.iter().map(expr)))]),
        Expr::MethodCall(c) => node("mcall", l, &[("m", q(&c.method.to_string())), ("r", expr(&c.receiver)), ("args", arr(c.args.iter().map(expr))),
            ("tf", match &c.turbofish { Some(a) => arr(a.args.iter().filter_map(|x| match x { GenericArgument::Type(t) => Some(ty(t)), _ => None })), None => "[]".into() })]),
        Expr::Field(f) => node("field", l, &[("e", expr(&f.base)), ("f", q(&f.member.to_token_stream().to_string()))]),
        Expr::Index(i) => node("index", l, &[("e", expr(&i.expr)), ("i", expr(&i.index))]),
        Expr::Reference(r) => node("ref", l, &[("mut", r.mutability.is_some().to_string()), ("e", expr(&r.expr))]),
        Expr::Block(b) => block(&b.block),
        Expr::Unsafe(b) => node("unsupported", l, &[("src", toks(b))]),
        Expr::If(i) => node("if", l, &[("c", expr(&i.cond)), ("t", block(&i.then_branch)), ("e", opt(i.else_branch.as_ref().map(|x| expr(&x.1))))]),
        Expr::Let(x) => node("letc", l, &[("p", pat(&x.pat)), ("e", expr(&x.expr))]),
        Expr::Match(m) => node("match", l, &[("e", expr(&m.expr)), ("arms", arr(m.arms.iter().filter(|a| cfg_of(&a.attrs).is_none()).map(|a| node("arm", a.span().start().line, &[("p", pat(&a.pat)), ("guard", opt(a.guard.as_ref().map(|g| expr(&g.1)))), ("e", expr(&a.body))]))))]),
        Expr::Closure(c) => node("closure", l, &[("move", c.capture.is_some().to_string()), ("ps", arr(c.inputs.iter().map(pat))), ("e", expr(&c.body))]),
        Expr::ForLoop(f) => node("for", l, &[("label", opt(f.label.as_ref().map(|x| q(&x.name.ident.to_string())))), ("p", pat(&f.pat)), ("i", expr(&f.expr)), ("b", block(&f.body))]),
        Expr::While(w) => node("while", l, &[("label", opt(w.label.as_ref().map(|x| q(&x.name.ident.to_string())))), ("c", expr(&w.cond)), ("b", block(&w.body))]),
        Expr::Loop(w) => node("loop", l, &[("label", opt(w.label.as_ref().map(|x| q(&x.name.ident.to_string())))), ("b", block(&w.body))]),
        Expr::Return(r) => node("return", l, &[("e", opt(r.expr.as_ref().map(|x| expr(x))))]),
        Expr::Break(b) => node("break", l, &[("label", opt(b.label.as_ref().map(|x| q(&x.ident.to_string())))), ("e", opt(b.expr.as_ref().map(|x| expr(x))))]),
        Expr::Continue(b) => node("continue", l, &[("label", opt(b.label.as_ref().map(|x| q(&x.ident.to_string()))))]),
        Expr::Cast(c) => node("cast", l, &[("e", expr(&c.expr)), ("ty", ty(&c.ty))]),
        Expr::Range(r) => node("range", l, &[("lo", opt(r.start.as_ref().map(|x| expr(x)))), ("hi", opt(r.end.as_ref().map(|x| expr(x)))), ("incl", matches!(r.limits, RangeLimits::Closed(_)).to_string())]),
        Expr::Tuple(t) => node("tuple", l, &[("es", arr(t.elems.iter().map(expr)))]),
        Expr::Array(t) => node("array", l, &[("es", arr(t.elems.iter().map(expr)))]),
        Expr::Repeat(r) => node("vecrep", l, &[("e", expr(&r.expr)), ("n", expr(&r.len))]),
        Expr::Struct(s) => node("struct", l, &[("path", path(&s.path)), ("fs", arr(s.fields.iter().map(|f| format!("[{},{}]", q(&f.member.to_token_stream().to_string()), expr(&f.expr))))), ("rest", opt(s.rest.as_ref().map(|r| expr(r))))]),
        Expr::Try(t) => node("try", l, &[("e", expr(&t.expr))]),
        Expr::Macro(m) => mac(&m.mac, l),
        _ => node("unsupported", l, &[("src", toks(e))]),
    }
}
fn sig(s: &Signature) -> (String, String, String, String) {
    let params = arr(s.inputs.iter().map(|a| match a {
        FnArg::Receiver(r) => node("self", 0, &[("ref", r.reference.is_some().to_string()), ("mut", r.mutability.is_some().to_string())]),
        FnArg::Typed(t) => node("param", 0, &[("p", pat(&t.pat)), ("ty", ty(&t.ty))]),
    }));
    let ret = match &s.output { ReturnType::Default => "null".into(), ReturnType::Type(_, t) => ty(t) };
    let gens = arr(s.generics.params.iter().filter_map(|g| match g { GenericParam::Type(t) => Some(q(&t.ident.to_string())), _ => None }));
    (q(&s.ident.to_string()), params, ret, gens)
}
fn func(s: &Signature, b: Option<&Block>, ctx: &str, line: usize, src: String) -> String {
    let (n, p, r, g) = sig(s);
    format!("{{\"k\":\"fn\",\"l\":{line},\"name\":{n},\"params\":{p},\"ret\":{r},\"gens\":{g},\"ctx\":{ctx},\"body\":{},\"src\":{}}}", opt(b.map(block)), q(&src))
}
fn item(i: &Item, _m: &str, out: &mut Vec<String>) {
    match i {
        Item::Fn(f) => { if let Some(c) = cfg_of(&f.attrs) { if c.contains("test") { return; } } out.push(func(&f.sig, Some(&f.block), "null", f.span().start().line, f.block.to_token_stream().to_string())) }
        Item::Impl(im) => {
            if let Some(c) = cfg_of(&im.attrs) { if !c.starts_with("not") { return; } }
            let tr = opt(im.trait_.as_ref().map(|t| path(&t.1)));
            let ctx = format!("{{\"self\":{},\"trait\":{}}}", ty(&im.self_ty), tr);
            for x in &im.items {
                match x {
                    ImplItem::Fn(f) => out.push(func(&f.sig, Some(&f.block), &ctx, f.span().start().line, f.block.to_token_stream().to_string())),
                    ImplItem::Const(c) => out.push(format!("{{\"k\":\"const\",\"name\":{},\"ty\":{},\"e\":{},\"ctx\":{}}}", q(&c.ident.to_string()), ty(&c.ty), expr(&c.expr), ctx)),
                    _ => {}
                }
            }
        }
        Item::Trait(t) => {
            let ctx = format!("{{\"trait_def\":{}}}", q(&t.ident.to_string()));
            for x in &t.items { if let TraitItem::Fn(f) = x { out.push(func(&f.sig, f.default.as_ref(), &ctx, f.span().start().line, f.default.as_ref().map(|b| b.to_token_stream().to_string()).unwrap_or_default())) } }
        }
        Item::Const(c) => out.push(format!("{{\"k\":\"const\",\"name\":{},\"ty\":{},\"e\":{},\"ctx\":null}}", q(&c.ident.to_string()), ty(&c.ty), expr(&c.expr))),
        Item::Static(c) => out.push(format!("{{\"k\":\"const\",\"name\":{},\"ty\":{},\"e\":{},\"ctx\":null}}", q(&c.ident.to_string()), ty(&c.ty), expr(&c.expr))),
        Item::Struct(s) => {
            let fs = arr(s.fields.iter().enumerate().map(|(i, f)| format!("[{},{}]", q(&f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string())), ty(&f.ty))));
            let ders = s.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.meta.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
            out.push(format!("{{\"k\":\"structdef\",\"name\":{},\"fields\":{},\"derive\":{}}}", q(&s.ident.to_string()), fs, q(&ders)));
        }
        Item::Enum(e) => {
            let vs = arr(e.variants.iter().map(|v| format!("[{},{}]", q(&v.ident.to_string()), arr(v.fields.iter().enumerate().map(|(i, f)| format!("[{},{}]", q(&f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string())), ty(&f.ty)))))));
            let ders = e.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.meta.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
            out.push(format!("{{\"k\":\"enumdef\",\"name\":{},\"variants\":{},\"derive\":{}}}", q(&e.ident.to_string()), vs, q(&ders)));
        }
        Item::Use(u) => out.push(format!("{{\"k\":\"use\",\"src\":{}}}", toks(&u.tree))),
        Item::Mod(m) => {
            if let Some(c) = cfg_of(&m.attrs) { if c.contains("test") { return; } }
            if let Some((_, items)) = &m.content { for x in items { item(x, "", out); } }
        }
        Item::Macro(m) => out.push(format!("{{\"k\":\"macrodef\",\"name\":{}}}", q(&m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()))),
        Item::Type(t) => out.push(format!("{{\"k\":\"alias\",\"name\":{},\"ty\":{}}}", q(&t.ident.to_string()), ty(&t.ty))),
        _ => {}
    }
}
fn main() {
    let mut files = vec![];
    for f in std::env::args().skip(1) {
        let src = match std::fs::read_to_string(&f) { Ok(s) => s, Err(e) => { eprintln!("{f}: {e}"); continue; } };
        match syn::parse_file(&src) {
            Ok(file) => { let mut v = vec![]; for i in &file.items { item(i, "", &mut v); } files.push(format!("{}:{}", q(&f), arr(v))); }
            Err(e) => { eprintln!("{f}: {e}"); files.push(format!("{}:null", q(&f))); }
        }
    }
    println!("{{{}}}", files.join(",\n"));
}
