//! L01, L02, R01: losses, objectives, logger.
use crate::ensure;
use crate::gen::*;
use miniboosts::prelude::*;
use miniboosts::{LossFunction, SoftMarginObjective, HardMarginObjective, ExponentialLoss};
use miniboosts::research::*;

pub fn l01(r: &mut Rng, _c: u64) -> R {
    let n = r.range(1, 12);
    let k = r.below(4);
    let val = |r: &mut Rng| match k { 0 => r.below(5) as f64 - 2.0, 1 => r.f(-1.0, 1.0), 2 => r.f(-1e3, 1e3), _ => if r.chance(0.3) { 0.0 } else { r.f(-2.0, 2.0) } };
    let p: Vec<f64> = (0..n).map(|_| val(r)).collect();
    let y: Vec<f64> = (0..n).map(|_| val(r)).collect();
    for loss in [GBMLoss::L1, GBMLoss::L2] {
        let nm = loss.name().to_string();
        let pt = |p: f64, y: f64| if nm.starts_with("L1") { (p - y).abs() } else { (p - y) * (p - y) };
        let l1 = nm.starts_with("L1");
        let total: f64 = p.iter().zip(&y).map(|(p, y)| pt(*p, *y)).sum();
        for i in 0..n { let g = loss.eval_at_point(p[i], y[i]); ensure!("L01.pointwise", close(g, pt(p[i], y[i]), 1e-12, 0.0), "{nm} at ({}, {}) is {g}", p[i], y[i]); }
        let e = loss.eval(&p, &y);
        ensure!("L01.mean", close(e, total / n as f64, 1e-9, 1e-9), "{nm} of {p:?} against {y:?} is {e}, expected {}", total / n as f64);
        let g = loss.gradient(&p, &y); let h = loss.hessian(&p, &y);
        ensure!("L01.length", g.len() == n && h.len() == n, "{nm}: lengths {} {}", g.len(), h.len());
        for i in 0..n {
            if l1 {
                if p[i] == y[i] { ensure!("L01.gradient", g[i].abs() <= 1.0, "{nm} subgradient {} at the kink", g[i]); }
                else { ensure!("L01.gradient", g[i] == if p[i] > y[i] { 1.0 } else { -1.0 }, "{nm} gradient at ({}, {}) is {}", p[i], y[i], g[i]); }
                ensure!("L01.hessian", h[i] == 0.0, "{nm} hessian {}", h[i]);
            } else {
                // up to one constant positive factor shared by gradient and hessian
                ensure!("L01.hessian", h[i] > 0.0 && close(h[i], h[0], 1e-12, 0.0), "{nm} hessian {h:?}");
                ensure!("L01.gradient", close(g[i], h[i] * (p[i] - y[i]), 1e-12, 1e-12), "{nm} gradient at ({}, {}) is {} with hessian {}", p[i], y[i], g[i], h[i]);
            }
        }
        // best coefficient: residuals y along direction p
        let c = match catch(|| loss.best_coefficient(&y, &p)) { Ok(c) => c, Err(e) => return fail("L01.coefficient", format!("{nm} panicked with `{e}` on residuals {y:?} direction {p:?}")) };
        let tot = |c: f64| y.iter().zip(&p).map(|(y, p)| pt(*y, c * p)).sum::<f64>();
        let at = tot(c);
        let mut cands: Vec<f64> = y.iter().zip(&p).filter(|x| *x.1 != 0.0).map(|(y, p)| y / p).collect();
        let pp: f64 = p.iter().map(|x| x * x).sum();
        if pp > 0.0 { cands.push(y.iter().zip(&p).map(|(a, b)| a * b).sum::<f64>() / pp); }
        cands.push(0.0); cands.push(c + 0.01); cands.push(c - 0.01);
        ensure!("L01.coefficient", c.is_finite(), "{nm} coefficient {c} for residuals {y:?} direction {p:?}");
        for d in cands { ensure!("L01.coefficient", at <= tot(d) + 1e-9 * (1.0 + tot(d)), "{nm}: coefficient {c} has loss {at}, {d} has {} for residuals {y:?} direction {p:?}", tot(d)); }
        cover(&nm);
        if n > 2 { cover("several"); }
    }
    Ok(())
}

fn soft(m: &[f64], nu: f64) -> f64 {
    let mut m = m.to_vec(); m.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut left = 1.0; let mut v = 0.0;
    for x in m { let w = f64::min(left, 1.0 / nu); v += w * x; left -= w; }
    v
}
pub fn l02(r: &mut Rng, _c: u64) -> R {
    let n = r.range(2, 12);
    let t = table(r, n, 1);
    let smp = t.build(r.chance(0.3));
    let mut hs = hyps(r, n, 1);
    if r.chance(0.3) { hs[0] = Tab::new(0, (0..n).map(|_| r.f(-5.0, 5.0)).collect()); }
    let h = &hs[0];
    let m: Vec<f64> = (0..n).map(|i| t.y[i] * h.v[i]).collect();
    let mut nus = vec![1.0, n as f64, 1.0 + (n as f64 - 1.0) * r.u(), r.range(1, n) as f64, 1.0 + (n as f64 - 1.0) * r.u()];
    nus.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut prev = f64::NEG_INFINITY;
    let show = || format!("margins {m:?}");
    for nu in nus {
        let v = match catch(|| SoftMarginObjective::new(nu).eval(&smp, h)) { Ok(v) => v, Err(e) => return fail("L02.evaluates", format!("soft margin with nu {nu} panicked with `{e}`: {}", show())) };
        ensure!("L02.soft-margin", close(v, soft(&m, nu), 1e-9, 1.0), "soft margin with nu {nu} is {v}, expected {}: {}", soft(&m, nu), show());
        ensure!("L02.monotone", v >= prev - 1e-9, "soft margin drops from {prev} to {v} at nu {nu}: {}", show());
        prev = v;
        if nu > 1.0 && nu < n as f64 { cover("inner-nu"); }
    }
    let mean = m.iter().sum::<f64>() / n as f64;
    let min = m.iter().cloned().fold(f64::INFINITY, f64::min);
    let vn = SoftMarginObjective::new(n as f64).eval(&smp, h); let v1 = SoftMarginObjective::new(1.0).eval(&smp, h);
    ensure!("L02.ends", close(vn, mean, 1e-9, 1.0) && close(v1, min, 1e-9, 1.0), "nu=1 gives {v1} (minimum {min}), nu=n gives {vn} (mean {mean}): {}", show());
    let hm = HardMarginObjective::new().eval(&smp, h);
    ensure!("L02.hard-margin", close(hm, min, 1e-9, 1.0), "hard margin is {hm}, smallest margin {min}: {}", show());
    let e = ExponentialLoss::new().eval(&smp, h);
    let want = (0..n).map(|i| (-t.y[i] * if h.v[i] >= 0.0 { 1.0 } else { -1.0 } as f64).exp()).sum::<f64>() / n as f64;
    ensure!("L02.exponential", close(e, want, 1e-9, 1.0), "exponential loss {e}, expected {want}: confidences {:?} labels {:?}", h.v, t.y);
    cover("evaluated");
    Ok(())
}

/// An objective that is cheap to recompute and sensitive to members, weights and sample.
struct Probe;
impl ObjectiveFunction<WeightedMajority<Tab>> for Probe {
    fn name(&self) -> &str { "probe" }
    fn eval(&self, s: &Sample, h: &WeightedMajority<Tab>) -> f64 { (0..s.shape().0).map(|i| (i + 1) as f64 * h.confidence(s, i)).sum::<f64>() }
}
fn lossf(s: &Sample, h: &WeightedMajority<Tab>) -> f64 { s.target().iter().zip(h.predict_all(s)).map(|(t, p)| if *t != p as f64 { 1.0 } else { 0.0 }).sum::<f64>() / s.shape().0 as f64 }

pub fn r01(r: &mut Rng, _c: u64) -> R {
    let n = r.range(2, 7);
    let t = table(r, n, 1);
    let n2 = r.range(1, 6);
    let mut t2 = table(r, n2.max(2), 1);
    t2.y[0] = -t2.y[0];
    let (smp, smp2) = (t.dense(), t2.dense());
    let pool = hyps(r, n, r.clone().range(1, 4));
    let which = r.below(5);
    let limit = r.range(1, 12);
    let every = *r.pick(&[usize::MAX, 1, 3]);
    macro_rules! go { ($mk:expr) => {{
        // the direct run, and the hypothesis after every round
        let wl = Rec::new(pool.clone(), Policy::Best);
        let direct = catch(|| { let mut b = $mk; b.run(&wl) });
        let mut want: Vec<(f64, f64, f64)> = vec![];
        let stepped = catch(|| {
            let wl = Rec::new(pool.clone(), Policy::Best);
            let mut b = $mk; b.preprocess(&wl);
            for it in 1.. { let fl = b.boost(&wl, it); let h = b.current_hypothesis(); want.push((Probe.eval(&smp, &h), lossf(&smp, &h), lossf(&smp2, &h))); if fl.is_break() { break; } if it > 400 { break; } }
        });
        let path = scratch_file("csv");
        let p2 = path.clone();
        let logged = catch(|| {
            let wl = Rec::new(pool.clone(), Policy::Best);
            let b = $mk;
            let mut lg = LoggerBuilder::new().booster(b).weak_learner(wl).train_sample(&smp).test_sample(&smp2).objective_function(Probe).loss_function(lossf).print_every(every).build();
            lg.run(p2.to_str().unwrap()).unwrap()
        });
        let text = std::fs::read_to_string(&path).unwrap_or_default(); let _ = std::fs::remove_file(&path);
        (direct, stepped, logged, want, text)
    }} }
    let nu = 1.0 + (n as f64 - 1.0) * r.u();
    let (direct, stepped, logged, want, text) = {
        let _quiet = Quiet::new();
        match which {
            0 => go!({ let mut b = AdaBoost::init(&smp).tolerance(0.4); if limit % 2 == 0 { b = b.force_quit_at(limit); } b }),
            1 => go!(AdaBoostV::init(&smp).tolerance(0.5)),
            2 => go!(LPBoost::init(&smp).nu(nu).tolerance(0.05)),
            3 => go!(MadaBoost::init(&smp).tolerance(0.5)),
            _ => go!(SmoothBoost::init(&smp).tolerance(0.4).gamma(0.3)),
        }
    };
    let name = ["AdaBoost", "AdaBoostV", "LPBoost", "MadaBoost", "SmoothBoost"][which];
    let show = || format!("{name} limit {limit} nu {nu} on labels {:?} pool {:?}; test labels {:?}", t.y, pool.iter().map(|p| p.v.to_vec()).collect::<Vec<_>>(), t2.y);
    let (Ok(direct), Ok(())) = (direct, stepped) else { cover("skip-direct-run-panics"); return Ok(()); };
    let logged = match logged { Ok(l) => l, Err(e) => return fail("R01.runs", format!("the logged run panicked with `{e}`, the direct run does not: {}", show())) };
    ensure!("R01.same-result", direct.hypotheses == logged.hypotheses && direct.weights.len() == logged.weights.len() && direct.weights.iter().zip(&logged.weights).all(|(a, b)| a == b || (a.is_nan() && b.is_nan())), "direct weights {:?}, logged weights {:?}: {}", direct.weights, logged.weights, show());
    let mut lines = text.lines();
    ensure!("R01.header", lines.next() == Some("ObjectiveValue,TrainLoss,TestLoss,Time"), "header of {text:?}: {}", show());
    let rows: Vec<Vec<f64>> = lines.map(|l| l.split(',').map(|x| x.parse().unwrap_or(f64::NAN)).collect()).collect();
    ensure!("R01.one-row-per-round", rows.len() == want.len(), "{} rows for {} rounds: {}", rows.len(), want.len(), show());
    let mut lt = 0.0;
    for (i, (row, w)) in rows.iter().zip(&want).enumerate() {
        ensure!("R01.columns", row.len() == 4, "row {i} {row:?}: {}", show());
        ensure!("R01.objective", close(row[0], w.0, 1e-9, 1.0), "round {} objective {} expected {}: {}", i + 1, row[0], w.0, show());
        ensure!("R01.train-loss", close(row[1], w.1, 1e-12, 0.0), "round {} train loss {} expected {}: {}", i + 1, row[1], w.1, show());
        ensure!("R01.test-loss", close(row[2], w.2, 1e-12, 0.0), "round {} test loss {} expected {}: {}", i + 1, row[2], w.2, show());
        ensure!("R01.time", row[3] >= lt, "round {} time {} after {lt}", i + 1, row[3]); lt = row[3];
    }
    cover(name); if rows.len() > 1 { cover("several-rounds"); }
    Ok(())
}

/// Silence the standard output while the logger prints.
pub struct Quiet(i32);
mod sys { extern "C" { pub fn dup(fd: i32) -> i32; pub fn dup2(a: i32, b: i32) -> i32; pub fn close(fd: i32) -> i32; pub fn open(p: *const i8, f: i32, ...) -> i32; } }
impl Quiet { pub fn new() -> Self { use std::io::Write; let _ = std::io::stdout().flush(); unsafe { let s = sys::dup(1); let n = sys::open(b"/dev/null\0".as_ptr() as *const i8, 1); sys::dup2(n, 1); sys::close(n); Quiet(s) } } }
impl Drop for Quiet { fn drop(&mut self) { use std::io::Write; let _ = std::io::stdout().flush(); unsafe { sys::dup2(self.0, 1); sys::close(self.0); } } }
