//! Executable contracts of the boosters (A01-A13).
use crate::ensure;
use crate::gen::*;
use miniboosts::prelude::*;
use miniboosts::research::Research;
use std::ops::ControlFlow;

/// A trivial dataset carrying only labels.
pub fn label_sample(r: &mut Rng, n: usize) -> (Sample, Vec<f64>) {
    let y = labels(r, n);
    let cols = vec![(0..n).map(|i| i as f64).collect::<Vec<_>>()];
    let t = Table { n, d: 1, cols, present: vec![vec![true; n]], names: vec!["x".into()], y: y.clone() };
    (t.dense(), y)
}
fn margins(y: &[f64], h: &[f64]) -> Vec<f64> { y.iter().zip(h).map(|(y, h)| y * h).collect() }

/// Run a booster round by round (at most `cap` rounds); `each(booster, round, broke)` after every round.
pub fn drive<H, B: Booster<H>, W: WeakLearner<Hypothesis = H>>(b: &mut B, wl: &W, cap: usize, mut each: impl FnMut(&B, usize, bool) -> R) -> Result<(usize, bool, Result<B::Output, String>), Fail> {
    b.preprocess(wl);
    let mut t = 0; let mut broke = false;
    while t < cap {
        t += 1;
        broke = matches!(b.boost(wl, t), ControlFlow::Break(_));
        each(b, t, broke)?;
        if broke { break; }
    }
    let out = catch(|| b.postprocess(wl));
    Ok((t, broke, out))
}
/// an unrelated earlier run on the same booster (its traces must not reach the run under test)
fn earlier<T>(r: &mut Rng, mk: impl Fn(&mut Rng, usize) -> T) -> Option<(Vec<T>, usize)> {
    if !r.chance(0.3) { return None; }
    let k = r.range(1, 4);
    Some(((0..k).map(|i| mk(r, 1000 + i)).collect(), r.range(0, 4)))
}
fn warm<H: Clone, B: Booster<H>>(b: &mut B, e: Option<(Vec<H>, usize)>) where Rec<H>: WeakLearner<Hypothesis = H> {
    let Some((p, rounds)) = e else { return };
    cover("after-an-earlier-run");
    let w = Rec::new(p, Policy::Sequence);
    let _ = catch(|| {
        b.preprocess(&w);
        for t in 1..=rounds { if matches!(b.boost(&w, t), ControlFlow::Break(_)) { break; } }
        b.postprocess(&w);
    });
}
fn earlier_tab(r: &mut Rng, n: usize) -> Option<(Vec<Tab>, usize)> { earlier(r, |r, id| Tab::new(id, (0..n).map(|_| r.f(-1.0, 1.0)).collect())) }
/// the result of a run; a run that obtained no member at all may be refused
fn need<T>(out: Result<T, String>, members: usize, ctx: &str) -> Result<Option<T>, Fail> {
    match out {
        Ok(f) => Ok(Some(f)),
        Err(_) if members == 0 => { cover("skip-no-member"); Ok(None) }
        Err(m) => fail("no-panic", format!("{ctx}: {m}")),
    }
}
/// expected votes -> (member ids, normalised weights), zero votes dropped
fn vote(given: &[usize], a: &[f64]) -> (Vec<usize>, Vec<f64>) {
    let z: f64 = a.iter().map(|x| x.abs()).sum();
    let k: Vec<usize> = (0..a.len()).filter(|i| a[*i] != 0.0).collect();
    (k.iter().map(|i| given[*i]).collect(), k.iter().map(|i| a[*i] / z).collect())
}
fn same_vote(what: &str, f: &WeightedMajority<Tab>, given: &[usize], a: &[f64]) -> R {
    let (ids, w) = vote(given, a);
    let fid: Vec<usize> = f.hypotheses.iter().map(|h| h.id).collect();
    // a vote that is zero up to rounding may or may not be kept
    if a.iter().any(|x| *x != 0.0 && x.abs() < 1e-12) || fid.len() != ids.len() && a.iter().any(|x| x.abs() < 1e-9) { return Ok(()); }
    ensure!("vote-members", fid == ids, "{what}: members {fid:?}, expected {ids:?} (votes {a:?})");
    ensure!("vote-weights", close_vec(&f.weights, &w, 1e-9, 1e-3), "{what}: weights {:?}, expected {w:?}", f.weights);
    Ok(())
}
fn good_hyps(r: &mut Rng, y: &[f64], k: usize) -> Vec<Tab> {
    // tables that agree with the labels more often than not (so that edges are positive)
    (0..k).map(|id| {
        let kind = r.below(4); let p = r.f(0.5, 0.95);
        Tab::new(id, y.iter().map(|yi| { let s = if r.chance(p) { *yi } else { -*yi }; match kind { 0 | 1 => s, 2 => s * r.f(0.1, 1.0), _ => if r.chance(0.2) { 0.0 } else { s } } }).collect())
    }).collect()
}
fn pool(r: &mut Rng, y: &[f64]) -> Vec<Tab> {
    let k = r.range(1, 6);
    let mut p = if r.chance(0.5) { good_hyps(r, y, k) } else { hyps(r, y.len(), k) };
    if r.chance(0.1) { let i = r.below(k); p[i] = Tab::new(i, y.to_vec()); }
    if r.chance(0.05) { let i = r.below(k); p[i] = Tab::new(i, y.iter().map(|v| -v).collect()); }
    p
}
fn policy(r: &mut Rng) -> Policy { *r.pick(&[Policy::Sequence, Policy::Best, Policy::Mixed]) }

#[derive(Clone, Copy, PartialEq)]
enum Kind { Ada, AdaV, Mada }

/// A01 - A03: the exponential-weight boosters.
fn exp_booster(r: &mut Rng, kind: Kind) -> R {
    let n = *r.pick(&[2, 2, 3, 4, 5, 6, 8, 8, 9]);
    let (s, y) = label_sample(r, n);
    let p = pool(r, &y);
    let pol = policy(r);
    let custom = r.chance(0.5);
    let tol = if custom { r.f(0.15, 0.6) } else if kind == Kind::AdaV { 1.0 / n as f64 } else { 1.0 / (n as f64 + 1.0) };
    let fq = if r.chance(0.5) { Some(r.range(1, 25)) } else { None };
    let nf = n as f64;
    let exact = match kind { Kind::Ada => nf.ln() / tol.powi(2), Kind::AdaV => 2.0 * nf.ln() / tol.powi(2), Kind::Mada => (nf - 1.0) / tol.powi(2) };
    let ml = match kind { Kind::Mada => exact.ceil(), _ => exact.floor() } as usize;
    let near_int = (exact - exact.round()).abs() < 1e-9;
    let max = fq.unwrap_or(ml);
    if max == 0 || (fq.is_none() && near_int) { cover("skip-round-bound"); return Ok(()); }
    let wl = Rec::new(p.clone(), pol);
    let manual = r.chance(0.4);
    let mut snaps: Vec<(usize, bool, Vec<f64>, Vec<usize>)> = vec![];
    let ctx = format!("n={n} y={y:?} tol={tol} force_quit={fq:?} policy={pol:?} pool={:?}", p.iter().map(|h| h.v.to_vec()).collect::<Vec<_>>());
    let mut before = earlier_tab(r, n);
    macro_rules! go { ($t:ident) => {{
        let mut b = $t::init(&s);
        warm(&mut b, before.take());
        if custom { b = b.tolerance(tol); }
        if let Some(k) = fq { b = b.force_quit_at(k); }
        if !near_int { ensure!("round-bound", b.max_loop() == ml, "{ctx}: max_loop() = {}, expected {ml}", b.max_loop()); }
        if manual {
            drive(&mut b, &wl, 500, |b, t, broke| { if let Ok(f) = catch(|| b.current_hypothesis()) { snaps.push((t, broke, f.weights.clone(), f.hypotheses.iter().map(|h| h.id).collect())); } Ok(()) })?.2.unwrap_or_else(|m| panic!("{m}"))
        } else { b.run(&wl) }
    }} }
    let out = catch(|| -> Result<WeightedMajority<Tab>, Fail> { Ok(match kind { Kind::Ada => go!(AdaBoost), Kind::AdaV => go!(AdaBoostV), Kind::Mada => go!(MadaBoost) }) });
    let log = wl.log.borrow().clone(); let given = wl.given.borrow().clone();
    // replay against the definition
    let mut a: Vec<f64> = vec![]; let mut d = vec![1.0 / nf; n]; let mut lb = vec![0.0f64; n]; let mut gamma = 1.0f64; let mut stopped = None;
    for t in 0..log.len() {
        ensure!("distribution-length", log[t].len() == n, "{ctx}: round {} got {} entries", t + 1, log[t].len());
        ensure!("distribution", close_vec(&log[t], &d, 1e-8, 1e-6), "{ctx}: round {}: distribution {:?}, expected {d:?}", t + 1, log[t]);
        let sum: f64 = log[t].iter().sum();
        ensure!("distribution-sums-to-one", (sum - 1.0).abs() < 1e-9, "{ctx}: round {}: distribution sums to {sum}", t + 1);
        // continue from the recorded distribution
        d = log[t].clone();
        let m = margins(&y, &p[given[t]].v);
        let e: f64 = m.iter().zip(&d).map(|(a, b)| a * b).sum();
        if e.abs() >= 1.0 - 1e-9 {
            let exact = t == 0 && [2, 4, 8].contains(&n) && (e.abs() == 1.0);
            if exact {
                ensure!("perfect-member-stops", log.len() == 1, "{ctx}: a perfect first member did not end training ({} rounds)", log.len());
                stopped = Some(e.signum()); break;
            }
            cover("skip-ambiguous-edge"); return Ok(());
        }
        let alpha = match kind {
            Kind::Ada => 0.5 * ((1.0 + e) / (1.0 - e)).ln(),
            Kind::AdaV => {
                gamma = gamma.min(e);
                let rho = gamma - tol;
                if rho <= -1.0 + 1e-6 { cover("skip-rho"); return Ok(()); }
                0.5 * ((1.0 + e) / (1.0 - e)).ln() - 0.5 * ((1.0 + rho) / (1.0 - rho)).ln()
            }
            Kind::Mada => {
                let eps = (1.0 - e) / 2.0; let e2 = (eps / 2.0).sqrt();
                -(e2 / (1.0 - e2)).sqrt().ln()
            }
        };
        a.push(alpha);
        match kind {
            Kind::Mada => {
                for i in 0..n { lb[i] -= alpha * m[i]; }
                let w: Vec<f64> = lb.iter().map(|b| b.exp().min(1.0)).collect();
                let z: f64 = w.iter().sum();
                d = w.iter().map(|x| x / z).collect();
            }
            _ => {
                let w: Vec<f64> = d.iter().zip(&m).map(|(d, m)| d * (-alpha * m).exp()).collect();
                let z: f64 = w.iter().sum();
                if d.iter().any(|x| *x < 1e-290) { cover("skip-underflow"); return Ok(()); }
                d = w.iter().map(|x| x / z).collect();
            }
        }
    }
    let f = match out {
        Err(m) => {
            if a.iter().all(|x| x.abs() < 1e-12) && stopped.is_none() { cover("skip-no-vote"); return Ok(()); }
            return fail("no-panic", format!("{ctx}: after {} rounds: {m}", log.len()));
        }
        Ok(f) => f?,
    };
    if let Some(sg) = stopped {
        ensure!("perfect-member-alone", f.hypotheses.len() == 1 && f.hypotheses[0].id == given[0] && f.weights == vec![sg], "{ctx}: perfect member gives {:?}", f.weights);
        cover("perfect"); return Ok(());
    }
    let max = if manual { max.min(500) } else { max };
    ensure!("round-count", log.len() == max, "{ctx}: {} rounds, expected {max}", log.len());
    same_vote(&ctx, &f, &given, &a)?;
    for i in 0..n {
        let z: f64 = a.iter().map(|x| x.abs()).sum();
        let want: f64 = a.iter().zip(&given).map(|(a, k)| a / z * p[*k].v[i]).sum();
        ensure!("final-confidence", close(f.confidence(&s, i), want, 1e-8, 1.0), "{ctx}: row {i} confidence {}, expected {want}", f.confidence(&s, i));
    }
    for (t, broke, w, ids) in snaps {
        let k = t.min(a.len());
        let _ = broke;
        same_vote(&format!("{ctx} current hypothesis after round {t}"), &WeightedMajority { weights: w, hypotheses: ids.iter().map(|i| p[*i].clone()).collect() }, &given[..k], &a[..k])?;
        cover("current-hypothesis");
    }
    cover(if fq.is_some() { "force-quit" } else { "round-bound" });
    Ok(())
}
pub fn a01(r: &mut Rng, _c: u64) -> R { exp_booster(r, Kind::Ada) }
pub fn a02(r: &mut Rng, _c: u64) -> R { exp_booster(r, Kind::AdaV) }
pub fn a03(r: &mut Rng, _c: u64) -> R { exp_booster(r, Kind::Mada) }

pub fn a04(r: &mut Rng, _c: u64) -> R {
    let n = r.range(2, 9);
    let (s, y) = label_sample(r, n);
    let k = r.range(1, 8);
    let p = if r.chance(0.6) { good_hyps(r, &y, k) } else { hyps(r, n, k) };
    let pol = policy(r);
    let gamma = r.f(0.15, 0.49);
    let kappa = if r.chance(0.3) { 0.5 } else { r.f(0.05, 0.95) };
    let wl = Rec::new(p.clone(), pol);
    let ctx = format!("n={n} y={y:?} gamma={gamma} kappa={kappa} policy={pol:?} pool={:?}", p.iter().map(|h| h.v.to_vec()).collect::<Vec<_>>());
    let manual = r.chance(0.4);
    let mut b = SmoothBoost::init(&s).gamma(gamma);
    warm(&mut b, earlier_tab(r, n));
    if kappa != 0.5 { b = b.tolerance(kappa); }
    let mut snaps = vec![];
    let f = if manual {
        drive(&mut b, &wl, 2000, |b, t, broke| { if t < 40 || broke { let f = b.current_hypothesis(); snaps.push((t, broke, f)); } Ok(()) })?.2.unwrap_or_else(|m| panic!("{m}"))
    } else { b.run(&wl) };
    let log = wl.log.borrow().clone(); let given = wl.given.borrow().clone();
    let max = (2.0 / (kappa * gamma * gamma * (1.0 - gamma).sqrt())).ceil() as usize;
    let theta = gamma / (2.0 + gamma);
    let mut nn = vec![1.0f64; n]; let mut m = vec![1.0f64; n];
    let mut done = false;
    for t in 0..=log.len() {
        let sum: f64 = m.iter().sum();
        if (sum - kappa * n as f64).abs() < 1e-9 { cover("skip-ambiguous"); return Ok(()); }
        let stop = sum < kappa * n as f64;
        if t == log.len() { done = stop || t >= max || (manual && t >= 2000); break; }
        ensure!("stops-when-smooth", !stop, "{ctx}: round {} ran although the weights sum to {sum} < kappa n", t + 1);
        let d: Vec<f64> = m.iter().map(|x| x / sum).collect();
        ensure!("distribution", close_vec(&log[t], &d, 1e-8, 1e-6), "{ctx}: round {}: distribution {:?}, expected {d:?}", t + 1, log[t]);
        ensure!("smooth", log[t].iter().all(|x| *x <= 1.0 / (kappa * n as f64) + 1e-9), "{ctx}: round {}: {:?} exceeds 1/(kappa n)", t + 1, log[t]);
        let h = &p[given[t]];
        let mut amb = false;
        for i in 0..n {
            nn[i] += y[i] * h.v[i] - theta;
            if nn[i].abs() < 1e-9 { amb = true; }
            m[i] = if nn[i] <= 0.0 { 1.0 } else { (1.0 - gamma).powf(nn[i] / 2.0) };
        }
        if amb { cover("near-zero-n"); }
    }
    ensure!("round-count", done && log.len() <= max, "{ctx}: {} rounds, bound {max}, weights sum to {}", log.len(), m.iter().sum::<f64>());
    let uni = |k: usize| vec![1.0; k];
    ensure!("equal-weights", f.hypotheses.len() == given.len() && f.weights.iter().all(|w| close(*w, 1.0 / given.len() as f64, 1e-9, 1e-6)), "{ctx}: {} rounds but the result has {} members with weights {:?}", given.len(), f.hypotheses.len(), f.weights);
    same_vote(&ctx, &f, &given, &uni(given.len()))?;
    for (t, broke, f) in snaps {
        let k = if broke { given.len() } else { t };
        if k == 0 { continue; }
        same_vote(&format!("{ctx} current hypothesis after round {t}"), &f, &given[..k], &uni(k))?;
        cover("current-hypothesis");
    }
    cover(if given.len() > n { "more members than rows" } else { "few members" });
    Ok(())
}

pub fn a05(r: &mut Rng, _c: u64) -> R {
    let n = r.range(2, 9);
    let (s, y) = label_sample(r, n);
    let k = r.range(1, 7);
    let extra = r.range(1, 6);
    // tables defined on more rows than the training set has
    let p: Vec<Tab> = (0..k).map(|id| Tab::new(id, (0..n + extra).map(|_| *r.pick(&[1.0, -1.0, 0.3, -0.3, 0.0])).collect())).collect();
    let pol = *r.pick(&[Policy::Sequence, Policy::Best, Policy::Sequence]);
    let wl = Rec::new(p.clone(), pol);
    let ctx = format!("n={n} y={y:?} policy={pol:?} pool={:?}", p.iter().map(|h| h.v.to_vec()).collect::<Vec<_>>());
    let mut b = GraphSepBoost::init(&s);
    warm(&mut b, earlier_tab(r, n));
    let mut snaps = vec![];
    let manual = r.chance(0.4);
    let mut bits = vec![0u64; n];
    let big = { let mut t = Table { n: n + extra, d: 1, cols: vec![(0..n + extra).map(|i| i as f64).collect()], present: vec![vec![true; n + extra]], names: vec!["x".into()], y: vec![1.0; n + extra] }; t.y[0] = -1.0; t.dense() };
    let f = if manual { drive(&mut b, &wl, 500, |b, t, _| { snaps.push((t, b.current_hypothesis())); Ok(()) })?.2.unwrap_or_else(|m| panic!("{m}")) } else { b.run(&wl) };
    let _ = &mut bits;
    let log = wl.log.borrow().clone(); let given = wl.given.borrow().clone();
    let sgn = |k: usize, i: usize| p[k].v[i] >= 0.0;
    let mut alive: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).filter(|(i, j)| y[*i] != y[*j]).collect();
    let mut ended = false;
    for t in 0..log.len() {
        ensure!("training-ends", !ended && !alive.is_empty(), "{ctx}: round {} ran after training should have ended", t + 1);
        let d: Vec<f64> = (0..n).map(|i| alive.iter().filter(|(a, b)| *a == i || *b == i).count() as f64 / (2 * alive.len()) as f64).collect();
        ensure!("distribution", close_vec(&log[t], &d, 1e-12, 1e-9), "{ctx}: round {}: distribution {:?}, unseparated pairs give {d:?}", t + 1, log[t]);
        let before = alive.len();
        alive.retain(|(i, j)| sgn(given[t], *i) == sgn(given[t], *j));
        ended = alive.len() == before;
        if ended { cover("no-progress"); }
    }
    ensure!("training-ends", ended || alive.is_empty(), "{ctx}: training stopped after {} rounds with pairs {alive:?} left", log.len());
    let check = |f: &miniboosts::NaiveAggregation<Tab>, ms: &[usize], what: &str| -> R {
        let sig = |i: usize| ms.iter().map(|k| sgn(*k, i)).collect::<Vec<_>>();
        let pos: Vec<Vec<bool>> = (0..n).filter(|i| y[*i] > 0.0).map(sig).collect();
        for i in 0..n + extra {
            let want = if pos.contains(&sig(i)) { 1.0 } else { -1.0 };
            let got = f.confidence(&big, i);
            ensure!("pattern-rule", got == want && f.predict(&big, i) == want as i64, "{ctx} {what}: row {i} answers {got}, pattern rule gives {want}");
        }
        Ok(())
    };
    check(&f, &given, "result")?;
    for (t, f) in &snaps { let k = (*t).min(given.len()); check(f, &given[..k], &format!("current hypothesis after round {t}"))?; cover("current-hypothesis"); }
    if alive.is_empty() {
        for i in 0..n { ensure!("separated-is-correct", f.predict(&s, i) as f64 == y[i], "{ctx}: all pairs are separated but row {i} is answered {}", f.predict(&s, i)); }
        cover("separated");
    }
    Ok(())
}

// ---------------------------------------------------------------- capped boosters
/// The capped-simplex projection of exp(l): entries min(1/nu, c*exp(l)).
pub fn capped_exp(nu: f64, l: &[f64]) -> Vec<f64> {
    let ub = 1.0 / nu;
    let mx = l.iter().fold(f64::NEG_INFINITY, |a, b| a.max(*b));
    let total = |c: f64| l.iter().map(|x| (c + x - mx).exp().min(ub)).sum::<f64>();
    let (mut lo, mut hi) = (-800.0, 800.0 + 2.0 * (mx - l.iter().fold(f64::INFINITY, |a, b| a.min(*b))));
    for _ in 0..300 { let mid = (lo + hi) / 2.0; if total(mid) < 1.0 { lo = mid } else { hi = mid } }
    l.iter().map(|x| (hi + x - mx).exp().min(ub)).collect()
}
/// smallest average margin over distributions capped at 1/nu
pub fn soft_margin(nu: f64, m: &[f64]) -> f64 {
    let mut v = m.to_vec(); v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut left = 1.0; let mut out = 0.0;
    for x in v { let w = (1.0 / nu).min(left); out += w * x; left -= w; if left <= 0.0 { break; } }
    out
}
pub fn wmargins(y: &[f64], p: &[Tab], ids: &[usize], w: &[f64]) -> Vec<f64> {
    (0..y.len()).map(|i| y[i] * ids.iter().zip(w).map(|(k, w)| w * p[*k].v[i]).sum::<f64>()).collect()
}
/// smoothed soft margin: min over the capped simplex of edge + KL(d||uniform)/eta
pub fn smooth_margin(nu: f64, eta: f64, m: &[f64]) -> f64 {
    let d = capped_exp(nu, &m.iter().map(|x| -eta * x).collect::<Vec<_>>());
    let n = m.len() as f64;
    let kl: f64 = d.iter().map(|x| if *x > 0.0 { x * x.ln() } else { 0.0 }).sum::<f64>() + n.ln();
    d.iter().zip(m).map(|(a, b)| a * b).sum::<f64>() + kl / eta
}
fn in_capped(what: &str, d: &[f64], nu: f64, tol: f64) -> R {
    let s: f64 = d.iter().sum();
    ensure!("distribution-sums-to-one", (s - 1.0).abs() <= tol, "{what}: {d:?} sums to {s}");
    ensure!("distribution-nonnegative", d.iter().all(|x| *x >= -tol), "{what}: negative entry in {d:?}");
    ensure!("distribution-capped", d.iter().all(|x| *x <= 1.0 / nu + tol), "{what}: entry above 1/nu = {} in {d:?}", 1.0 / nu);
    Ok(())
}
fn in_simplex(what: &str, w: &[f64], tol: f64) -> R {
    let s: f64 = w.iter().sum();
    ensure!("weights-in-simplex", (s - 1.0).abs() <= tol && w.iter().all(|x| *x >= -tol), "{what}: weights {w:?} (sum {s})");
    Ok(())
}
fn pick_nu(r: &mut Rng, n: usize) -> f64 {
    match r.below(6) { 0 => 1.0, 1 => n as f64, 2 => r.range(1, n) as f64, 3 => (n as f64 * 0.5).max(1.0), _ => r.f(1.0, n as f64) }
}
fn ids_of(f: &WeightedMajority<Tab>) -> Vec<usize> { f.hypotheses.iter().map(|h| h.id).collect() }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fw { Classic, Short, Line, Pair }
fn fwt(f: Fw) -> FWType { match f { Fw::Classic => FWType::Classic, Fw::Short => FWType::ShortStep, Fw::Line => FWType::LineSearch, Fw::Pair => FWType::BlendedPairwise } }

#[derive(Clone)]
struct Case { n: usize, y: Vec<f64>, p: Vec<Tab>, pol: Policy, nu: f64, tol: f64, ctx: String }
fn case(r: &mut Rng, maxn: usize, tols: (f64, f64)) -> (Sample, Case) {
    let n = r.range(2, maxn);
    let (s, y) = label_sample(r, n);
    let k = r.range(1, 6);
    let mut p = if r.chance(0.75) { good_hyps(r, &y, k) } else { hyps(r, n, k) };
    if k >= 2 && r.chance(0.2) { let v = p[0].v.clone(); p[1] = Tab { id: 1, v }; }
    let pol = policy(r);
    let nu = pick_nu(r, n);
    let tol = r.f(tols.0, tols.1);
    let ctx = format!("n={n} y={y:?} nu={nu} tol={tol} policy={pol:?} pool={:?}", p.iter().map(|h| h.v.to_vec()).collect::<Vec<_>>());
    (s, Case { n, y, p, pol, nu, tol, ctx })
}
/// ids and weights of the combination current after every round
type Snap = (usize, bool, Vec<usize>, Vec<f64>);
fn snap_of<B: Research<Output = WeightedMajority<Tab>>>(b: &B, t: usize, broke: bool, snaps: &mut Vec<Snap>) {
    match catch(|| b.current_hypothesis()) { Ok(f) => snaps.push((t, broke, ids_of(&f), f.weights.clone())), Err(_) => snaps.push((t, broke, vec![], vec![])) }
}
fn monotone(what: &str, m: &[f64], d: &[f64]) -> R {
    for i in 0..m.len() { for j in 0..m.len() {
        ensure!("smaller-margin-not-less-weight", !(m[i] < m[j] - 1e-9) || d[i] >= d[j] - 1e-9, "{what}: rows {i},{j} margins {},{} weights {},{}", m[i], m[j], d[i], d[j]);
    } }
    Ok(())
}

pub fn a06(r: &mut Rng, c: u64) -> R {
    let (s, k) = case(r, 9, (0.02, 0.8));
    let fw = *r.pick(&[Fw::Classic, Fw::Short, Fw::Line, Fw::Pair]);
    let wl = Rec::new(k.p.clone(), k.pol);
    let mut snaps: Vec<Snap> = vec![];
    let eta = (k.n as f64 / k.nu).ln() / (k.tol / 2.0);
    let ctx = format!("{} {fw:?} {}", if c % 2 == 0 { "CERLPBoost" } else { "MLPBoost" }, k.ctx);
    if c % 2 == 0 {
        let mut b = match r.below(3) { 0 => CERLPBoost::init(&s).tolerance(k.tol).nu(k.nu).fw_type(fwt(fw)), 1 => CERLPBoost::init(&s).nu(k.nu).tolerance(k.tol).fw_type(fwt(fw)), _ => CERLPBoost::init(&s).fw_type(fwt(fw)).nu(k.nu).tolerance(k.tol) };
        warm(&mut b, earlier_tab(r, k.n));
        drive(&mut b, &wl, 25, |b, t, br| { snap_of(b, t, br, &mut snaps); Ok(()) })?;
    } else {
        let mut b = match r.below(3) { 0 => MLPBoost::init(&s).tolerance(k.tol).nu(k.nu).frank_wolfe(fwt(fw)), 1 => MLPBoost::init(&s).nu(k.nu).tolerance(k.tol).frank_wolfe(fwt(fw)), _ => MLPBoost::init(&s).frank_wolfe(fwt(fw)).nu(k.nu).tolerance(k.tol) };
        warm(&mut b, earlier_tab(r, k.n));
        drive(&mut b, &wl, 12, |b, t, br| { snap_of(b, t, br, &mut snaps); Ok(()) })?;
    }
    let log = wl.log.borrow();
    for t in 0..log.len() {
        let m = if t == 0 { vec![0.0; k.n] } else { wmargins(&k.y, &k.p, &snaps[t - 1].2, &snaps[t - 1].3) };
        let want = capped_exp(k.nu, &m.iter().map(|x| -eta * x).collect::<Vec<_>>());
        in_capped(&format!("{ctx} round {}", t + 1), &log[t], k.nu, 1e-9)?;
        ensure!("capped-exponential", log[t].iter().zip(&want).all(|(a, b)| (a - b).abs() <= 1e-7), "{ctx}: round {}: distribution {:?}, projection of exp(-eta margins) is {want:?}", t + 1, log[t]);
        for i in 0..k.n { // ratios of uncapped entries
            ensure!("exponential-ratio", want[i] > (1.0 / k.nu) * (1.0 - 1e-9) || want[i] < 1e-12 || close(log[t][i], want[i], 1e-6, 0.0), "{ctx}: round {}: entry {i} is {:e}, expected {:e}", t + 1, log[t][i], want[i]);
        }
        monotone(&format!("{ctx} round {}", t + 1), &m, &log[t])?;
        if log[t].iter().any(|x| *x >= 1.0 / k.nu * (1.0 - 1e-12)) && k.nu > 1.0 { cover("capped-entry"); } else { cover("uncapped"); }
    }
    if k.nu == k.n as f64 { cover("nu=n"); }
    Ok(())
}

/// optimum of the capped soft-margin program over the given members, with a certificate
pub fn lp_opt(y: &[f64], p: &[Tab], ids: &[usize], nu: f64) -> Option<f64> {
    use clarabel::{algebra::*, solver::*};
    // variables: w_1..w_T, rho, xi_1..xi_n ; maximise rho - (1/nu) sum xi
    let (n, t) = (y.len(), ids.len());
    let nv = t + 1 + n;
    let rows = 1 + t + n + n;
    let mut colptr = vec![]; let mut ri = vec![]; let mut nz: Vec<f64> = vec![];
    for (j, id) in ids.iter().enumerate() {
        colptr.push(ri.len());
        ri.push(0); nz.push(1.0);
        ri.push(1 + j); nz.push(-1.0);
        for i in 0..n { ri.push(1 + t + n + i); nz.push(-y[i] * p[*id].v[i]); }
    }
    colptr.push(ri.len()); for i in 0..n { ri.push(1 + t + n + i); nz.push(1.0); }
    for i in 0..n { colptr.push(ri.len()); ri.push(1 + t + i); nz.push(-1.0); ri.push(1 + t + n + i); nz.push(-1.0); }
    colptr.push(ri.len());
    let a = CscMatrix::new(rows, nv, colptr, ri, nz);
    let mut b = vec![0.0; rows]; b[0] = 1.0;
    let mut q = vec![0.0; nv]; q[t] = -1.0; for i in 0..n { q[t + 1 + i] = 1.0 / nu; }
    let cones = [ZeroConeT(1), NonnegativeConeT(t + n + n)];
    let settings = DefaultSettingsBuilder::default().verbose(false).build().unwrap();
    let mut sv = DefaultSolver::new(&CscMatrix::zeros((nv, nv)), &q, &a, &b, &cones, settings);
    sv.solve();
    // certificate: the primal value of the normalised weights against the largest edge of the dual distribution
    let mut w: Vec<f64> = sv.solution.x[..t].iter().map(|x| x.max(0.0)).collect();
    let z: f64 = w.iter().sum(); w.iter_mut().for_each(|x| *x /= z);
    let low = soft_margin(nu, &wmargins(y, p, ids, &w));
    let mut d: Vec<f64> = sv.solution.z[1 + t + n..].iter().map(|x| x.max(0.0)).collect();
    let z: f64 = d.iter().sum(); d.iter_mut().for_each(|x| *x /= z);
    let up = ids.iter().map(|k| edge(&d, y, &p[*k].v)).fold(f64::NEG_INFINITY, f64::max);
    let over = d.iter().map(|x| (x - 1.0 / nu).max(0.0)).sum::<f64>();
    if (up - low).abs() + over < 1e-6 { Some(low) } else { None }
}

pub fn a07(r: &mut Rng, c: u64) -> R {
    let (s, mut k) = case(r, 8, (0.05, 0.5));
    let total = c % 3 == 0;
    if total { k.nu = 1.0; }
    let wl = Rec::new(k.p.clone(), k.pol);
    let mut snaps: Vec<Snap> = vec![];
    let ctx = format!("{} {}", if total { "TotalBoost" } else { "SoftBoost" }, k.ctx);
    let max = (2.0 * (k.n as f64 / k.nu).ln() / (k.tol * k.tol)).ceil().max(1.0) as usize;
    let (rounds, broke, f) = if total {
        let mut b = TotalBoost::init(&s).tolerance(k.tol);
        warm(&mut b, earlier_tab(r, k.n));
        drive(&mut b, &wl, 30, |b, t, br| { if t < 6 { snap_of(b, t, br, &mut snaps); } Ok(()) })?
    } else {
        let mut b = if r.chance(0.5) { SoftBoost::init(&s).tolerance(k.tol).nu(k.nu) } else { SoftBoost::init(&s).nu(k.nu).tolerance(k.tol) };
        warm(&mut b, earlier_tab(r, k.n));
        drive(&mut b, &wl, 30, |b, t, br| { if t < 6 { snap_of(b, t, br, &mut snaps); } Ok(()) })?
    };
    let log = wl.log.borrow(); let given = wl.given.borrow();
    let Some(f) = need(f, given.len(), &ctx)? else { return Ok(()); };
    ensure!("round-bound", log.len() <= max, "{ctx}: {} rounds, bound {max}", log.len());
    let mut ghat = 1.0f64;
    for t in 0..log.len() {
        let what = format!("{ctx} round {}", t + 1);
        if t == 0 { ensure!("starts-uniform", log[0].iter().all(|x| close(*x, 1.0 / k.n as f64, 1e-12, 0.0)), "{what}: {:?}", log[0]); }
        in_capped(&what, &log[t], if t == 0 { 1.0 } else { k.nu }, 1e-5)?;
        for j in 0..t {
            let e = edge(&log[t], &k.y, &k.p[given[j]].v);
            ensure!("past-edges", e <= ghat + 1e-5, "{what}: member {j} has edge {e} under {:?}, smallest edge seen {ghat}", log[t]);
            cover("past-edge");
        }
        ghat = ghat.min(edge(&log[t], &k.y, &k.p[given[t]].v));
    }
    if !broke && rounds < 30 { return fail("round-count", format!("{ctx}: stopped after {rounds} rounds without a reason")); }
    let opt_check = |what: &str, ids: &[usize], w: &[f64], members: &[usize]| -> R {
        in_simplex(what, w, 1e-5)?;
        let sm = soft_margin(k.nu, &wmargins(&k.y, &k.p, ids, w));
        if let Some(o) = lp_opt(&k.y, &k.p, members, k.nu) {
            ensure!("weights-optimal", sm >= o - 1e-4, "{what}: weights {w:?} of members {ids:?} have soft margin {sm}, best is {o}");
            cover("weights-optimal");
        }
        Ok(())
    };
    opt_check(&ctx, &ids_of(&f), &f.weights, &given[..])?;
    for (t, _, ids, w) in &snaps { if !ids.is_empty() { opt_check(&format!("{ctx} after round {t}"), ids, w, &given[..(*t).min(given.len())])?; } }
    cover(if broke { "terminated" } else { "capped-run" });
    Ok(())
}

pub fn a08(r: &mut Rng, _c: u64) -> R {
    let (s, k) = case(r, 9, (0.01, 0.5));
    let wl = Rec::new(k.p.clone(), k.pol);
    let mut snaps: Vec<Snap> = vec![];
    let ctx = format!("LPBoost {}", k.ctx);
    let mut b = if r.chance(0.5) { LPBoost::init(&s).tolerance(k.tol).nu(k.nu) } else { LPBoost::init(&s).nu(k.nu).tolerance(k.tol) };
    warm(&mut b, earlier_tab(r, k.n));
    let (rounds, broke, f) = drive(&mut b, &wl, 25, |b, t, br| { snap_of(b, t, br, &mut snaps); Ok(()) })?;
    let log = wl.log.borrow(); let given = wl.given.borrow();
    ensure!("starts-uniform", log[0].iter().all(|x| close(*x, 1.0 / k.n as f64, 1e-12, 0.0)), "{ctx}: {:?}", log[0]);
    let mut ghat = 1.0f64;
    for t in 1..=log.len() {
        let what = format!("{ctx} after round {t}");
        ghat = ghat.min(edge(&log[t - 1], &k.y, &k.p[given[t - 1]].v));
        let (_, br, ids, w) = &snaps[t - 1];
        in_simplex(&what, w, 1e-6)?;
        let sm = soft_margin(k.nu, &wmargins(&k.y, &k.p, ids, w));
        let opt = match lp_opt(&k.y, &k.p, &given[..t], k.nu) { Some(o) => o, None => { cover("skip-no-certificate"); return Ok(()); } };
        ensure!("weights-optimal", sm >= opt - 1e-5, "{what}: weights {w:?} have soft margin {sm}, best is {opt}");
        if t < log.len() {
            in_capped(&what, &log[t], k.nu, 1e-6)?;
            let me = given[..t].iter().map(|j| edge(&log[t], &k.y, &k.p[*j].v)).fold(f64::NEG_INFINITY, f64::max);
            ensure!("distribution-optimal", me <= opt + 1e-5, "{what}: distribution {:?} has largest edge {me}, smallest possible is {opt}", log[t]);
            ensure!("values-agree", (me - sm).abs() <= 2e-5, "{what}: largest edge {me}, soft margin {sm}");
            cover("both-optimal");
        }
        let gap = opt - (ghat - k.tol);
        if gap.abs() > 1e-5 {
            ensure!("termination", *br == (gap > 0.0), "{what}: optimum {opt}, smallest edge {ghat}, tolerance {}: {}", k.tol, if *br { "stopped early" } else { "did not stop" });
            cover(if *br { "terminated" } else { "continued" });
        } else { return Ok(()); }
    }
    let _ = rounds;
    let Some(f) = need(f, given.len(), &ctx)? else { return Ok(()); };
    if broke {
        in_simplex(&ctx, &f.weights, 1e-6)?;
        let last = snaps.last().unwrap();
        ensure!("result-is-last", ids_of(&f) == last.2 && close_vec(&f.weights, &last.3, 1e-9, 1e-6), "{ctx}: the result differs from the weights after the last round");
    }
    Ok(())
}

pub fn a09(r: &mut Rng, _c: u64) -> R {
    let (s, k) = case(r, 9, (0.05, 0.9));
    let wl = Rec::new(k.p.clone(), k.pol);
    let mut snaps: Vec<Snap> = vec![];
    let ctx = format!("ERLPBoost {}", k.ctx);
    let ht = k.tol / 2.0;
    let mut b = if r.chance(0.5) { ERLPBoost::init(&s).tolerance(k.tol).nu(k.nu) } else { ERLPBoost::init(&s).nu(k.nu).tolerance(k.tol) };
    warm(&mut b, earlier_tab(r, k.n));
    let nf = k.n as f64;
    let eta = 0.5f64.max((nf / k.nu).ln() / ht);
    let (_rounds, _broke, f) = drive(&mut b, &wl, 25, |b, t, br| { if !br { snap_of(b, t, br, &mut snaps); } else { snaps.push((t, br, vec![], vec![])); } Ok(()) })?;
    let log = wl.log.borrow(); let given = wl.given.borrow();
    let kl = |d: &[f64]| d.iter().map(|x| if *x > 0.0 { x * x.ln() } else { 0.0 }).sum::<f64>() + nf.ln();
    ensure!("starts-uniform", log[0].iter().all(|x| close(*x, 1.0 / nf, 1e-12, 0.0)), "{ctx}: {:?}", log[0]);
    let max = (4.0 / ht).max(8.0 * (nf / k.nu).ln() / (ht * ht)).ceil() as usize;
    ensure!("round-bound", log.len() <= max, "{ctx}: {} rounds, bound {max}", log.len());
    let Some(f) = need(f, given.len() - if _broke { 1 } else { 0 }, &ctx)? else { return Ok(()); };
    ensure!("result-members", ids_of(&f).iter().all(|i| given.contains(i)), "{ctx}: unknown members");
    let mut ghat = 1.0f64; let mut gstar = -1.0f64;
    for t in 1..=log.len() {
        let what = format!("{ctx} round {t}");
        let d = &log[t - 1];
        ghat = ghat.min(edge(d, &k.y, &k.p[given[t - 1]].v) + kl(d) / eta);
        let gap = ghat - gstar;
        let br = snaps[t - 1].1;
        if (gap - ht).abs() < 1e-5 { cover("skip-ambiguous"); return Ok(()); }
        ensure!("termination", br == (gap <= ht), "{what}: best regularised edge {ghat}, attained {gstar}, half tolerance {ht}: {}", if br { "stopped early" } else { "did not stop" });
        if br { cover("terminated"); break; }
        if t < log.len() {
            let d = &log[t];
            in_capped(&what, d, k.nu, 1e-5)?;
            let val = given[..t].iter().map(|j| edge(d, &k.y, &k.p[*j].v)).fold(f64::NEG_INFINITY, f64::max) + kl(d) / eta;
            gstar = val;
            let (_, _, ids, w) = &snaps[t - 1];
            in_simplex(&what, w, 1e-4)?;
            // weak duality: any weight vector in the simplex bounds the optimum from below
            let low = smooth_margin(k.nu, eta, &wmargins(&k.y, &k.p, ids, w));
            ensure!("distribution-optimal", val <= low + k.tol * 0.5 + 1e-4, "{what}: distribution {d:?} has regularised value {val}, the optimum is at least {low} and close to it");
            cover("optimal");
        }
    }
    Ok(())
}

/// the primary Frank-Wolfe step by definition; None when not determined
fn fw_step(fw: Fw, t: usize, c: &Case, eta: f64, dist: &[f64], w: &[f64], members: &[usize], pos: usize) -> Option<Vec<f64>> {
    let kk = members.len();
    let along = |s: f64| (0..kk).map(|j| if j == pos { w[j] + s * (1.0 - w[j]) } else { w[j] * (1.0 - s) }).collect::<Vec<_>>();
    match fw {
        Fw::Classic => Some(along(2.0 / (t as f64 + 1.0))),
        Fw::Short => {
            if kk == 1 { return Some(vec![1.0]); }
            let old = wmargins(&c.y, &c.p, members, w);
            let new = margins(&c.y, &c.p[members[pos]].v);
            let num: f64 = (0..c.n).map(|i| dist[i] * (new[i] - old[i])).sum();
            let m = (0..c.n).map(|i| (new[i] - old[i]).abs()).fold(0.0, f64::max);
            if m == 0.0 { return None; }
            Some(along((num / (eta * m * m)).clamp(0.0, 1.0)))
        }
        _ => None,
    }
}
fn by_members(members: &[usize], ids: &[usize], w: &[f64]) -> Vec<f64> {
    members.iter().map(|m| ids.iter().position(|i| i == m).map(|q| w[q]).unwrap_or(0.0)).collect()
}

pub fn a10(r: &mut Rng, _c: u64) -> R {
    let (s, k) = case(r, 8, (0.02, 0.8));
    let fw = *r.pick(&[Fw::Classic, Fw::Short, Fw::Line, Fw::Pair]);
    let wl = Rec::new(k.p.clone(), k.pol);
    let mut snaps: Vec<Snap> = vec![];
    let eta = (k.n as f64 / k.nu).ln() / (k.tol / 2.0);
    if eta < 1e-6 { cover("skip-eta-zero"); }
    let ctx = format!("CERLPBoost {fw:?} {}", k.ctx);
    let mut b = if r.chance(0.5) { CERLPBoost::init(&s).tolerance(k.tol).nu(k.nu) } else { CERLPBoost::init(&s).nu(k.nu).tolerance(k.tol) };
    warm(&mut b, earlier_tab(r, k.n));
    b = if r.chance(0.5) { b.fw_type(fwt(fw)) } else { b.variant(fwt(fw)) };
    let (_, broke, f) = drive(&mut b, &wl, 25, |b, t, br| { snap_of(b, t, br, &mut snaps); Ok(()) })?;
    let log = wl.log.borrow(); let given = wl.given.borrow();
    let mut members: Vec<usize> = vec![]; let mut w: Vec<f64> = vec![];
    for t in 1..=log.len() {
        let what = format!("{ctx} round {t}");
        let d = &log[t - 1];
        let h = given[t - 1];
        let old = wmargins(&k.y, &k.p, &members, &w);
        let new_edge = edge(d, &k.y, &k.p[h].v);
        let old_edge: f64 = d.iter().zip(&old).map(|(a, b)| a * b).sum();
        let (_, br, ids, ws) = &snaps[t - 1];
        let gap = new_edge - old_edge - k.tol / 2.0;
        if gap.abs() < 1e-7 { cover("skip-ambiguous"); return Ok(()); }
        ensure!("termination", *br == (gap <= 0.0), "{what}: edge {new_edge} against {old_edge}: {}", if *br { "stopped" } else { "did not stop" });
        if *br { cover("terminated"); break; }
        let pos = match members.iter().position(|m| *m == h) { Some(p) => { cover("repeated-member"); p }, None => { members.push(h); w.push(0.0); members.len() - 1 } };
        let w2 = by_members(&members, ids, ws);
        ensure!("members-known", ids.iter().all(|i| members.contains(i)), "{what}: members {ids:?}, obtained {members:?}");
        in_simplex(&what, &w2, 1e-9)?;
        if let Some(want) = fw_step(fw, t, &k, eta, d, &w, &members, pos) {
            ensure!("step-rule", close_vec(&w2, &want, 1e-7, 1e-2), "{what}: weights {w:?} became {w2:?}, the step rule gives {want:?} (member {pos})");
            cover("step-rule");
        }
        if matches!(fw, Fw::Line | Fw::Pair) && eta > 1e-6 {
            let obj = |w: &[f64]| smooth_margin(k.nu, eta, &wmargins(&k.y, &k.p, &members, w));
            let before = if t == 1 { f64::NEG_INFINITY } else { obj(&w) };
            let after = obj(&w2);
            ensure!("objective-not-lost", after >= before - 1e-6, "{what}: weights {w:?} -> {w2:?}: objective fell from {before} to {after}");
            if fw == Fw::Line && w[pos] < 1.0 {
                let along = |s: f64| (0..members.len()).map(|j| if j == pos { w[j] + s * (1.0 - w[j]) } else { w[j] * (1.0 - s) }).collect::<Vec<_>>();
                let sg = (w2[pos] - w[pos]) / (1.0 - w[pos]);
                if t > 1 { ensure!("line-search-on-segment", (-1e-9..=1.0 + 1e-9).contains(&sg) && close_vec(&along(sg), &w2, 1e-7, 1e-2), "{what}: {w2:?} is not on the segment from {w:?} to member {pos}"); }
                if t > 1 { for q in 0..=20 { let v = obj(&along(q as f64 / 20.0)); ensure!("line-search-best", after >= v - 1e-6, "{what}: step {sg} gives {after}, step {} gives {v}", q as f64 / 20.0); } }
                cover("line-search");
            }
            cover("objective");
        }
        w = w2;
    }
    let Some(f) = need(f, members.len(), &ctx)? else { return Ok(()); };
    if broke {
        ensure!("result-is-current", close_vec(&by_members(&members, &ids_of(&f), &f.weights), &w, 1e-9, 1e-6), "{ctx}: the result {:?} differs from the final weights {w:?}", f.weights);
    }
    Ok(())
}

pub fn a11(r: &mut Rng, _c: u64) -> R {
    let (s, k) = case(r, 8, (0.0005, 0.3));
    if k.nu > k.n as f64 * 0.999 { cover("skip-nu=n"); return Ok(()); }
    let fw = *r.pick(&[Fw::Classic, Fw::Short, Fw::Line, Fw::Pair]);
    let wl = Rec::new(k.p.clone(), k.pol);
    let mut snaps: Vec<Snap> = vec![];
    let ht = k.tol / 2.0;
    let ln = (k.n as f64 / k.nu).ln();
    let eta = ln / ht;
    let ctx = format!("MLPBoost {fw:?} {}", k.ctx);
    let mut b = match r.below(3) { 0 => MLPBoost::init(&s).tolerance(k.tol).nu(k.nu).frank_wolfe(fwt(fw)), 1 => MLPBoost::init(&s).nu(k.nu).tolerance(k.tol).frank_wolfe(fwt(fw)), _ => MLPBoost::init(&s).frank_wolfe(fwt(fw)).nu(k.nu).tolerance(k.tol) };
    warm(&mut b, earlier_tab(r, k.n));
    let max = (8.0 * ln / (ht * ht)).ceil() as usize;
    let (_, broke, f) = drive(&mut b, &wl, 12, |b, t, br| { snap_of(b, t, br, &mut snaps); Ok(()) })?;
    let log = wl.log.borrow(); let given = wl.given.borrow();
    let mut members: Vec<usize> = vec![]; let mut w: Vec<f64> = vec![]; let mut ghat = 1.0f64;
    for t in 1..=log.len() {
        let what = format!("{ctx} round {t}");
        let d = &log[t - 1]; let h = given[t - 1];
        ghat = ghat.min(edge(d, &k.y, &k.p[h].v));
        let (_, br, ids, ws) = &snaps[t - 1];
        let obj = |members: &[usize], w: &[f64]| smooth_margin(k.nu, eta, &wmargins(&k.y, &k.p, members, w));
        if t == 1 {
            members.push(h); w = vec![1.0];
            ensure!("first-member", !*br && *ids == vec![h], "{what}: members {ids:?}");
            continue;
        }
        let gap = ghat - obj(&members, &w) - ht;
        if gap.abs() < 1e-7 { cover("skip-ambiguous"); return Ok(()); }
        ensure!("termination", *br == (gap <= 0.0), "{what}: smallest edge {ghat}, objective {}: {}", obj(&members, &w), if *br { "stopped" } else { "did not stop" });
        if *br { cover("terminated"); break; }
        let pos = match members.iter().position(|m| *m == h) { Some(p) => { cover("repeated-member"); p }, None => { members.push(h); w.push(0.0); members.len() - 1 } };
        let w2 = by_members(&members, ids, ws);
        in_simplex(&what, &w2, 1e-5)?;
        let v2 = obj(&members, &w2);
        if let Some(prim) = fw_step(fw, t, &k, eta, d, &w, &members, pos) {
            let v = obj(&members, &prim);
            ensure!("at-least-primary", v2 >= v - 1e-6, "{what}: objective {v2} of {w2:?} is below {v} of the primary step {prim:?}");
            cover("primary");
        } else {
            let v = obj(&members, &w);
            ensure!("at-least-primary", v2 >= v - 1e-6, "{what}: objective fell from {v} to {v2} although the primary step never loses");
        }
        if let Some(o) = lp_opt(&k.y, &k.p, &members, k.nu) {
            // the secondary program is perturbed by terms of size |ln ln(1/r)|/eta
            let slack = 12.0 / eta + 1e-5;
            ensure!("at-least-secondary", v2 >= o - slack, "{what}: objective {v2} is below the optimum {o} of the capped program (allowed slack {slack})");
            if slack < 0.02 { cover("secondary-tight"); } else { cover("secondary-loose"); }
        }
        w = w2;
    }
    ensure!("round-bound", log.len() <= max, "{ctx}: {} rounds, bound {max}", log.len());
    let Some(f) = need(f, members.len(), &ctx)? else { return Ok(()); };
    if broke { ensure!("result-is-current", close_vec(&by_members(&members, &ids_of(&f), &f.weights), &w, 1e-6, 1e-3), "{ctx}: the result {:?} differs from the final weights {w:?}", f.weights); }
    Ok(())
}

pub fn a12(r: &mut Rng, c: u64) -> R {
    let n = r.range(1, 8);
    let y: Vec<f64> = { let k = r.below(3); (0..n).map(|_| match k { 0 => r.f(-5.0, 5.0), 1 => r.below(5) as f64 - 2.0, _ => r.f(0.0, 100.0) }).collect() };
    let t = Table { n, d: 1, cols: vec![(0..n).map(|i| i as f64).collect()], present: vec![vec![true; n]], names: vec!["x".into()], y: y.clone() };
    let s = t.dense();
    let l1 = r.chance(0.5);
    let loss = if l1 { GBMLoss::L1 } else { GBMLoss::L2 };
    let m = r.range(1, 5);
    let mut p: Vec<RTab> = (0..m).map(|id| RTab::new(id, (0..n).map(|_| match r.below(5) { 0 => 0.0, 1 => r.f(-1.0, 1.0), 2 => r.f(-20.0, 20.0), _ => r.f(0.1, 3.0) }).collect())).collect();
    if r.chance(0.1) { p[m - 1] = RTab::new(m - 1, y.clone()); }
    if r.chance(0.05) { let i = r.below(m); p[i] = RTab::new(i, vec![0.0; n]); }
    let wl = Rec::new(p.clone(), Policy::Sequence);
    let ctx = format!("{} y={y:?} pool={:?}", if l1 { "L1" } else { "L2" }, p.iter().map(|h| h.v.to_vec()).collect::<Vec<_>>());
    let mut b = GBM::init_with_loss(&s, loss);
    warm(&mut b, earlier(r, |r, id| RTab::new(id, (0..n).map(|_| r.f(-3.0, 3.0)).collect())));
    let manual = c % 2 == 0;
    let out = catch(|| -> Result<WeightedMajority<RTab>, Fail> { if manual { Ok(drive(&mut b, &wl, 12, |_, _, _| Ok(()))?.2.unwrap_or_else(|m| panic!("{m}"))) } else { Ok(b.run(&wl)) } });
    let log = wl.log.borrow().clone(); let given = wl.given.borrow().clone();
    let mean_loss = |f: &[f64]| y.iter().zip(f).map(|(a, b)| if l1 { (a - b).abs() } else { (a - b) * (a - b) }).sum::<f64>() / n as f64;
    let sc = 1.0 + y.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    if let Some(f0) = log.first() { ensure!("starts-from-zero", f0.iter().all(|x| *x == 0.0), "{ctx}: first round sees predictions {f0:?}"); }
    // consecutive predictions differ by coefficient * member with the best coefficient
    for t in 0..log.len() {
        let h = &p[given[t]].v;
        let cur = mean_loss(&log[t]);
        let res: Vec<f64> = y.iter().zip(&log[t]).map(|(a, b)| a - b).collect();
        let hp: f64 = h.iter().map(|x| x * x).sum();
        let along = |cf: f64| mean_loss(&log[t].iter().zip(h.iter()).map(|(f, q)| f + cf * q).collect::<Vec<_>>());
        let best = if hp == 0.0 { cur } else if l1 { h.iter().zip(&res).filter(|(q, _)| **q != 0.0).map(|(q, r)| along(r / q)).fold(cur, f64::min) }
            else { along(h.iter().zip(&res).map(|(q, r)| q * r).sum::<f64>() / hp).min(cur) };
        if t + 1 < log.len() {
            let next = mean_loss(&log[t + 1]);
            ensure!("loss-not-increased", next <= cur + 1e-9 * sc * sc, "{ctx}: round {}: training loss rises from {cur} to {next}", t + 1);
            ensure!("best-coefficient", next <= best + 1e-7 * sc * sc, "{ctx}: round {}: loss becomes {next}, the best coefficient gives {best}", t + 1);
            if let Some(q) = h.iter().position(|x| *x != 0.0) {
                let cf = (log[t + 1][q] - log[t][q]) / h[q];
                let want: Vec<f64> = log[t].iter().zip(h.iter()).map(|(f, q)| f + cf * q).collect();
                ensure!("adds-multiple-of-member", close_vec(&log[t + 1], &want, 1e-6, sc), "{ctx}: round {}: predictions moved from {:?} to {:?}, not along member {:?}", t + 1, log[t], log[t + 1], h);
            }
            cover("round");
        } else if log.len() < 12 {
            // training ended before the round bound: the last member had coefficient zero
            ensure!("stops-only-without-progress", cur <= best + 1e-7 * sc * sc, "{ctx}: stopped after {} rounds although the last member improves the loss from {cur} to {best}", log.len());
            cover("stopped");
        }
    }
    if !manual { ensure!("round-bound", log.len() <= 100, "{ctx}: {} rounds", log.len()); }
    let f = match out {
        Err(m) => return fail("no-panic", format!("{ctx}: after {} rounds: {m}", log.len())),
        Ok(f) => f?,
    };
    // the returned model is the accumulated sum
    ensure!("members-in-order", f.hypotheses.iter().map(|h| h.id).collect::<Vec<_>>() == given[..f.hypotheses.len()], "{ctx}: members out of order");
    let fin: Vec<f64> = (0..n).map(|i| Regressor::predict(&f, &s, i)).collect();
    let last = log.last().unwrap();
    let h = &p[*given.last().unwrap()].v;
    if f.hypotheses.len() + 1 == log.len() {
        ensure!("returns-additive-model", close_vec(&fin, last, 1e-7, sc), "{ctx}: the model answers {fin:?}, the accumulated predictions are {last:?}");
    } else {
        ensure!("returns-all-members", f.hypotheses.len() == log.len(), "{ctx}: {} members after {} rounds", f.hypotheses.len(), log.len());
        let q = h.iter().position(|x| *x != 0.0).unwrap();
        let cf = (fin[q] - last[q]) / h[q];
        let want: Vec<f64> = last.iter().zip(h.iter()).map(|(f, q)| f + cf * q).collect();
        ensure!("returns-additive-model", close_vec(&fin, &want, 1e-6, sc) && mean_loss(&fin) <= mean_loss(last) + 1e-9 * sc * sc, "{ctx}: the model answers {fin:?}, the accumulated predictions before the last member were {last:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- A13
use std::cell::RefCell;
struct Mock { stop: usize, calls: RefCell<Vec<String>> }
impl Booster<Tab> for Mock {
    fn name(&self) -> &str { "mock" }
    type Output = usize;
    fn preprocess<W>(&mut self, _w: &W) where W: WeakLearner<Hypothesis = Tab> { self.calls.borrow_mut().push("pre".into()); }
    fn boost<W>(&mut self, _w: &W, it: usize) -> ControlFlow<usize> where W: WeakLearner<Hypothesis = Tab> {
        self.calls.borrow_mut().push(format!("{it}"));
        if it > 1000 { panic!("{}", STOP); }
        if it >= self.stop { ControlFlow::Break(it) } else { ControlFlow::Continue(()) }
    }
    fn postprocess<W>(&mut self, _w: &W) -> usize where W: WeakLearner<Hypothesis = Tab> { self.calls.borrow_mut().push("post".into()); 4711 }
}
/// final hypothesis as (ids, weights)
trait Sig { fn sig(&self, s: &Sample) -> Vec<f64>; }
impl Sig for WeightedMajority<Tab> { fn sig(&self, _s: &Sample) -> Vec<f64> { self.weights.iter().copied().chain(self.hypotheses.iter().map(|h| h.id as f64)).collect() } }
impl Sig for WeightedMajority<RTab> { fn sig(&self, _s: &Sample) -> Vec<f64> { self.weights.iter().copied().chain(self.hypotheses.iter().map(|h| h.id as f64)).collect() } }
impl Sig for miniboosts::NaiveAggregation<Tab> { fn sig(&self, s: &Sample) -> Vec<f64> { self.confidence_all(s) } }

fn rerun<H, B>(name: &str, s: &Sample, make: &dyn Fn() -> B, wl: &dyn Fn(usize) -> Rec<H>) -> R
    where B: Booster<H>, B::Output: Sig, Rec<H>: WeakLearner<Hypothesis = H>
{
    // fresh booster with learner 0 and learner 1; then one booster: 0, 1, 0
    let once = |k: usize| { let w = wl(k); let mut b = make(); let f = catch(|| b.run(&w)); (w.log.into_inner(), f.map(|f| f.sig(s))) };
    let (l0, f0) = once(0); let (l1, f1) = once(1);
    // a run aborted by the call limit is not a run
    if f0.is_err() || f1.is_err() { cover("skip-no-result"); return Ok(()); }
    // protocol: run() == preprocess, rounds 1.., postprocess
    let w = wl(0); let mut b = make();
    let (_, _, f) = drive(&mut b, &w, usize::MAX, |_, _, _| Ok(()))?;
    let f = f.map(|f| f.sig(s));
    ensure!("run-is-protocol", *w.log.borrow() == l0 && f == f0, "{name}: run() differs from preparation, rounds 1.., assembly");
    let mut b = make();
    for (q, (k, l, f)) in [(0, &l0, &f0), (1, &l1, &f1), (0, &l0, &f0), (0, &l0, &f0)].into_iter().enumerate() {
        let w = wl(k);
        let g = catch(|| b.run(&w));
        let g = g.map(|g| g.sig(s));
        let log = w.log.into_inner();
        ensure!("rerun-same-distributions", log.len() == l.len() && log.iter().zip(l.iter()).all(|(a, b)| close_vec(a, b, 1e-9, 1e-6)), "{name}: run {} of the same booster shows the weak learner other distributions ({} rounds, a fresh booster has {}): {:?} / {:?}", q + 1, log.len(), l.len(), log.iter().take(3).collect::<Vec<_>>(), l.iter().take(3).collect::<Vec<_>>());
        match (&g, f) {
            (Ok(g), Ok(f)) => ensure!("rerun-same-result", close_vec(g, f, 1e-9, 1e-6), "{name}: run {} of the same booster returns {g:?}, a fresh booster {f:?}", q + 1),
            (g, f) => return fail("rerun-same-result", format!("{name}: run {} gives {g:?}, a fresh booster {f:?}", q + 1)),
        }
    }
    cover(name);
    Ok(())
}

pub fn a13(r: &mut Rng, c: u64) -> R {
    // the run protocol
    let stop = r.range(1, 40);
    let mut m = Mock { stop, calls: RefCell::new(vec![]) };
    let n = r.range(2, 6);
    let (s, y) = label_sample(r, n);
    let p0 = good_hyps(r, &y, 3); let p1 = { let k = r.range(1, 4); good_hyps(r, &y, k) };
    let w = Rec::new(p0.clone(), Policy::Sequence);
    let out = m.run(&w);
    let mut want = vec!["pre".to_string()]; want.extend((1..=stop).map(|i| i.to_string())); want.push("post".into());
    ensure!("run-protocol", *m.calls.borrow() == want && out == 4711, "a booster stopping at round {stop} is driven as {:?}", m.calls.borrow());
    let mut m2 = m; m2.calls.borrow_mut().clear(); m2.run(&w);
    ensure!("run-protocol", *m2.calls.borrow() == want, "second run is driven as {:?}", m2.calls.borrow());
    let pol = policy(r);
    let wl = |k: usize| { let mut w = Rec::new(if k == 0 { p0.clone() } else { p1.clone() }, pol); w.limit = 600; w };
    let tol = r.f(0.25, 0.6);
    let nu = r.f(1.0, n as f64 * 0.8);
    let fq = r.range(1, 12);
    match c % 12 {
        0 => rerun("AdaBoost", &s, &|| AdaBoost::init(&s).tolerance(tol), &wl),
        1 => rerun("AdaBoostV", &s, &|| AdaBoostV::init(&s).force_quit_at(fq), &wl),
        2 => rerun("MadaBoost", &s, &|| MadaBoost::init(&s).force_quit_at(fq), &wl),
        3 => rerun("SmoothBoost", &s, &|| SmoothBoost::init(&s).gamma(0.4), &wl),
        4 => rerun("GraphSepBoost", &s, &|| GraphSepBoost::init(&s), &wl),
        5 => rerun("CERLPBoost", &s, &|| CERLPBoost::init(&s).tolerance(tol).nu(nu), &wl),
        6 => rerun("MLPBoost", &s, &|| MLPBoost::init(&s).tolerance(tol).nu(nu), &wl),
        7 => rerun("ERLPBoost", &s, &|| ERLPBoost::init(&s).tolerance(tol).nu(nu), &wl),
        8 => rerun("LPBoost", &s, &|| LPBoost::init(&s).tolerance(tol).nu(nu), &wl),
        9 => rerun("SoftBoost", &s, &|| SoftBoost::init(&s).tolerance(tol).nu(nu), &wl),
        10 => rerun("TotalBoost", &s, &|| TotalBoost::init(&s).tolerance(tol), &wl),
        _ => {
            let q0: Vec<RTab> = (0..3).map(|id| RTab::new(id, (0..n).map(|_| r.f(0.1, 3.0)).collect())).collect();
            let q1: Vec<RTab> = (0..2).map(|id| RTab::new(id, (0..n).map(|_| r.f(0.1, 3.0)).collect())).collect();
            let l = if r.chance(0.5) { GBMLoss::L1 } else { GBMLoss::L2 };
            rerun("GBM", &s, &|| GBM::init_with_loss(&s, l), &|k| Rec::new(if k == 0 { q0.clone() } else { q1.clone() }, Policy::Sequence))
        }
    }
}
