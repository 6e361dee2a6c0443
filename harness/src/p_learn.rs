//! T01..T03, N01, W01: weak learners.
use crate::ensure;
use crate::gen::*;
use crate::tree::*;
use miniboosts::prelude::*;

/// Equal-width bins of one column: the bin of every row, or None if some row lies on a
/// bin boundary up to rounding (its bin is then not determined by exact arithmetic).
fn bin_of(col: &[f64], nb: usize) -> Option<Vec<usize>> {
    let mut lo = col.iter().cloned().fold(f64::INFINITY, f64::min);
    let mut hi = col.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    if lo == hi { return Some(vec![0; col.len()]); }
    let w = (hi - lo) / nb as f64;
    let exact = (w * 1048576.0).fract() == 0.0 && w.abs() < 1e6 && (lo * 1048576.0).fract() == 0.0;
    if lo > hi { std::mem::swap(&mut lo, &mut hi); }
    let mut out = vec![];
    for x in col {
        if *x == hi { out.push(nb - 1); continue; }
        if *x == lo { out.push(0); continue; }
        let t = (x - lo) / w;
        if !exact && (t - t.round()).abs() < 1e-7 { return None; }
        out.push((t.floor() as usize).min(nb - 1));
    }
    Some(out)
}
fn distinct(col: &[f64]) -> usize {
    let mut v = col.to_vec(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v.dedup(); v.len()
}
/// All partitions of `idx` by a bin boundary of some feature, the trivial ones excluded.
fn candidates(bins: &[Vec<usize>], idx: &[usize]) -> Vec<(usize, Vec<usize>, Vec<usize>)> {
    let mut out = vec![];
    for (j, b) in bins.iter().enumerate() {
        let mut ks: Vec<usize> = idx.iter().map(|&i| b[i]).collect(); ks.sort_unstable(); ks.dedup();
        for &k in &ks[..ks.len().saturating_sub(1)] {
            let (l, r): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&i| b[i] <= k);
            out.push((j, l, r));
        }
    }
    out
}
fn err_as_leaf(y: &[f64], w: &[f64], idx: &[usize]) -> f64 {
    let p: f64 = idx.iter().filter(|&&i| y[i] > 0.0).map(|&i| w[i]).sum();
    let m: f64 = idx.iter().filter(|&&i| y[i] <= 0.0).map(|&i| w[i]).sum();
    p.min(m)
}

const CRITERIA: [Criterion; 4] = [Criterion::Entropy, Criterion::Edge, Criterion::Gini, Criterion::Twoing];

/// feature values of very small and very large magnitude
fn rescale(r: &mut Rng, t: &mut Table) {
    for c in t.cols.iter_mut() { if r.chance(0.15) { let k = 10f64.powi(r.range(0, 40) as i32 - 20); for x in c.iter_mut() { *x *= k; } } }
}
struct Setup { t: Table, w: Vec<f64>, crit: Criterion, depth: usize, nb: Vec<usize>, sparse: bool }
fn setup(r: &mut Rng, labels3: bool) -> Setup {
    let n = if r.chance(0.1) { r.range(20, 60) } else { r.range(2, 14) };
    let d = r.range(1, 4);
    let mut t = table(r, n, d);
    rescale(r, &mut t);
    let crit = *r.pick(&CRITERIA);
    if r.chance(0.15) { // labels explained by one column: deep pure trees
        let j = r.below(d); let c = t.cols[j].clone(); let m = c[r.below(n)];
        for i in 0..n { t.y[i] = if c[i] < m { 1.0 } else { -1.0 }; }
        if t.y.iter().all(|v| *v == t.y[0]) { t.y[0] = -t.y[0]; }
    }
    if labels3 && crit != Criterion::Edge && r.chance(0.3) { for v in t.y.iter_mut() { *v = r.below(3) as f64; } }
    let mut w = dist(r, n);
    if r.chance(0.15) { // the wide range of weights late boosting rounds produce
        w = norm((0..n).map(|_| r.f(-45.0, 0.0).exp()).collect());
    }
    let nb: Vec<usize> = t.cols.iter().map(|c| { let k = distinct(c); if r.chance(0.2) { r.range(1, 9) } else { k.min(255) } }).collect();
    let depth = r.range(1, 4);
    let sparse = r.chance(0.4);
    Setup { t, w, crit, depth, nb, sparse }
}
fn show(s: &Setup) -> String { format!("criterion {:?} max_depth {} bins {:?} {} weights {:?} rows {}", s.crit, s.depth, s.nb, if s.sparse { "sparse" } else { "dense" }, s.w, s.t.show()) }
fn train(s: &Setup, smp: &Sample) -> Result<DecisionTreeClassifier, String> {
    catch(|| {
        let mut b = DecisionTreeBuilder::new(smp).max_depth(s.depth).criterion(s.crit);
        for j in 0..s.t.d { if s.nb[j] != distinct(&s.t.cols[j]).min(255) { b.set_nbins(&s.t.names[j], s.nb[j]); } }
        b.build().produce(smp, &s.w)
    })
}

fn walk(s: &Setup, bins: &[Vec<usize>], tree: &T, idx: &[usize], level: usize) -> R {
    let (y, w) = (&s.t.y, &s.w);
    let tol = 1e-7;
    if let T::Branch { feature, thr, l, r } = tree {
        let Some(j) = s.t.names.iter().position(|n| n == feature) else { return fail("T01.feature-exists", format!("split on unknown feature `{feature}`: {}", show(s))); };
        let (li, ri): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&i| s.t.cols[j][i] < *thr);
        ensure!("T01.both-sides-weighted", !li.is_empty() && !ri.is_empty(), "a side of the split {feature} < {thr} is empty at level {level}: {}", show(s));
        let cand = candidates(bins, idx);
        ensure!("T01.bin-boundary", cand.iter().any(|c| c.0 == j && c.1 == li), "the split {feature} < {thr} at level {level} (left rows {li:?}) is no bin boundary of the feature: {}", show(s));
        let q = quality(s.crit, y, w, &li, &ri);
        let best = cand.iter().map(|c| quality(s.crit, y, w, &c.1, &c.2)).fold(f64::NEG_INFINITY, f64::max);
        ensure!("T01.best-split", q >= best - tol, "the split {feature} < {thr} at level {level} has quality {q}, the best bin boundary has {best}: {}", show(s));
        let none = no_split(s.crit, y, w, idx);
        ensure!("T01.improves", q > none - tol, "the split {feature} < {thr} at level {level} has quality {q}, not splitting has {none}: {}", show(s));
        cover(&format!("split-{:?}", s.crit));
        if level > 0 { cover("inner-split"); }
        walk(s, bins, l, &li, level + 1)?;
        walk(s, bins, r, &ri, level + 1)?;
    } else { cover("leaf"); }
    Ok(())
}

pub fn t01(r: &mut Rng, _c: u64) -> R {
    let s = setup(r, true);
    let smp = s.t.build(s.sparse);
    let f = match train(&s, &smp) { Ok(f) => f, Err(e) => return fail("T01.trains", format!("training panicked with `{e}`: {}", show(&s))) };
    let bins: Option<Vec<Vec<usize>>> = s.t.cols.iter().zip(&s.nb).map(|(c, k)| bin_of(c, *k)).collect();
    let Some(bins) = bins else { cover("skip-ambiguous-bin"); return Ok(()); };
    let idx: Vec<usize> = (0..s.t.n).filter(|&i| s.w[i] > 0.0).collect();
    let tree = parse(&f);
    walk(&s, &bins, &tree, &idx, 0)?;
    // rows outside of the range the bins were cut from still fall into a bin
    if r.chance(0.3) {
        let mut t2 = s.t.clone();
        for c in t2.cols.iter_mut() { for x in c.iter_mut() { if r.chance(0.5) { *x = r.f(-10.0, 10.0) * 10f64.powi(r.below(8) as i32); } } }
        t2.present = t2.cols.iter().map(|c| c.iter().map(|x| *x != 0.0).collect()).collect();
        let smp2 = t2.build(false);
        let res = catch(|| DecisionTreeBuilder::new(&smp).max_depth(s.depth).criterion(s.crit).build().produce(&smp2, &s.w));
        if let Err(e) = res { return fail("T01.bins-cover-line", format!("a learner built on {} cannot be trained on {}: {e}", show(&s), t2.show())); }
        cover("foreign-rows");
    }
    Ok(())
}

fn leaves(s: &Setup, bins: &Option<Vec<Vec<usize>>>, tree: &T, idx: &[usize], level: usize) -> R {
    let (y, w) = (&s.t.y, &s.w);
    match tree {
        T::Leaf(c) => {
            ensure!("T02.confidence-range", (-1.0..=1.0).contains(c), "leaf confidence {c}: {}", show(s));
            let tot: f64 = idx.iter().map(|&i| w[i]).sum();
            let e: f64 = idx.iter().map(|&i| w[i] * y[i]).sum::<f64>() / tot; // label * (2*share - 1) for labels +1/-1
            if !idx.is_empty() {
                ensure!("T02.leaf-confidence", close(*c, e, 1e-9, 1.0), "leaf confidence {c} at level {level}, rows {idx:?} have label*(2*share-1) = {e}: {}", show(s));
                if e != 0.0 { cover("leaf-nonzero"); }
            }
            // a leaf above the depth limit never has more weighted error than the best split would leave
            let miss = err_as_leaf(y, w, idx);
            if level < s.depth && miss > 1e-9 {
                if let Some(b) = bins {
                    let cand = candidates(b, idx);
                    let qs: Vec<f64> = cand.iter().map(|c| quality(s.crit, y, w, &c.1, &c.2)).collect();
                    let best = qs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                    if best > no_split(s.crit, y, w, idx) + 1e-7 {
                        let every_best_reduces = cand.iter().zip(&qs).filter(|(_, q)| **q >= best - 1e-7)
                            .all(|(c, _)| err_as_leaf(y, w, &c.1) + err_as_leaf(y, w, &c.2) < miss - 1e-7);
                        ensure!("T02.pruned-without-loss", !every_best_reduces, "a leaf at level {level} with rows {idx:?} keeps error {miss} although the best split of quality {best} has less: {}", show(s));
                        cover("leaf-above-limit");
                    }
                }
            }
            Ok(())
        }
        T::Branch { feature, thr, l, r } => {
            let Some(j) = s.t.names.iter().position(|n| n == feature) else { return Ok(()); };
            let (li, ri): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&i| s.t.cols[j][i] < *thr);
            leaves(s, bins, l, &li, level + 1)?;
            leaves(s, bins, r, &ri, level + 1)
        }
    }
}

pub fn t02(r: &mut Rng, _c: u64) -> R {
    let s = setup(r, false);
    let smp = s.t.build(s.sparse);
    let f = match train(&s, &smp) { Ok(f) => f, Err(e) => return fail("T02.trains", format!("training panicked with `{e}`: {}", show(&s))) };
    let tree = parse(&f);
    ensure!("T02.depth", tree.depth() <= s.depth, "depth {} exceeds {}: {}", tree.depth(), s.depth, show(&s));
    if tree.depth() == s.depth { cover("full-depth"); }
    let idx: Vec<usize> = (0..s.t.n).filter(|&i| s.w[i] > 0.0).collect();
    let bins: Option<Vec<Vec<usize>>> = s.t.cols.iter().zip(&s.nb).map(|(c, k)| bin_of(c, *k)).collect();
    leaves(&s, &bins, &tree, &idx, 0)?;
    // routing, on the training rows and on rows at and around the thresholds
    let mut t2 = s.t.clone();
    let mut ths = vec![]; collect_thr(&tree, &mut ths);
    for c in 0..t2.d { for i in 0..t2.n { if r.chance(0.5) {
        let of: Vec<f64> = ths.iter().filter(|x| x.0 == t2.names[c]).map(|x| x.1).filter(|x| x.abs() < 1e100).collect();
        t2.cols[c][i] = if !of.is_empty() && r.chance(0.7) { let b = *r.pick(&of); match r.below(3) { 0 => b, 1 => b - 1e-3 * (1.0 + b.abs()), _ => b + 1e-3 * (1.0 + b.abs()) } } else { r.f(-4.0, 4.0) };
    } } }
    t2.present = t2.cols.iter().map(|c| c.iter().map(|x| *x != 0.0).collect()).collect();
    for c in 0..t2.d { if !t2.present[c].iter().any(|p| *p) { t2.present[c][0] = true; } }
    let sp2 = r.chance(0.5);
    let smp2 = t2.build(sp2);
    for (t, smp) in [(&s.t, &smp), (&t2, &smp2)] {
        for i in 0..t.n {
            let get = |n: &str| t.cols[t.names.iter().position(|m| m == n).unwrap()][i];
            let want = tree.eval(&get);
            let got = f.confidence(smp, i);
            ensure!("T02.routing", got == want, "row {i} gets confidence {got}, the tree {tree:?} says {want}: rows {}", t.show());
        }
    }
    Ok(())
}
fn collect_thr(t: &T, out: &mut Vec<(String, f64)>) { if let T::Branch { feature, thr, l, r } = t { out.push((feature.clone(), *thr)); collect_thr(l, out); collect_thr(r, out); } }

pub fn t03(r: &mut Rng, _c: u64) -> R {
    let n = if r.chance(0.1) { r.range(20, 60) } else { r.range(2, 14) };
    let d = r.range(1, 4);
    let mut t = table(r, n, d);
    rescale(r, &mut t);
    let l1 = r.chance(0.3);
    t.y = (0..n).map(|_| if r.chance(0.3) { r.below(3) as f64 } else { r.f(-5.0, 5.0) }).collect();
    let pred: Vec<f64> = match r.below(3) { 0 => vec![0.25; n], 1 => (0..n).map(|_| r.f(-5.0, 5.0)).collect(), _ => t.y.iter().map(|y| y + r.f(-0.5, 0.5)).collect() };
    let lam = *r.pick(&[0.01, 0.01, 0.5, 3.0, 1e-4]);
    let depth = r.range(1, 5);
    let sparse = r.chance(0.4);
    let nb: Vec<usize> = t.cols.iter().map(|c| if r.chance(0.3) { r.range(1, 9) } else { distinct(c).min(255) }).collect();
    let show = || format!("loss {} lambda {lam} max_depth {depth} bins {nb:?} {} predictions {pred:?} rows {}", if l1 { "L1" } else { "L2" }, if sparse { "sparse" } else { "dense" }, t.show());
    let smp = t.build(sparse);
    let loss = if l1 { GBMLoss::L1 } else { GBMLoss::L2 };
    let f = match catch(|| {
        let mut b = RegressionTreeBuilder::new(&smp).max_depth(depth).loss(loss);
        if lam != 0.01 { b = b.lambda_l2(lam); }
        for j in 0..d { if nb[j] != distinct(&t.cols[j]).min(255) { b.set_nbins(&t.names[j], nb[j]); } }
        b.build().produce(&smp, &pred)
    }) { Ok(f) => f, Err(e) => return fail("T03.trains", format!("training panicked with `{e}`: {}", show())) };
    let tree = parse_reg(&f);
    ensure!("T03.depth", tree.depth() + 1 <= depth, "{} levels exceed {depth}: {}", tree.depth() + 1, show());
    if tree.depth() + 1 == depth && depth > 1 { cover("full-depth"); }
    let g: Vec<f64> = (0..n).map(|i| if l1 { (pred[i] - t.y[i]).signum() } else { pred[i] - t.y[i] }).collect();
    let h: Vec<f64> = vec![if l1 { 0.0 } else { 1.0 }; n];
    if l1 && (0..n).any(|i| pred[i] == t.y[i]) { cover("skip-kink"); return Ok(()); }
    let bins: Option<Vec<Vec<usize>>> = t.cols.iter().zip(&nb).map(|(c, k)| bin_of(c, *k)).collect();
    let sc = |idx: &[usize]| { let a: f64 = idx.iter().map(|&i| g[i]).sum(); let b: f64 = idx.iter().map(|&i| h[i]).sum(); a * a / (b + lam) };
    fn go(t: &Table, bins: &Option<Vec<Vec<usize>>>, tree: &T, idx: &[usize], level: usize, depth: usize, g: &[f64], h: &[f64], lam: f64, sc: &dyn Fn(&[usize]) -> f64, show: &dyn Fn() -> String) -> R {
        match tree {
            T::Leaf(p) => {
                let a: f64 = idx.iter().map(|&i| g[i]).sum(); let b: f64 = idx.iter().map(|&i| h[i]).sum();
                let e = -a / (b + lam);
                let scale = 1.0 / (b + lam);
                ensure!("T03.leaf-value", close(*p, e, 1e-9, scale), "leaf value {p}, rows {idx:?} give -G/(H+lambda) = {e}: {}", show());
                if level + 1 < depth && a.abs() > 1e-6 {
                    if let Some(bs) = bins {
                        let c = candidates(bs, idx);
                        let best = c.iter().map(|c| sc(&c.1) + sc(&c.2)).fold(f64::NEG_INFINITY, f64::max);
                        let whole = sc(idx);
                        ensure!("T03.leaf-only-without-gain", best <= whole + 1e-6 * (1.0 + whole.abs() + best.abs()), "rows {idx:?} stay together with score {whole}, a split has {best}: {}", show());
                        cover("leaf-above-limit");
                    }
                }
                cover("leaf");
                Ok(())
            }
            T::Branch { feature, thr, l, r } => {
                let Some(j) = t.names.iter().position(|n| n == feature) else { return fail("T03.feature-exists", format!("split on `{feature}`: {}", show())); };
                let (li, ri): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&i| t.cols[j][i] < *thr);
                ensure!("T03.both-sides", !li.is_empty() && !ri.is_empty(), "a side of {feature} < {thr} is empty: {}", show());
                if let Some(bs) = bins {
                    let c = candidates(bs, idx);
                    ensure!("T03.bin-boundary", c.iter().any(|c| c.0 == j && c.1 == li), "the split {feature} < {thr} (left rows {li:?}) is no bin boundary: {}", show());
                    let best = c.iter().map(|c| sc(&c.1) + sc(&c.2)).fold(f64::NEG_INFINITY, f64::max);
                    let q = sc(&li) + sc(&ri);
                    ensure!("T03.best-split", q >= best - 1e-6 * (1.0 + best.abs()), "the split {feature} < {thr} of rows {idx:?} has score {q}, the best has {best}: {}", show());
                    let whole = sc(idx);
                    ensure!("T03.improves", q >= whole - 1e-6 * (1.0 + whole.abs()), "the split {feature} < {thr} of rows {idx:?} has score {q}, not splitting has {whole}: {}", show());
                    cover("split"); if level > 0 { cover("inner-split"); }
                } else { cover("skip-ambiguous-bin"); }
                go(t, bins, l, &li, level + 1, depth, g, h, lam, sc, show)?;
                go(t, bins, r, &ri, level + 1, depth, g, h, lam, sc, show)
            }
        }
    }
    let idx: Vec<usize> = (0..n).collect();
    go(&t, &bins, &tree, &idx, 0, depth, &g, &h, lam, &sc, &show)?;
    // routing
    let mut ths = vec![]; collect_thr(&tree, &mut ths);
    let mut t2 = t.clone();
    for c in 0..d { for i in 0..n { if r.chance(0.5) {
        let of: Vec<f64> = ths.iter().filter(|x| x.0 == t2.names[c]).map(|x| x.1).filter(|x| x.abs() < 1e100).collect();
        t2.cols[c][i] = if !of.is_empty() && r.chance(0.7) { *r.pick(&of) } else { r.f(-4.0, 4.0) };
    } } }
    t2.present = t2.cols.iter().map(|c| c.iter().map(|x| *x != 0.0).collect()).collect();
    for c in 0..d { if !t2.present[c].iter().any(|p| *p) { t2.present[c][0] = true; } }
    let smp2 = t2.build(r.chance(0.5));
    for (t, smp) in [(&t, &smp), (&t2, &smp2)] {
        let all = f.predict_all(smp);
        for i in 0..t.n {
            let get = |n: &str| t.cols[t.names.iter().position(|m| m == n).unwrap()][i];
            let want = tree.eval(&get);
            ensure!("T03.routing", f.predict(smp, i) == want && all[i] == want, "row {i} gets {} / {}, the tree {tree:?} says {want}: rows {}", f.predict(smp, i), all[i], t.show());
        }
    }
    Ok(())
}

pub fn n01(r: &mut Rng, _c: u64) -> R {
    let n = if r.chance(0.1) { r.range(20, 60) } else { r.range(4, 14) };
    let d = r.range(1, 4);
    let cols: Vec<Vec<f64>> = (0..d).map(|_| match r.below(4) {
        0 => (0..n).map(|_| if r.chance(0.4) { 0.0 } else { r.f(-3.0, 3.0) }).collect(),
        1 => (0..n).map(|_| r.f(-1.0, 1.0) * 30.0).collect(),
        2 => (0..n).map(|_| r.below(5) as f64).collect(),
        _ => (0..n).map(|_| r.f(-1.0, 1.0)).collect::<Vec<f64>>(),
    }).collect();
    let mut t = from_cols(r, cols);
    let k = if r.chance(0.3) { 3 } else { 2 };
    if k == 3 { for v in t.y.iter_mut() { *v = r.below(3) as f64 - 1.0; } }
    // shift the classes so that decisions are not all alike
    for j in 0..d { for i in 0..n { if t.cols[j][i] != 0.0 && t.y[i] > 0.0 { t.cols[j][i] += 1.0; } } }
    t.present = t.cols.iter().map(|c| c.iter().map(|x| *x != 0.0).collect()).collect();
    for j in 0..d { if !t.present[j].iter().any(|p| *p) { t.present[j][0] = true; } }
    let w: Vec<f64> = norm((0..n).map(|_| r.f(0.05, 1.0)).collect());
    let sparse = r.chance(0.5);
    let smp = t.build(sparse);
    let show = || format!("{} weights {w:?} rows {}", if sparse { "sparse" } else { "dense" }, t.show());
    let f = match catch(|| GaussianNB::init().produce(&smp, &w)) { Ok(f) => f, Err(e) => return fail("N01.trains", format!("panicked with `{e}`: {}", show())) };
    let mut ys: Vec<f64> = t.y.clone(); ys.sort_by(|a, b| a.partial_cmp(b).unwrap()); ys.dedup();
    let v = serde_json::to_value(&f).unwrap();
    let conds = v["conditionals"].as_array().unwrap();
    ensure!("N01.labels", conds.len() == ys.len(), "{} labels modelled, {} occur: {}", conds.len(), ys.len(), show());
    let mut model = vec![];
    let mut degenerate = false;
    for y in &ys {
        let Some(c) = conds.iter().find(|c| c[0].as_f64() == Some(*y)) else { return fail("N01.labels", format!("label {y} is not modelled: {}", show())); };
        let prior: f64 = (0..n).filter(|&i| t.y[i] == *y).map(|i| w[i]).sum();
        ensure!("N01.prior", close(c[1].as_f64().unwrap_or(f64::NAN), prior, 1e-9, 1.0), "prior of {y} is {}, the total weight is {prior}: {}", c[1], show());
        let st = crate::p_data::stats_for(&t, *y, &w);
        for (j, (m, va, s)) in st.iter().enumerate() {
            let gm = c[2]["means"][j].as_f64().unwrap_or(f64::NAN); let gv = c[2]["vars"][j].as_f64().unwrap_or(f64::NAN);
            ensure!("N01.mean", close(gm, *m, 1e-9, *s), "mean of feature {j} for {y} is {gm}, expected {m}: {}", show());
            ensure!("N01.variance", close(gv, *va, 1e-9, s * s), "variance of feature {j} for {y} is {gv}, expected {va}: {}", show());
            if *va < 1e-6 { degenerate = true; }
        }
        model.push((*y, prior, st));
    }
    if degenerate { cover("skip-degenerate"); return Ok(()); }
    // prediction on fresh rows, in either storage form
    let mut t2 = t.clone();
    for j in 0..d { for i in 0..n { if t2.cols[j][i] != 0.0 { t2.cols[j][i] += r.f(-1.0, 1.0); } } }
    t2.present = t2.cols.iter().map(|c| c.iter().map(|x| *x != 0.0).collect()).collect();
    for j in 0..d { if !t2.present[j].iter().any(|p| *p) { t2.present[j][0] = true; } }
    let smp2 = t2.build(r.chance(0.5));
    let all = crate::p_data::stats(&t, &w);
    for i in 0..n {
        let lp = |st: &Vec<(f64, f64, f64)>| st.iter().enumerate().map(|(j, (m, va, _))| { let x = t2.cols[j][i]; -0.5 * ((2.0 * std::f64::consts::PI * va).ln() + (x - m) * (x - m) / va) }).sum::<f64>();
        let sc: Vec<(f64, f64)> = model.iter().map(|(y, p, st)| (*y, p.ln() + lp(st))).collect();
        let la = lp(&all);
        // keep away from under/overflow of the quotient of densities
        if sc.iter().all(|s| s.1 - la < -600.0) || sc.iter().any(|s| s.1 - la > 600.0) { cover("skip-range"); continue; }
        let best = sc.iter().cloned().fold((0.0, f64::NEG_INFINITY), |a, b| if b.1 > a.1 { b } else { a });
        let second = sc.iter().filter(|s| s.0 != best.0).map(|s| s.1).fold(f64::NEG_INFINITY, f64::max);
        if best.1 - second < 1e-6 { cover("skip-tie"); continue; }
        let got = f.confidence(&smp2, i);
        ensure!("N01.prediction", got == best.0, "row {i} of {} is labelled {got}, log posteriors are {sc:?}; trained on {}", t2.show(), show());
        cover(if d > 1 { "prediction-multi" } else { "prediction" });
        for (y, p) in f.probabilities(&smp2, i) {
            let e = sc.iter().find(|s| s.0 == y).unwrap().1 - la;
            if e.abs() < 500.0 { ensure!("N01.posterior", close(p.ln(), e, 1e-7, 1.0 + la.abs()), "row {i} of {}: posterior of {y} is exp({}), expected exp({e}); trained on {}", t2.show(), p.ln(), show()); }
        }
    }
    Ok(())
}

pub fn w01(r: &mut Rng, _c: u64) -> R {
    let n = r.range(2, 24);
    let t = table(r, n, 1);
    let smp = t.build(r.chance(0.3));
    let nu = match r.below(5) { 0 => 1.0, 1 => n as f64, 2 => r.range(1, n) as f64, 3 => 1.0 + (n as f64 - 1.0) * r.u(), _ => (n as f64 - 1.0).max(1.0) };
    let tol = *r.pick(&[1e-9, 1e-3, 0.1, 0.5]);
    let setnu = nu != 1.0 || r.chance(0.5);
    let show = || format!("n {n} nu {nu} tolerance {tol} labels {:?}", t.y);
    let half = (n + 1) / 2; let s = nu.ceil() as usize; let eps = tol / (2.0 * n as f64);
    let mut rows: Vec<Vec<f64>> = vec![];
    rows.push((0..n).map(|i| if i < half { 1.0 } else if i < half + s { -1.0 + 2.0 * eps } else { -1.0 + 3.0 * eps }).collect());
    for k in 1..half { let gap = (3 + 2 * k) as f64; let b = half + k - 1;
        rows.push((0..n).map(|i| if i >= b && i < b + s { 1.0 } else if i >= b + s && i < b + 2 * s { -1.0 + (gap - 1.0) * eps } else { -1.0 + gap * eps }).collect()); }
    rows.push((0..n).map(|i| if i < half { -1.0 + eps } else { 1.0 - eps }).collect());
    let learner = match catch(|| { let mut b = BadBaseLearnerBuilder::new(&smp); if setnu { b = b.nu(nu); } if tol != 1e-9 { b = b.tolerance(tol); } b.build() }) {
        Ok(l) => l, Err(e) => return fail("W01.nu-accepted", format!("the builder panicked with `{e}`: {}", show())) };
    for _ in 0..4 {
        let w = dist(r, n);
        let h = match catch(|| learner.produce(&smp, &w)) { Ok(h) => h, Err(e) => return fail("W01.produces", format!("panicked with `{e}`: {}", show())) };
        let conf: Vec<f64> = (0..n).map(|i| h.confidence(&smp, i)).collect();
        let edges: Vec<f64> = rows.iter().map(|m| m.iter().zip(&w).map(|(a, b)| a * b).sum::<f64>()).collect();
        let best = edges.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let k = rows.iter().position(|m| (0..n).all(|i| (conf[i] - m[i] * t.y[i]).abs() <= 1e-13));
        let Some(k) = k else { return fail("W01.pattern", format!("confidences {conf:?} match no member of the pool {rows:?}: {}", show())) };
        ensure!("W01.range", conf.iter().all(|c| (-1.0..=1.0).contains(c)), "confidences {conf:?}: {}", show());
        let ek = rows.iter().zip(&edges).filter(|(m, _)| (0..n).all(|i| (conf[i] - m[i] * t.y[i]).abs() <= 1e-13)).map(|x| *x.1).fold(f64::NEG_INFINITY, f64::max);
        ensure!("W01.best-edge", ek >= best - 1e-12, "member {k} with edge {ek} returned, the best edge is {best} of {edges:?} for weights {w:?}: {}", show());
        cover(if k == 0 { "first" } else if k + 1 == rows.len() { "last" } else { "middle" });
    }
    Ok(())
}
