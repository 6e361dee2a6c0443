//! D01..D05, E01, E02: datasets, loading, cross validation, combined hypotheses.
use crate::ensure;
use crate::gen::*;
use miniboosts::prelude::*;
use miniboosts::research::CrossValidation;
use polars::prelude::*;
use std::io::Write;

fn weights(r: &mut Rng, n: usize) -> Vec<f64> {
    // non-negative, not necessarily normalised
    let s = *r.pick(&[1.0, 1.0, 0.01, 7.0]);
    dist(r, n).into_iter().map(|x| x * s).collect()
}

pub fn stats(t: &Table, w: &[f64]) -> Vec<(f64, f64, f64)> {
    t.cols.iter().map(|c| {
        let m: f64 = c.iter().zip(w).map(|(x, w)| x * w).sum();
        let v: f64 = c.iter().zip(w).map(|(x, w)| w * (x - m) * (x - m)).sum();
        let s = c.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        (m, v, s)
    }).collect()
}
pub fn stats_for(t: &Table, y: f64, w: &[f64]) -> Vec<(f64, f64, f64)> {
    let tot: f64 = (0..t.n).filter(|&i| t.y[i] == y).map(|i| w[i]).sum();
    t.cols.iter().map(|c| {
        let m: f64 = (0..t.n).filter(|&i| t.y[i] == y).map(|i| w[i] * c[i]).sum::<f64>() / tot;
        let v: f64 = (0..t.n).filter(|&i| t.y[i] == y).map(|i| w[i] * (c[i] - m) * (c[i] - m)).sum::<f64>() / tot;
        let s = c.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        (m, v, s)
    }).collect()
}

pub fn d01(r: &mut Rng, _c: u64) -> R {
    let n = if r.chance(0.05) { r.range(20, 200) } else { r.range(2, 12) };
    let d = r.range(1, 4);
    let mut t = table(r, n, d);
    if n > 12 && r.chance(0.6) { // nearly empty columns: long runs of absent rows
        let keep = r.range(1, 3);
        for j in 0..t.d {
            let kept: Vec<usize> = (0..keep).map(|_| r.below(n)).collect();
            for i in 0..n {
                if !kept.contains(&i) { t.cols[j][i] = 0.0; t.present[j][i] = false; }
                else if t.cols[j][i] == 0.0 { t.cols[j][i] = 1.5; t.present[j][i] = true; }
            }
        }
    }
    if r.chance(0.3) { let k = r.range(2, 4); for v in t.y.iter_mut() { *v = r.below(k) as f64; } }
    let sparse = r.chance(0.5);
    let s = t.build(sparse);
    let form = if sparse { "sparse" } else { "dense" };
    let w = dist(r, n);
    let want = stats(&t, &w);
    let mean = s.weighted_mean(&w);
    let mv = s.weighted_mean_and_variance(&w);
    ensure!("shape", mean.len() == d && mv.len() == d, "{form}: {} means, {} pairs for {d} features", mean.len(), mv.len());
    for j in 0..d {
        let (m, v, sc) = want[j];
        ensure!("mean", close(mean[j], m, 1e-9, sc) && close(mv[j].0, m, 1e-9, sc), "{form} feature {j}: mean {} / {} but definition gives {m}; data {} weights {w:?}", mean[j], mv[j].0, t.show());
        ensure!("variance", close(mv[j].1, v, 1e-9, sc * sc), "{form} feature {j}: variance {} but definition gives {v}; data {} weights {w:?}", mv[j].1, t.show());
        ensure!("variance-nonneg", mv[j].1 >= 0.0, "{form} feature {j}: negative variance {}; data {} weights {w:?}", mv[j].1, t.show());
    }
    cover(&format!("overall/{form}"));
    let w = if r.chance(0.5) { w } else { weights(r, n) };
    let mut ys = t.y.clone(); ys.sort_by(|a, b| a.partial_cmp(b).unwrap()); ys.dedup();
    for y in ys {
        let tot: f64 = (0..n).filter(|&i| t.y[i] == y).map(|i| w[i]).sum();
        let m1 = s.weighted_mean_for_label(y, &w);
        let mv = s.weighted_mean_and_variance_for_label(y, &w);
        ensure!("shape", m1.len() == d && mv.len() == d, "{form}: per-label result has wrong length");
        if tot < 1e-6 { continue; }
        let want = stats_for(&t, y, &w);
        for j in 0..d {
            let (m, v, sc) = want[j];
            ensure!("label-mean", close(m1[j], m, 1e-8, sc) && close(mv[j].0, m, 1e-8, sc), "{form} feature {j} label {y}: mean {} / {} but definition gives {m}; data {} weights {w:?}", m1[j], mv[j].0, t.show());
            ensure!("label-variance", close(mv[j].1, v, 1e-8, sc * sc), "{form} feature {j} label {y}: variance {} but definition gives {v}; data {} weights {w:?}", mv[j].1, t.show());
        }
        cover(&format!("label/{form}"));
    }
    Ok(())
}

pub fn d02(r: &mut Rng, c: u64) -> R {
    let n = if c % 40 == 7 { r.range(13, 60) } else { r.range(2, 12) };
    let d = r.range(1, 4);
    let mut t = table(r, n, d);
    // absent prefixes / suffixes
    if r.chance(0.5) {
        let j = r.below(d);
        let k = r.range(0, n);
        for i in 0..n { if (i < k) ^ r.chance(0.02) { t.cols[j][i] = 0.0; t.present[j][i] = false; } }
        if !t.present[j].iter().any(|p| *p) { let i = r.below(n); t.cols[j][i] = 1.5; t.present[j][i] = true; }
    }
    // a row missing in every column
    if r.chance(0.3) && n > 2 {
        let i = if r.chance(0.5) { n - 1 } else { r.below(n) };
        for j in 0..d { t.cols[j][i] = 0.0; t.present[j][i] = false; }
        for j in 0..d { if !t.present[j].iter().any(|p| *p) { let k = (i + 1) % n; t.present[j][k] = true; } }
    }
    let (de, sp) = (t.dense(), t.sparse());
    ensure!("shape", de.shape() == (n, d) && sp.shape() == (n, d), "shapes differ: dense {:?} sparse {:?}", de.shape(), sp.shape());
    for i in 0..n {
        let (a, b) = (de.at(i), sp.at(i));
        let row: Vec<f64> = (0..d).map(|j| t.cols[j][i]).collect();
        ensure!("cells", a.0 == row && b.0 == row && a.1 == t.y[i] && b.1 == t.y[i], "row {i}: dense {a:?} sparse {b:?} truth {row:?}; data {}", t.show());
        for j in 0..d {
            let (x, z) = (sp.features()[j][i], sp[t.names[j].as_str()][i]);
            ensure!("cells", x == row[j] && z == row[j], "row {i} column {j}: feature access gives {x}, access by name gives {z}, truth {}; data {}", row[j], t.show());
        }
    }
    cover("cells");
    let w = dist(r, n);
    let sc = |j: usize| t.cols[j].iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let (a, b) = (de.weighted_mean_and_variance(&w), sp.weighted_mean_and_variance(&w));
    let (am, bm) = (de.weighted_mean(&w), sp.weighted_mean(&w));
    for j in 0..d {
        ensure!("statistics", close(am[j], bm[j], 1e-9, sc(j)) && close(a[j].0, b[j].0, 1e-9, sc(j)) && close(a[j].1, b[j].1, 1e-9, sc(j) * sc(j)), "column {j}: dense {:?} sparse {:?}; data {} w {w:?}", a[j], b[j], t.show());
    }
    for y in [1.0, -1.0] {
        let tot: f64 = (0..n).filter(|&i| t.y[i] == y).map(|i| w[i]).sum();
        if tot < 1e-6 { continue; }
        let (a, b) = (de.weighted_mean_and_variance_for_label(y, &w), sp.weighted_mean_and_variance_for_label(y, &w));
        let (am, bm) = (de.weighted_mean_for_label(y, &w), sp.weighted_mean_for_label(y, &w));
        for j in 0..d {
            ensure!("label-statistics", close(am[j], bm[j], 1e-8, sc(j)) && close(a[j].0, b[j].0, 1e-8, sc(j)) && close(a[j].1, b[j].1, 1e-8, sc(j) * sc(j)), "column {j} label {y}: dense {:?} sparse {:?}; data {} w {w:?}", a[j], b[j], t.show());
        }
        cover("label-statistics");
    }
    // naive Bayes trained on either form gives the same fitted model
    let (na, nb) = (GaussianNB::init().produce(&de, &w), GaussianNB::init().produce(&sp, &w));
    let (ja, jb) = (serde_json::to_value(&na).unwrap(), serde_json::to_value(&nb).unwrap());
    let s2 = (0..d).map(sc).fold(1.0f64, f64::max).powi(2);
    if (0..n).all(|i| w[i] > 1e-6) {
        ensure!("model-nb", json_close(&ja, &jb, 1e-8, s2), "naive Bayes models differ: {ja} vs {jb}; data {} w {w:?}", t.show());
        cover("model-nb");
    }
    // trees: same bins, hence splits of equal quality; equal splits give equal leaves
    for crit in [Criterion::Entropy, Criterion::Edge, Criterion::Gini, Criterion::Twoing] {
        let ba = DecisionTreeBuilder::new(&de).max_depth(1).criterion(crit).build();
        let bb = DecisionTreeBuilder::new(&sp).max_depth(1).criterion(crit).build();
        let (ia, ib) = (ba.info(), bb.info());
        ensure!("bins", format!("{ia:?}") == format!("{ib:?}"), "tree learners differ: {ia:?} vs {ib:?}; data {}", t.show());
        let (fa, fb) = (ba.produce(&de, &w), bb.produce(&sp, &w));
        // each model must answer the same on either storage form
        for i in 0..n {
            ensure!("model-prediction", fa.confidence(&de, i) == fa.confidence(&sp, i) && fb.confidence(&de, i) == fb.confidence(&sp, i), "{crit:?}: the same tree answers differently on row {i} of the two forms; data {}", t.show());
        }
        let q = |f: &DecisionTreeClassifier| crate::tree::partition_score(&t, &w, crit, &(0..n).map(|i| f.confidence(&de, i)).collect::<Vec<_>>(), &crate::tree::parse(f));
        if let (Some(qa), Some(qb)) = (q(&fa), q(&fb)) {
            ensure!("model-tree", close(qa, qb, 1e-9, 1.0), "{crit:?}: split quality {qa} on dense, {qb} on sparse; data {} w {w:?}", t.show());
            cover("model-tree");
        }
    }
    Ok(())
}

pub fn json_close(a: &serde_json::Value, b: &serde_json::Value, tol: f64, scale: f64) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => close(x.as_f64().unwrap(), y.as_f64().unwrap(), tol, scale),
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| json_close(p, q, tol, scale)),
        (Object(x), Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| json_close(p, q, tol, scale))),
        _ => a == b,
    }
}

fn fmt_num(r: &mut Rng, v: f64) -> String {
    match r.below(4) {
        0 => format!("{v:e}"),
        1 if v >= 0.0 => format!("+{v}"),
        2 => format!("{v:?}"),
        _ => format!("{v}"),
    }
}

fn check_table(t: &Table, s: &Sample, what: &str, names: &[String], cols: &[Vec<f64>], y: &[f64]) -> R {
    let (n, d) = (y.len(), names.len());
    ensure!("load-shape", s.shape() == (n, d), "{what}: shape {:?}, expected {:?}; {}", s.shape(), (n, d), t.show());
    ensure!("load-labels", s.target() == y, "{what}: labels {:?}, expected {y:?}", s.target());
    ensure!("load-columns", s.features().len() == d, "{what}: {} columns, expected {d}", s.features().len());
    for j in 0..d {
        ensure!("load-names", s.features()[j].name() == names[j], "{what}: column {j} is called {:?}, expected {:?}", s.features()[j].name(), names[j]);
        let f = &s[names[j].as_str()];
        ensure!("lookup-name", f.name() == names[j], "{what}: lookup of {:?} returns column {:?}", names[j], f.name());
        for i in 0..n {
            ensure!("load-cells", s.features()[j][i] == cols[j][i], "{what}: cell ({i},{j}) is {}, expected {}", s.features()[j][i], cols[j][i]);
            ensure!("lookup-cells", f[i] == cols[j][i], "{what}: cell {i} of column {:?} by name is {}, expected {}", names[j], f[i], cols[j][i]);
        }
    }
    for i in 0..n {
        let (x, yy) = s.at(i);
        let row: Vec<f64> = (0..d).map(|j| cols[j][i]).collect();
        ensure!("load-rows", x == row && yy == y[i], "{what}: row {i} is {x:?}/{yy}, expected {row:?}/{}", y[i]);
    }
    Ok(())
}

pub fn d03(r: &mut Rng, _c: u64) -> R {
    let n = r.range(1, 9);
    let d = r.range(1, 5);
    let t = table(r, n, d);
    let kind = r.below(3);
    let mut names: Vec<String>;
    let mut sample;
    match kind {
        0 => { // CSV
            let header = r.chance(0.5);
            let pos = r.below(d + 1); // label column position among d+1 columns
            let mut cols = t.cols.clone();
            cols.insert(pos, t.y.clone());
            names = if header { (0..d + 1).map(|j| match r.below(3) { 0 => format!("col{j}"), 1 => format!("x {j}"), _ => format!("{}", 100 + j) }).collect() }
                    else { (1..=d + 1).map(|j| format!("Feat. [{j}]")).collect() };
            let mut text = String::new();
            if header { text.push_str(&names.join(",")); text.push('\n'); }
            for i in 0..n {
                let cells: Vec<String> = (0..d + 1).map(|j| {
                    let x = fmt_num(r, cols[j][i]);
                    match r.below(5) { 0 => format!(" {x}"), 1 => format!("{x} "), _ => x }
                }).collect();
                text.push_str(&cells.join(","));
                if i + 1 < n || r.chance(0.7) { text.push('\n'); }
            }
            let p = scratch_file("csv");
            std::fs::File::create(&p).unwrap().write_all(text.as_bytes()).unwrap();
            let label = names.remove(pos);
            sample = SampleReader::default().file(p.to_str().unwrap()).has_header(header).target_feature(label.as_str()).read().unwrap();
            let _ = std::fs::remove_file(&p);
            check_table(&t, &sample, &format!("csv (header={header}, label column {pos})"), &names, &t.cols, &t.y)?;
            cover("csv");
        }
        1 => { // SVMlight, possibly with a column nobody mentions
            let mut t2 = t.clone();
            let gap = if r.chance(0.4) { Some(r.below(d)) } else { None };
            if let Some(g) = gap { for i in 0..n { t2.present[g][i] = false; t2.cols[g][i] = 0.0; } }
            let p = scratch_file(*r.pick(&["txt", "svmlight", "dat"]));
            let mut text = String::new();
            for i in 0..n {
                text.push_str(&fmt_num(r, t2.y[i]));
                for j in 0..d { if t2.present[j][i] { text.push_str(&format!("{}{}:{}", if r.chance(0.2) { "  " } else { " " }, j, fmt_num(r, t2.cols[j][i]))); } }
                if i + 1 < n || r.chance(0.7) { text.push('\n'); }
            }
            std::fs::File::create(&p).unwrap().write_all(text.as_bytes()).unwrap();
            sample = SampleReader::<_, &str>::default().file(p.to_str().unwrap()).read().unwrap();
            let _ = std::fs::remove_file(&p);
            let keep: Vec<usize> = (0..d).filter(|j| t2.present[*j].iter().any(|b| *b)).collect();
            names = keep.iter().map(|j| format!("Feat. [{}]", j + 1)).collect();
            let cols: Vec<Vec<f64>> = keep.iter().map(|j| t2.cols[*j].clone()).collect();
            check_table(&t2, &sample, "svmlight", &names, &cols, &t2.y)?;
            cover(if keep.len() < d { "svmlight-gap" } else { "svmlight" });
            if names.is_empty() { return Ok(()); }
        }
        _ => {
            names = (0..d).map(|j| format!("c{}", j)).collect();
            let df = dataframe(&names, &t.cols);
            sample = Sample::from_dataframe(df, Series::new("y", t.y.clone())).unwrap();
            check_table(&t, &sample, "dataframe", &names, &t.cols, &t.y)?;
            cover("dataframe");
        }
    }
    let d = names.len();
    let cols: Vec<Vec<f64>> = (0..d).map(|j| (0..n).map(|i| sample.at(i).0[j]).collect()).collect();
    let y = sample.target().to_vec();
    // renaming: fresh names, a permutation of the old names, or a mixture
    if r.chance(0.6) {
        let new: Vec<String> = match r.below(3) {
            0 => (0..d).map(|j| format!("new-{j}")).collect(),
            1 => { let p = r.perm(d); p.iter().map(|k| names[*k].clone()).collect() }
            _ => (0..d).map(|j| if j % 2 == 0 { format!("z{j}") } else { names[j].clone() }).collect(),
        };
        let old = sample.replace_names(&new);
        ensure!("rename-returns-old", old == names, "renaming returned {old:?}, the old names were {names:?}");
        check_table(&t, &sample, &format!("renamed {names:?} to {new:?}"), &new, &cols, &y)?;
        for o in &names { if !new.contains(o) {
            ensure!("rename-forgets-old", catch(|| { let _ = &sample[o.as_str()]; }).is_err(), "the old name {o:?} still answers after renaming to {new:?}");
        } }
        names = new;
        cover("rename");
    }
    // choosing (another) label column
    if d >= 2 && r.chance(0.7) {
        let k = r.below(d);
        let s2 = sample.clone().set_target(names[k].as_str());
        let mut n2 = names.clone(); let gone = n2.remove(k);
        let mut c2 = cols.clone(); let lab = c2.remove(k);
        check_table(&t, &s2, &format!("set_target({gone:?}) at position {k}"), &n2, &c2, &lab)?;
        ensure!("set-target-removes", catch(|| { let _ = &s2[gone.as_str()]; }).is_err(), "column {gone:?} still answers after becoming the label");
        cover("set_target");
    }
    Ok(())
}

struct Stop(std::cell::Cell<usize>);
impl WeakLearner for Stop {
    type Hypothesis = Tab;
    fn produce(&self, _s: &Sample, _d: &[f64]) -> Tab { self.0.set(self.0.get() + 1); panic!("{}", STOP) }
}
fn starts(k: usize, s: &Sample) -> (usize, Result<(), String>) {
    let wl = Stop(std::cell::Cell::new(0));
    let n = s.shape().0 as f64;
    let res = catch(|| { match k {
        0 => { AdaBoost::init(s).run(&wl); }
        1 => { AdaBoostV::init(s).run(&wl); }
        2 => { MadaBoost::init(s).run(&wl); }
        3 => { SmoothBoost::init(s).gamma(0.3).run(&wl); }
        4 => { GraphSepBoost::init(s).run(&wl); }
        5 => { LPBoost::init(s).tolerance(0.5).run(&wl); }
        6 => { ERLPBoost::init(s).tolerance(0.5).run(&wl); }
        7 => { CERLPBoost::init(s).tolerance(0.5).run(&wl); }
        8 => { MLPBoost::init(s).tolerance(0.5).run(&wl); }
        9 => { SoftBoost::init(s).tolerance(0.5).run(&wl); }
        _ => { TotalBoost::init(s).tolerance(0.5).run(&wl); }
    } });
    let _ = n;
    (wl.0.get(), res)
}

pub fn d04(r: &mut Rng, c: u64) -> R {
    let n = r.range(1, 8);
    let cols = vec![(0..n).map(|i| i as f64 + 1.0).collect::<Vec<f64>>()];
    let kind = r.below(12);
    let mut y: Vec<f64> = match kind {
        0 | 1 => (0..n).map(|_| if r.chance(0.5) { 1.0 } else { -1.0 }).collect(),
        2 => (0..n).map(|_| r.below(2) as f64).collect(),
        3 => (0..n).map(|_| r.below(3) as f64).collect(),
        4 => (0..n).map(|_| r.below(3) as f64 - 1.0).collect(),
        5 => vec![r.below(5) as f64 - 2.0; n],
        6 => (0..n).map(|_| if r.chance(0.5) { 1.0 } else { 1.5 }).collect(),
        7 => { let mut v: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect(); let i = r.below(n); v[i] += *r.pick(&[0.5, 1e-9, -0.25, 0.999999]); v }
        8 => { let (a, b) = (r.below(2_000_000) as f64 - 1e6, r.below(2_000_000) as f64 - 1e6); (0..n).map(|i| if i % 2 == 0 { a } else { b }).collect() }
        9 => (0..n).map(|i| if i % 2 == 0 { 0.5 } else { -0.5 }).collect(),
        10 => (0..n).map(|i| *[-2147483648.0, 2147483647.0].get(i % 2).unwrap()).collect(),
        _ => (0..n).map(|_| if r.chance(0.5) { 7.0 } else { 3.0 }).collect(),
    };
    if r.chance(0.1) && n > 2 { let i = n - 1; y[i] = 9.0; }
    let wrong_len = r.chance(0.15);
    if wrong_len { if r.chance(0.5) { y.push(1.0); } else { y.pop(); } }
    let s = Sample::from_dataframe(dataframe(&["x".to_string()], &cols), Series::new("y", y.clone())).unwrap();
    let mut u = y.clone(); u.sort_by(|a, b| a.partial_cmp(b).unwrap()); u.dedup();
    let valid = y.len() == n && y.iter().all(|v| v.fract() == 0.0) && u.len() == 2;
    let got = catch(|| s.is_valid_binary_instance()).is_ok();
    ensure!("check-iff-binary", got == valid, "labels {y:?} for {n} rows: the check {} but the labels are {}", if got { "accepts" } else { "refuses" }, if valid { "binary" } else { "not binary" });
    cover(if valid { "accepted" } else { "refused" });
    let uu = s.unique_target();
    ensure!("unique-target", uu == u, "distinct labels of {y:?} reported as {uu:?}");
    if y.len() == n || c % 3 == 0 {
        let k = r.below(11);
        // GraphSep etc. must refuse before the weak learner is called once
        let (calls, res) = starts(k, &s);
        if !valid {
            ensure!("refuse-before-training", calls == 0 && res.is_err(), "booster {k} called the weak learner {calls} times on labels {y:?} ({n} rows)");
            cover("booster-refuses");
        } else if u == vec![-1.0, 1.0] {
            ensure!("accept-starts-training", calls == 1, "booster {k} did not start training on labels {y:?}: {res:?}");
            cover("booster-starts");
        }
    }
    Ok(())
}

pub fn d05(r: &mut Rng, c: u64) -> R {
    let n = if c % 20 == 3 { r.range(20, 60) } else { r.range(2, 14) };
    let d = r.range(1, 3);
    let mut cols: Vec<Vec<f64>> = (0..d).map(|_| column(r, n)).collect();
    cols.push((0..n).map(|i| (i + 1) as f64).collect()); // identifies the row
    let mut t = from_cols(r, cols);
    t.y = (0..n).map(|_| r.below(3) as f64 - 1.0).collect();
    let d = t.d;
    let sparse = r.chance(0.5);
    let mut s = t.build(sparse);
    let mut names = t.names.clone();
    if r.chance(0.3) { names = (0..d).map(|j| format!("n{j}")).collect(); s.replace_names(&names); }
    let form = if sparse { "sparse" } else { "dense" };
    let default = r.chance(0.25);
    let ratio = r.f(0.02, 0.98);
    let folds = if default { 5 } else { r.range(1, 14) };
    let train_size = if default { (n as f64 * 0.8) as usize } else { (ratio * n as f64) as usize };
    let test_size = n - train_size;
    let shuffle = r.chance(0.6);
    let seed = r.next() % 1000;
    let build = || {
        let mut cv = CrossValidation::new(&s);
        if !default { cv = cv.train_ratio(ratio).n_folds(folds); }
        if shuffle { cv = cv.seed(seed).shuffle(); }
        cv
    };
    let what = format!("{form} n={n} ratio={} folds={folds} shuffle={shuffle} seed={seed}", if default { 0.8 } else { ratio });
    let got = match catch(|| build().collect::<Vec<_>>()) { Ok(g) => g, Err(e) => return fail("fold-no-panic", format!("{what}: {e}")) };
    ensure!("fold-count", got.len() == folds, "{what}: {} folds", got.len());
    let ids = |s: &Sample, m: usize, part: &str| -> Result<Vec<usize>, Fail> {
        ensure!("part-shape", s.shape().0 == m && s.target().len() == m && s.features().len() == d && s.shape().1 == d, "{what} {part}: shape {:?} with {} labels, {} columns", s.shape(), s.target().len(), s.features().len());
        let mut v = vec![];
        for i in 0..m {
            let (x, y) = s.at(i);
            let id = x[d - 1];
            ensure!("row-id", id.fract() == 0.0 && id >= 1.0 && id <= n as f64, "{what} {part}: row {i} is {x:?}, no such row in the dataset");
            let k = id as usize - 1;
            let want: Vec<f64> = (0..d).map(|j| t.cols[j][k]).collect();
            ensure!("row-values", x == want && y == t.y[k], "{what} {part}: row {i} is {x:?} label {y}, the original row {k} is {want:?} label {}", t.y[k]);
            for j in 0..d {
                ensure!("row-names", s.features()[j].name() == names[j], "{what} {part}: column {j} is called {:?} instead of {:?}", s.features()[j].name(), names[j]);
                ensure!("row-lookup", s[names[j].as_str()][i] == want[j], "{what} {part}: lookup of {:?} at row {i} gives {}", names[j], s[names[j].as_str()][i]);
            }
            v.push(k);
        }
        for j in 0..d {
            ensure!("part-storage", matches!(s.features()[j], miniboosts::Feature::Sparse(_)) == sparse, "{what} {part}: storage form changed");
            if let miniboosts::Feature::Sparse(f) = &s.features()[j] {
                ensure!("part-length", f.len() + f.zero_counts() == m, "{what} {part}: column {j} holds {} non-zero and {} zero entries for {m} rows", f.len(), f.zero_counts());
            }
            if m > 0 {
                let w = vec![1.0 / m as f64; m];
                let mean: f64 = v.iter().map(|k| t.cols[j][*k] / m as f64).sum();
                let var: f64 = v.iter().map(|k| (t.cols[j][*k] - mean).powi(2) / m as f64).sum();
                let sc = t.cols[j].iter().fold(0.0f64, |a, b| a.max(b.abs()));
                let got = s.weighted_mean_and_variance(&w)[j];
                ensure!("part-statistics", close(got.0, mean, 1e-9, sc) && close(got.1, var, 1e-9, sc * sc), "{what} {part}: statistics of column {j} are {got:?}, the rows give {:?}", (mean, var));
            }
        }
        Ok(v)
    };
    let mut tested = vec![0usize; n];
    let mut order: Vec<Vec<usize>> = vec![];
    for (f, (tr, te)) in got.iter().enumerate() {
        let m = te.shape().0;
        ensure!("sizes-add-up", tr.shape().0 + m == n, "{what} fold {f}: {} + {m} rows", tr.shape().0);
        let a = ids(tr, n - m, &format!("fold {f} train"))?;
        let b = ids(te, m, &format!("fold {f} test"))?;
        let mut all: Vec<usize> = a.iter().chain(&b).copied().collect(); all.sort_unstable();
        ensure!("partition", all == (0..n).collect::<Vec<_>>(), "{what} fold {f}: train {a:?} test {b:?}");
        for k in &b { tested[*k] += 1; }
        let want_m = ((f + 1) * test_size).min(n) - (f * test_size).min(n);
        ensure!("test-size", m == want_m, "{what} fold {f}: test part has {m} rows, expected {want_m}");
        if !shuffle {
            let st = (f * test_size).min(n);
            ensure!("unshuffled-order", b == (st..st + m).collect::<Vec<_>>() && a == (0..st).chain(st + m..n).collect::<Vec<_>>(), "{what} fold {f}: rows out of order: train {a:?} test {b:?}");
        }
        order.push(b);
    }
    ensure!("test-disjoint", tested.iter().all(|k| *k <= 1), "{what}: rows tested {tested:?} times");
    if folds * test_size >= n { ensure!("test-cover", tested.iter().all(|k| *k == 1), "{what}: rows tested {tested:?} times"); cover("all-tested"); }
    cover(form);
    if shuffle {
        let again = build().map(|(_, te)| (0..te.shape().0).map(|i| te.at(i).0[d - 1] as usize - 1).collect::<Vec<_>>()).collect::<Vec<_>>();
        ensure!("shuffle-deterministic", again == order, "{what}: second pass gives another order");
        if n >= 12 && folds * test_size >= n && c % 5 == 0 {
            let flat = |sd: u64| CrossValidation::new(&s).train_ratio(ratio).n_folds(folds).seed(sd).shuffle().flat_map(|(_, te)| (0..te.shape().0).map(|i| te.at(i).0[d - 1] as usize).collect::<Vec<_>>()).collect::<Vec<_>>();
            let base = flat(1);
            ensure!("shuffle-uses-seed", (2..6).any(|k| flat(k) != base), "n={n}: seeds 1..5 all give the same order {base:?}");
            ensure!("shuffle-shuffles", (1..6).any(|k| flat(k) != (1..=n).collect::<Vec<_>>()), "n={n}: no seed in 1..5 changes the order");
            cover("seed");
        }
    }
    Ok(())
}

pub fn e01(r: &mut Rng, _c: u64) -> R {
    let n = r.range(1, 6);
    let k = r.range(1, 7);
    let t = table(r, n, 1);
    let s = t.dense();
    let mut w: Vec<f64> = (0..k).map(|_| match r.below(6) { 0 => 0.0, 1 => -r.f(0.0, 2.0), 2 => r.f(0.0, 1e-8), 3 => r.f(0.0, 1e6), _ => r.f(0.0, 2.0) }).collect();
    if w.iter().all(|x| *x == 0.0) { w[0] = 0.5; }
    let members: Vec<Vec<f64>> = (0..k).map(|_| (0..n).map(|_| r.f(-1.0, 1.0)).collect()).collect();
    let hs: Vec<Tab> = members.iter().enumerate().map(|(i, v)| Tab::new(i, v.clone())).collect();
    let rs: Vec<RTab> = members.iter().enumerate().map(|(i, v)| RTab::new(i, v.clone())).collect();
    let f = WeightedMajority::from_slices(&w, &hs);
    let keep: Vec<usize> = (0..k).filter(|i| w[*i] != 0.0).collect();
    let z: f64 = keep.iter().map(|i| w[*i].abs()).sum();
    ensure!("members-kept", f.hypotheses.iter().map(|h| h.id).collect::<Vec<_>>() == keep && f.weights.len() == keep.len(), "weights {w:?}: kept members {:?}, expected {keep:?}", f.hypotheses.iter().map(|h| h.id).collect::<Vec<_>>());
    for (a, i) in f.weights.iter().zip(&keep) { ensure!("weights-scaled", close(*a, w[*i] / z, 1e-12, 1e-12), "weights {w:?} became {:?}", f.weights); }
    ensure!("weights-sum", close(f.weights.iter().map(|x| x.abs()).sum::<f64>(), 1.0, 1e-12, 1.0), "weights {:?} do not sum to one", f.weights);
    let g = WeightedMajority::from_slices(&w, &rs);
    for i in 0..n {
        let want: f64 = f.weights.iter().zip(&keep).map(|(a, k)| a * members[*k][i]).sum();
        let got = f.confidence(&s, i);
        ensure!("confidence", close(got, want, 1e-12, 1.0), "row {i}: confidence {got}, weighted sum {want}; weights {:?}", f.weights);
        let got = Regressor::predict(&g, &s, i);
        ensure!("regression-value", close(got, want, 1e-12, 1.0), "row {i}: value {got}, weighted sum {want}");
    }
    cover("from_slices");
    // push / normalize / decompose
    let mut p: WeightedMajority<Tab> = WeightedMajority { weights: vec![], hypotheses: vec![] };
    for i in 0..k { p.push(w[i], hs[i].clone()); }
    ensure!("push-appends", p.weights == w && p.hypotheses.iter().map(|h| h.id).collect::<Vec<_>>() == (0..k).collect::<Vec<_>>(), "pushing {w:?} gave {:?}", p.weights);
    for i in 0..n {
        let want: f64 = (0..k).map(|j| w[j] * members[j][i]).sum();
        let sc: f64 = w.iter().map(|x| x.abs()).sum();
        ensure!("confidence", close(p.confidence(&s, i), want, 1e-12, sc), "row {i}: unnormalised confidence {}, weighted sum {want}", p.confidence(&s, i));
    }
    p.normalize();
    let z: f64 = w.iter().map(|x| x.abs()).sum();
    for j in 0..k { ensure!("normalize", close(p.weights[j], w[j] / z, 1e-12, 1e-12), "normalising {w:?} gave {:?}", p.weights); }
    let (a, b) = p.clone().decompose();
    ensure!("decompose", a == p.weights && b.iter().map(|h| h.id).collect::<Vec<_>>() == (0..k).collect::<Vec<_>>(), "decompose changed the parts");
    cover("push-normalize");
    Ok(())
}

fn sign_rule<H: Classifier>(what: &str, h: &H, s: &Sample) -> R {
    let n = s.shape().0;
    let ca = h.confidence_all(s);
    let pa = h.predict_all(s);
    ensure!("batch-length", ca.len() == n && pa.len() == n, "{what}: {} confidences, {} labels for {n} rows", ca.len(), pa.len());
    for i in 0..n {
        let c = h.confidence(s, i);
        let p = h.predict(s, i);
        ensure!("sign-rule", p == if c >= 0.0 { 1 } else { -1 }, "{what}: row {i} confidence {c} label {p}");
        ensure!("batch-confidence", ca[i] == c || (ca[i].is_nan() && c.is_nan()), "{what}: row {i}: batch confidence {} single {c}", ca[i]);
        ensure!("batch-label", pa[i] == p, "{what}: row {i}: batch label {} single {p}", pa[i]);
        if c == 0.0 { cover("zero-confidence"); }
    }
    cover(what);
    Ok(())
}

pub fn e02(r: &mut Rng, c: u64) -> R {
    let n = r.range(2, 10);
    let d = r.range(1, 3);
    let mut cols: Vec<Vec<f64>> = (0..d).map(|_| (0..n).map(|_| r.f(-2.0, 2.0)).collect()).collect();
    if r.chance(0.5) { for v in cols[0].iter_mut() { *v = (*v * 2.0).round(); } if cols[0].iter().all(|v| *v == 0.0) { cols[0][0] = 1.0; } }
    let t = from_cols(r, cols);
    let s = t.build(r.chance(0.5));
    let h = Tab::new(0, (0..n).map(|_| *r.pick(&[0.0, -0.0, 1.0, -1.0, 1e-300, -1e-300, 0.3, -0.3])).collect());
    sign_rule("table", &h, &s)?;
    let hs = hyps(r, n, 3);
    let w = [0.25, -0.25, 0.5];
    sign_rule("weighted majority", &WeightedMajority { weights: w.to_vec(), hypotheses: vec![h.clone(), h.clone(), hs[0].clone()] }, &s)?;
    sign_rule("naive aggregation", &miniboosts::NaiveAggregation::new(hs.clone(), &s), &s)?;
    let w = dist(r, n);
    let tree = DecisionTreeBuilder::new(&s).max_depth(r.range(1, 3)).criterion(*r.pick(&[Criterion::Entropy, Criterion::Edge, Criterion::Gini])).build().produce(&s, &w);
    sign_rule("decision tree", &tree, &s)?;
    // the same model on another dataset with the same columns
    let mut other = t.clone();
    let m = r.range(1, 5);
    other.n = m; other.cols = (0..d).map(|_| (0..m).map(|_| r.f(-2.0, 2.0)).collect()).collect(); other.present = vec![vec![true; m]; d]; other.y = vec![1.0; m];
    sign_rule("decision tree (other data)", &tree, &other.dense())?;
    let uni = vec![1.0 / n as f64; n];
    let nb = GaussianNB::init().produce(&s, &uni);
    sign_rule("naive Bayes", &nb, &s)?;
    let bad = BadBaseLearnerBuilder::new(&s).build().produce(&s, &w);
    sign_rule("bad classifier", &bad, &s)?;
    // regressors: batch = pointwise
    let rt = RTab::new(0, (0..n).map(|_| r.f(-3.0, 3.0)).collect());
    let wm = WeightedMajority { weights: vec![2.0, -0.5], hypotheses: vec![rt.clone(), rt.clone()] };
    for i in 0..n {
        let (a, b) = (Regressor::predict_all(&rt, &s), Regressor::predict_all(&wm, &s));
        ensure!("batch-length", a.len() == n && b.len() == n, "regressor batch has wrong length");
        ensure!("batch-regression", a[i] == Regressor::predict(&rt, &s, i) && b[i] == Regressor::predict(&wm, &s, i), "regressor batch differs at row {i}");
    }
    if c % 10 == 0 {
        let nn = NeuralNetwork::init(&s).append(2, Activation::Sigmoid(1.0)).append(*r.pick(&[1, 2]), Activation::Sigmoid(0.5)).n_epoch(1).n_iter(2).minibatch_size(1);
        sign_rule("neural network", &nn.produce(&s, &uni), &s)?;
    }
    Ok(())
}
