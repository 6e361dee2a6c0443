//! Reading serialised trees and the split criteria as mathematical definitions.
use crate::gen::*;
use miniboosts::prelude::*;
use serde_json::Value;

#[derive(Debug, Clone)]
pub enum T { Leaf(f64), Branch { feature: String, thr: f64, l: Box<T>, r: Box<T> } }

fn node(v: &Value, leaf_key: &str) -> T {
    if let Some(b) = v.get("Branch") {
        T::Branch {
            feature: b["rule"]["feature"].as_str().unwrap().to_string(),
            thr: b["rule"]["threshold"].as_f64().unwrap(),
            l: Box::new(node(&b["left"], leaf_key)), r: Box::new(node(&b["right"], leaf_key)),
        }
    } else { T::Leaf(v["Leaf"][leaf_key].as_f64().unwrap()) }
}
pub fn parse(f: &DecisionTreeClassifier) -> T { node(&serde_json::to_value(f).unwrap()["root"], "confidence") }
pub fn parse_reg(f: &RegressionTreeRegressor) -> T { node(&serde_json::to_value(f).unwrap()["root"], "prediction") }
impl T {
    pub fn depth(&self) -> usize { match self { T::Leaf(_) => 0, T::Branch { l, r, .. } => 1 + l.depth().max(r.depth()) } }
    pub fn eval(&self, get: &dyn Fn(&str) -> f64) -> f64 {
        match self { T::Leaf(c) => *c, T::Branch { feature, thr, l, r } => if get(feature) < *thr { l.eval(get) } else { r.eval(get) } }
    }
}

fn by_label(y: &[f64], w: &[f64], idx: &[usize]) -> Vec<(i64, f64)> {
    let mut m = std::collections::BTreeMap::new();
    for &i in idx { *m.entry(y[i] as i64).or_insert(0.0) += w[i]; }
    m.into_iter().collect()
}
fn entropy(y: &[f64], w: &[f64], idx: &[usize]) -> f64 {
    let m = by_label(y, w, idx); let t: f64 = m.iter().map(|x| x.1).sum();
    if t <= 0.0 { return 0.0; }
    m.iter().map(|x| { let p = x.1 / t; if p <= 0.0 { 0.0 } else { -p * p.ln() } }).sum()
}
fn gini(y: &[f64], w: &[f64], idx: &[usize]) -> f64 {
    let m = by_label(y, w, idx); let t: f64 = m.iter().map(|x| x.1).sum();
    if t <= 0.0 { return 0.0; }
    1.0 - m.iter().map(|x| (x.1 / t).powi(2)).sum::<f64>()
}
/// The quality of splitting `l` from `r` (larger is better) and of not splitting.
pub fn quality(crit: Criterion, y: &[f64], w: &[f64], l: &[usize], r: &[usize]) -> f64 {
    let wl: f64 = l.iter().map(|i| w[*i]).sum(); let wr: f64 = r.iter().map(|i| w[*i]).sum(); let t = wl + wr;
    match crit {
        Criterion::Entropy => -(wl / t * entropy(y, w, l) + wr / t * entropy(y, w, r)),
        Criterion::Gini => -(wl / t * gini(y, w, l) + wr / t * gini(y, w, r)),
        Criterion::Edge => {
            let a: f64 = l.iter().map(|i| w[*i] * y[*i]).sum::<f64>() / t; let b: f64 = r.iter().map(|i| w[*i] * y[*i]).sum::<f64>() / t;
            (b - a).abs().max((a + b).abs() * if l.is_empty() || r.is_empty() { 1.0 } else { 0.0 })
        }
        Criterion::Twoing => {
            if wl <= 0.0 || wr <= 0.0 { return 0.0; }
            let (wl, wr, t) = (wl / t, wr / t, 1.0);
            let k = wl + wr; let _ = k;
            let (ml, mr) = (by_label(y, w, l), by_label(y, w, r));
            let tot: f64 = l.iter().chain(r).map(|i| w[*i]).sum();
            let mut labels: Vec<i64> = ml.iter().chain(&mr).map(|x| x.0).collect(); labels.sort_unstable(); labels.dedup();
            let g = |m: &Vec<(i64, f64)>, k: i64| m.iter().find(|x| x.0 == k).map(|x| x.1 / tot).unwrap_or(0.0);
            let s: f64 = labels.iter().map(|k| (g(&ml, *k) / wl - g(&mr, *k) / wr).abs()).sum();
            s * s * wl * wr / (4.0 * t * t)
        }
    }
}
pub fn no_split(crit: Criterion, y: &[f64], w: &[f64], all: &[usize]) -> f64 {
    match crit { Criterion::Twoing => 0.0, _ => quality(crit, y, w, all, &[]) }
}
pub fn partition_score(t: &Table, w: &[f64], crit: Criterion, _conf: &[f64], tree: &T) -> Option<f64> {
    let idx: Vec<usize> = (0..t.n).filter(|&i| w[i] > 0.0).collect();
    match tree {
        T::Leaf(_) => Some(no_split(crit, &t.y, w, &idx)),
        T::Branch { feature, thr, .. } => {
            let j = t.names.iter().position(|n| n == feature)?;
            let (l, r): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&i| t.cols[j][i] < *thr);
            Some(quality(crit, &t.y, w, &l, &r))
        }
    }
}
