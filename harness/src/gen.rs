//! Seeded generators and small utilities shared by every executable contract.
use miniboosts::prelude::*;
use polars::prelude::*;
use std::io::Write;
use std::sync::Arc;
use std::cell::RefCell;

#[derive(Debug, Clone)]
pub struct Fail { pub clause: String, pub detail: String }
pub type R = Result<(), Fail>;
pub fn fail<T>(clause: &str, detail: String) -> Result<T, Fail> { Err(Fail { clause: clause.to_string(), detail }) }
#[macro_export]
macro_rules! ensure {
    ($clause:expr, $cond:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::gen::Fail { clause: $clause.to_string(), detail: format!($($arg)*) }); }
    };
}

thread_local! { pub static COVER: RefCell<std::collections::BTreeMap<String, u64>> = const { RefCell::new(std::collections::BTreeMap::new()) }; }
/// Count that a clause (or an interesting situation) was actually exercised.
pub fn cover(name: &str) { COVER.with(|c| *c.borrow_mut().entry(name.to_string()).or_insert(0) += 1); }

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9E3779B97F4A7C15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn f(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.u() }
    pub fn chance(&mut self, p: f64) -> bool { self.u() < p }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() { let j = self.below(i + 1); v.swap(i, j); }
        v
    }
}

/// |a-b| small relative to the magnitudes involved.
pub fn close(a: f64, b: f64, tol: f64, scale: f64) -> bool {
    if a == b { return true; }
    if !a.is_finite() || !b.is_finite() { return a.is_nan() && b.is_nan(); }
    (a - b).abs() <= tol * (1.0f64.min(scale).max(scale) + a.abs().max(b.abs()))
}
pub fn close_vec(a: &[f64], b: &[f64], tol: f64, scale: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, tol, scale))
}

/// A table of values: the mathematical content of a dataset.
#[derive(Clone, Debug)]
pub struct Table {
    pub n: usize, pub d: usize,
    /// cols[j][i]
    pub cols: Vec<Vec<f64>>,
    /// present[j][i]: stored explicitly in the sparse form (non-zeros always are)
    pub present: Vec<Vec<bool>>,
    pub names: Vec<String>,
    pub y: Vec<f64>,
}

pub fn column(r: &mut Rng, n: usize) -> Vec<f64> {
    let kind = r.below(10);
    (0..n).map(|_| match kind {
        0 => r.below(4) as f64,
        1 => if r.chance(0.6) { 0.0 } else { r.f(-3.0, 3.0) },
        2 => 2.5,
        3 => r.f(-1.0, 1.0),
        4 => r.f(-1.0e6, 1.0e6),
        5 => r.below(7) as f64 - 3.0,
        6 => r.f(0.0, 1.0e-6),
        7 => if r.chance(0.5) { 0.0 } else { 1.0 },
        8 => if r.chance(0.8) { 0.0 } else { r.below(5) as f64 - 2.0 },
        _ => r.below(5) as f64 * 0.25 + 0.125,
    }).collect()
}

pub fn table(r: &mut Rng, n: usize, d: usize) -> Table {
    let cols: Vec<Vec<f64>> = (0..d).map(|_| column(r, n)).collect();
    from_cols(r, cols)
}
pub fn from_cols(r: &mut Rng, cols: Vec<Vec<f64>>) -> Table {
    let n = cols[0].len();
    let d = cols.len();
    let mut present: Vec<Vec<bool>> = cols.iter().map(|c| c.iter().map(|v| *v != 0.0).collect()).collect();
    for j in 0..d {
        // explicit zeros
        for i in 0..n { if !present[j][i] && r.chance(0.2) { present[j][i] = true; } }
        // columns without any stored entry are dropped by the reader: keep one explicit entry
        if !present[j].iter().any(|p| *p) { let i = r.below(n); present[j][i] = true; }
    }
    let y = labels(r, n);
    let names = (0..d).map(|j| format!("Feat. [{}]", j + 1)).collect();
    Table { n, d, cols, present, names, y }
}

/// +1/-1 labels with both classes present (n >= 2)
pub fn labels(r: &mut Rng, n: usize) -> Vec<f64> {
    let p = *r.pick(&[0.5, 0.5, 0.2, 0.8]);
    let mut y: Vec<f64> = (0..n).map(|_| if r.chance(p) { 1.0 } else { -1.0 }).collect();
    if n >= 2 {
        if y.iter().all(|v| *v > 0.0) { let i = r.below(n); y[i] = -1.0; }
        if y.iter().all(|v| *v < 0.0) { let i = r.below(n); y[i] = 1.0; }
    }
    y
}

pub fn scratch() -> std::path::PathBuf {
    let p = std::env::temp_dir().join(format!("mbharness-{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p
}
pub fn scratch_file(ext: &str) -> std::path::PathBuf {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static K: AtomicUsize = AtomicUsize::new(0);
    scratch().join(format!("f{}.{}", K.fetch_add(1, Ordering::Relaxed), ext))
}

pub fn dataframe(names: &[String], cols: &[Vec<f64>]) -> DataFrame {
    let s: Vec<Series> = names.iter().zip(cols).map(|(n, c)| Series::new(n, c.clone())).collect();
    DataFrame::new(s).unwrap()
}

impl Table {
    pub fn dense(&self) -> Sample {
        Sample::from_dataframe(dataframe(&self.names, &self.cols), Series::new("class", self.y.clone())).unwrap()
    }
    pub fn svmlight(&self) -> String {
        let mut out = String::new();
        for i in 0..self.n {
            out.push_str(&format!("{}", self.y[i]));
            for j in 0..self.d {
                if self.present[j][i] { out.push_str(&format!(" {}:{}", j, self.cols[j][i])); }
            }
            out.push('\n');
        }
        out
    }
    pub fn sparse(&self) -> Sample {
        let p = scratch_file("svmlight");
        std::fs::File::create(&p).unwrap().write_all(self.svmlight().as_bytes()).unwrap();
        let s = SampleReader::<_, &str>::default().file(p.to_str().unwrap()).read().unwrap();
        let _ = std::fs::remove_file(&p);
        s
    }
    pub fn build(&self, sparse: bool) -> Sample { if sparse { self.sparse() } else { self.dense() } }
    pub fn show(&self) -> String {
        let rows: Vec<String> = (0..self.n).map(|i| {
            let xs: Vec<String> = (0..self.d).map(|j| format!("{}{}", self.cols[j][i], if self.present[j][i] { "" } else { "~" })).collect();
            format!("[{} | y={}]", xs.join(", "), self.y[i])
        }).collect();
        rows.join(" ")
    }
}

/// A probability vector over n rows.
pub fn dist(r: &mut Rng, n: usize) -> Vec<f64> {
    match r.below(5) {
        0 => vec![1.0 / n as f64; n],
        1 => { let mut v = vec![0.0; n]; let i = r.below(n); v[i] = 1.0; v }
        2 => { // with zero entries
            let mut v: Vec<f64> = (0..n).map(|_| if r.chance(0.4) { 0.0 } else { r.f(0.1, 1.0) }).collect();
            if v.iter().sum::<f64>() == 0.0 { let i = r.below(n); v[i] = 1.0; }
            norm(v)
        }
        3 => { let v: Vec<f64> = (0..n).map(|_| (r.f(-6.0, 6.0)).exp()).collect(); norm(v) }
        _ => { let v: Vec<f64> = (0..n).map(|_| r.f(0.1, 1.0)).collect(); norm(v) }
    }
}
pub fn norm(mut v: Vec<f64>) -> Vec<f64> {
    let s: f64 = v.iter().sum();
    for x in v.iter_mut() { *x /= s; if *x > 1.0 { *x = 1.0; } }
    v
}

/// A hypothesis given by its table of confidences (row index -> confidence).
#[derive(Clone, Debug)]
pub struct Tab { pub id: usize, pub v: Arc<Vec<f64>> }
impl PartialEq for Tab { fn eq(&self, o: &Self) -> bool { self.id == o.id } }
impl Tab { pub fn new(id: usize, v: Vec<f64>) -> Self { Tab { id, v: Arc::new(v) } } }
impl Classifier for Tab {
    fn confidence(&self, _s: &Sample, row: usize) -> f64 { self.v[row % self.v.len()] }
}
/// the same as a regressor
#[derive(Clone, Debug)]
pub struct RTab { pub id: usize, pub v: Arc<Vec<f64>> }
impl RTab { pub fn new(id: usize, v: Vec<f64>) -> Self { RTab { id, v: Arc::new(v) } } }
impl Regressor for RTab {
    fn predict(&self, _s: &Sample, row: usize) -> f64 { self.v[row % self.v.len()] }
}

/// A weak learner that replays a list of hypotheses and records the distributions it is given.
pub struct Rec<H> { pub pool: Vec<H>, pub policy: Policy, pub log: RefCell<Vec<Vec<f64>>>, pub given: RefCell<Vec<usize>>, pub limit: usize }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Policy { Sequence, Best, Mixed }
pub const STOP: &str = "@@harness-limit@@";
impl<H> Rec<H> {
    pub fn new(pool: Vec<H>, policy: Policy) -> Self { Rec { pool, policy, log: RefCell::new(vec![]), given: RefCell::new(vec![]), limit: 200_000 } }
}
impl WeakLearner for Rec<Tab> {
    type Hypothesis = Tab;
    fn name(&self) -> &str { "recorder" }
    fn produce(&self, s: &Sample, dist: &[f64]) -> Tab {
        let t = self.log.borrow().len();
        if t >= self.limit { panic!("{}", STOP); }
        self.log.borrow_mut().push(dist.to_vec());
        let best = || {
            let mut b = 0; let mut be = f64::NEG_INFINITY;
            for (k, h) in self.pool.iter().enumerate() {
                let e: f64 = dist.iter().zip(s.target()).enumerate().map(|(i, (d, y))| d * y * h.confidence(s, i)).sum();
                // deterministic under tiny numerical noise
                if e > be + 1e-9 { b = k; be = e; }
            }
            b
        };
        let k = match self.policy {
            Policy::Sequence => t % self.pool.len(),
            Policy::Best => best(),
            Policy::Mixed => if t % 3 == 2 { (t / 3) % self.pool.len() } else { best() },
        };
        self.given.borrow_mut().push(k);
        self.pool[k].clone()
    }
}
impl WeakLearner for Rec<RTab> {
    type Hypothesis = RTab;
    fn produce(&self, _s: &Sample, dist: &[f64]) -> RTab {
        let t = self.log.borrow().len();
        if t >= self.limit { panic!("{}", STOP); }
        self.log.borrow_mut().push(dist.to_vec());
        let k = t % self.pool.len();
        self.given.borrow_mut().push(k);
        self.pool[k].clone()
    }
}

/// random confidence tables
pub fn hyps(r: &mut Rng, n: usize, k: usize) -> Vec<Tab> {
    (0..k).map(|id| {
        let kind = r.below(6);
        let v = (0..n).map(|_| match kind {
            0 | 1 => if r.chance(0.5) { 1.0 } else { -1.0 },
            2 => r.f(-1.0, 1.0),
            3 => *r.pick(&[-1.0, 0.0, 1.0, 0.5, -0.5]),
            4 => r.f(-0.2, 0.2),
            _ => if r.chance(0.7) { r.f(0.0, 1.0) } else { r.f(-1.0, 0.0) },
        }).collect();
        Tab::new(id, v)
    }).collect()
}
pub fn edge(d: &[f64], y: &[f64], h: &[f64]) -> f64 { d.iter().zip(y).zip(h).map(|((d, y), h)| d * y * h).sum() }

/// Run `f`, turning a panic into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else { "panic".to_string() }
    })
}
