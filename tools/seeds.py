PRELUDE = r'''
#![allow(unused)]
use miniboosts::prelude::*;
use std::cell::RefCell;
use std::io::Write;
fn scratch(name: &str) -> std::path::PathBuf { std::env::current_dir().unwrap().join(name) }
fn csv(cols: &[&str], rows: &[Vec<f64>]) -> Sample {
    let p = scratch("s.csv");
    let mut t = cols.join(",") + "\n";
    for r in rows { t += &(r.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(",") + "\n"); }
    std::fs::write(&p, t).unwrap();
    SampleReader::default().file(p.clone()).has_header(true).target_feature("y").read().unwrap()
}
fn svm(text: &str) -> Sample {
    let p = scratch("s.svmlight");
    std::fs::write(&p, text).unwrap();
    SampleReader::<_, &str>::default().file(p.clone()).read().unwrap()
}
/// n rows, one column x = 0, 1, 2, ...
fn labels(ys: &[f64]) -> Sample { csv(&["x", "y"], &ys.iter().enumerate().map(|(i, y)| vec![i as f64, *y]).collect::<Vec<_>>()) }
#[derive(Clone, PartialEq, Debug)]
struct H(Vec<f64>);
impl Classifier for H { fn confidence(&self, _s: &Sample, row: usize) -> f64 { self.0[row] } }
#[derive(Clone, PartialEq, Debug)]
struct R(Vec<f64>);
impl Regressor for R { fn predict(&self, _s: &Sample, row: usize) -> f64 { self.0[row] } }
/// returns its hypotheses in turn and writes down every distribution it is shown
struct Turn<T> { hs: Vec<T>, log: RefCell<Vec<Vec<f64>>> }
impl<T: Clone> Turn<T> { fn new(hs: Vec<T>) -> Self { Turn { hs, log: RefCell::new(vec![]) } } }
impl<T: Clone> WeakLearner for Turn<T> {
    type Hypothesis = T;
    fn name(&self) -> &str { "turn" }
    fn produce(&self, _s: &Sample, d: &[f64]) -> T { let k = self.log.borrow().len(); self.log.borrow_mut().push(d.to_vec()); self.hs[k % self.hs.len()].clone() }
}
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs())) }
fn check(ok: bool, what: &str) { if !ok { eprintln!("BROKEN: {what}"); std::process::exit(1); } }
'''
FS = "src/sample/feature_struct.rs"
SS = "src/sample/sample_struct.rs"
SEEDS = [
dict(id="S01", property="D01", needs="a sparse column with a gap of more than 64 consecutive absent rows and a non-zero mean",
 breaks="the absent rows beyond the 64th of a gap drop out of the overall variance of a sparse column",
 edits=[(FS, "            zero_weight += weight[prev..i].iter().sum::<f64>();\n", "            zero_weight += weight[prev..i].iter().take(64).sum::<f64>();\n")],
 demo=r'''
fn main() {
    let n = 201usize; let mut t = String::new();
    for i in 0..n { t += &format!("{} 0:{}{}\n", if i % 2 == 0 { 1 } else { -1 }, 1.0 + i as f64, if i == 100 || i == 3 { " 1:5.0" } else { "" }); }
    let s = svm(&t); let w = vec![1.0 / n as f64; n];
    let mv = s.weighted_mean_and_variance(&w[..]);
    let mean = 10.0 / n as f64; let var = (2.0 * (5.0 - mean).powi(2) + (n - 2) as f64 * mean * mean) / n as f64;
    check(near(mv[1].0, mean), "mean"); check(near(mv[1].1, var), &format!("variance {} expected {}", mv[1].1, var));
}'''),
dict(id="S02", property="D02", needs="a sparse column in which exactly one row is absent",
 breaks="the trees give such a column one bin less than they give the same column stored densely",
 edits=[(FS, "        self.len() < self.n_sample\n", "        self.len() + 1 < self.n_sample\n")],
 demo=r'''
fn main() {
    // values 0 (absent), 1, 2, 3, ... : a threshold between 0 and 1 separates the labels only with enough bins
    let xs = [0.0, 1.0, 8.0, 2.0, 9.0]; let ys = [1.0, -1.0, -1.0, -1.0, -1.0];
    let t: String = (0..5).map(|i| if xs[i] == 0.0 { format!("{}\n", ys[i]) } else { format!("{} 0:{}\n", ys[i], xs[i]) }).collect();
    let s = svm(&t);
    let d = csv(&["x", "y"], &(0..5).map(|i| vec![xs[i], ys[i]]).collect::<Vec<_>>());
    let w = vec![0.2; 5];
    let ts = DecisionTreeBuilder::new(&s).max_depth(1).build(); let td = DecisionTreeBuilder::new(&d).max_depth(1).build();
    let (hs, hd) = (ts.produce(&s, &w), td.produce(&d, &w));
    for i in 0..5 { check(near(hs.confidence(&s, i), hd.confidence(&d, i)), &format!("row {i}: sparse {} dense {}", hs.confidence(&s, i), hd.confidence(&d, i))); }
}'''),
dict(id="S03", property="D04", needs="two labels beyond the range of an 8-bit integer on the same side",
 breaks="a valid binary sample with labels such as 200 and 300 is refused (and 1,2,300,400-style labels are miscounted)",
 edits=[(SS, "            .map(|yi| yi as i32)\n", "            .map(|yi| yi as i8)\n")],
 demo=r'''
fn main() {
    let s = labels(&[200.0, 300.0, 200.0]);
    std::panic::set_hook(Box::new(|_| {}));
    check(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.is_valid_binary_instance())).is_ok(), "labels 200/300 refused");
}'''),
dict(id="S04", property="D05", needs="a split of a sample with sparse columns whose parts differ in size, then a question about absent rows of the test part",
 breaks="sparse columns of the test part believe to have as many rows as the training part",
 edits=[(SS, "                test.features[i].set_n_sample(test_size);\n", "                test.features[i].set_n_sample(train_size);\n")],
 demo=r'''
fn main() {
    let t: String = (0..10).map(|i| format!("{} 0:{} 1:{}\n", if i % 2 == 0 { 1 } else { -1 }, i + 1, 2 * i + 1)).collect();
    let s = svm(&t);
    for (tr, te) in miniboosts::research::CrossValidation::new(&s).n_folds(3).train_ratio(0.7) {
        for (part, n) in [(&tr, tr.shape().0), (&te, te.shape().0)] {
            for f in part.features() { if let miniboosts::Feature::Sparse(f) = f { check(f.len() + f.zero_counts() == n, "rows of a sparse column"); } }
        }
    }
}'''),
dict(id="S05", property="D05", needs="shuffling before folding",
 breaks="some rows occur twice and others never",
 edits=[("src/research/cross_validation.rs", "        self.ix.shuffle(&mut rng);\n", "        self.ix[..self.train_size].shuffle(&mut rng);\n        for i in self.train_size..self.ix.len() { let j = i - self.train_size; self.ix[i] = self.ix[j]; }\n        self.ix[self.train_size..].sort();\n")],
 demo=r'''
fn main() {
    let s = labels(&[1.0, -1.0, 1.0, -1.0, 1.0, -1.0, 1.0, -1.0, 1.0, -1.0]);
    let mut seen = vec![0; 10];
    for (_tr, te) in miniboosts::research::CrossValidation::new(&s).n_folds(5).train_ratio(0.8).shuffle() { for i in 0..te.shape().0 { seen[te.at(i).0[0] as usize] += 1; } }
    check(seen.iter().all(|c| *c == 1), &format!("tested {seen:?}"));
}'''),
dict(id="S06", property="E01", needs="a member of negative weight",
 breaks="weights are divided by their signed sum, so their absolute values no longer sum to one (or the sign flips)",
 edits=[("src/common/utils.rs", "        .map(|it| it.abs())\n", "        .copied()\n")],
 demo=r'''
fn main() {
    let f = WeightedMajority::from_slices(&[3.0, -1.0], &[H(vec![1.0]), H(vec![1.0])]);
    check(near(f.weights[0], 0.75) && near(f.weights[1], -0.25), &format!("{:?}", f.weights));
}'''),
dict(id="S07", property="E02", needs="a confidence of exactly zero",
 breaks="a tied vote is labelled -1 instead of +1",
 edits=[("src/hypothesis/hypothesis_traits.rs", "        if conf >= 0.0 { 1 } else { -1 }\n", "        if conf > 0.0 { 1 } else { -1 }\n")],
 demo=r'''
fn main() { let s = labels(&[1.0, -1.0]); check(H(vec![0.0, 0.0]).predict(&s, 0) == 1, "sign of zero"); }'''),
dict(id="S08", property="A13", needs="the same AdaBoostV object run twice",
 breaks="the smallest edge of the first run leaks into the second",
 edits=[("src/booster/adaboostv/adaboostv_algorithm.rs", "        self.rho = 1.0;\n        self.gamma = 1.0;\n\n", "        self.rho = 1.0;\n\n")],
 demo=r'''
fn main() {
    let s = labels(&[1.0, -1.0, 1.0, -1.0]);
    let hs = vec![H(vec![1.0, -1.0, 1.0, 1.0]), H(vec![1.0, 1.0, -1.0, -0.5]), H(vec![-0.2, -1.0, 1.0, -1.0])];
    let mut b = AdaBoostV::init(&s).tolerance(0.1).force_quit_at(3);
    let w1 = Turn::new(hs.clone()); let f1 = b.run(&w1);
    let w2 = Turn::new(hs); let f2 = b.run(&w2);
    for (a, c) in f1.weights.iter().zip(&f2.weights) { check(near(*a, *c), "weights of the second run"); }
}'''),
dict(id="S09", property="A01", needs="a weak learner that returns a hypothesis wrong on every row (edge -1)",
 breaks="training does not stop with the single inverted member but takes the logarithm of zero",
 edits=[("src/booster/adaboost/adaboost_algorithm.rs", "        if edge.abs() >= 1.0 {\n", "        if edge >= 1.0 {\n")],
 demo=r'''
fn main() {
    let s = labels(&[1.0, -1.0]);
    std::panic::set_hook(Box::new(|_| {}));
    let f = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| AdaBoost::init(&s).force_quit_at(3).run(&Turn::new(vec![H(vec![-1.0, 1.0])]))));
    match f { Ok(f) => check(f.weights.len() == 1 && near(f.weights[0], -1.0), "one inverted member"), Err(_) => check(false, "panic") }
}'''),
dict(id="S10", property="A03", needs="a member whose edge is negative",
 breaks="members worse than guessing are treated as if they were exactly guessing",
 edits=[("src/booster/madaboost/madaboost_algorithm.rs", "        let eps2 = (0.5f64 * eps).sqrt();\n", "        let eps2 = (0.5f64 * eps.min(0.5f64)).sqrt();\n")],
 demo=r'''
fn main() {
    let s = labels(&[1.0, -1.0, 1.0, -1.0]);
    // edge = (1 - 1 - 1 - 1) / 4 = -0.5, then edge > 0
    let hs = vec![H(vec![1.0, 1.0, -1.0, 1.0]), H(vec![1.0, -1.0, 1.0, 1.0])];
    let wl = Turn::new(hs); let f = MadaBoost::init(&s).force_quit_at(2).run(&wl);
    let log = wl.log.borrow();
    let e0 = (0.5f64 * 0.75).sqrt(); let b0 = (e0 / (1.0 - e0)).sqrt();
    let u: Vec<f64> = [1.0, -1.0, -1.0, -1.0].iter().map(|m| b0.powf(*m).min(1.0)).collect(); let z: f64 = u.iter().sum();
    for i in 0..4 { check(near(log[1][i], u[i] / z), &format!("distribution {:?} expected {:?}/{z}", log[1], u)); }
}'''),
dict(id="S11", property="A04", needs="a weak-learner guarantee gamma other than the default",
 breaks="the margin offset stays that of the default gamma",
 edits=[("src/booster/smoothboost/smoothboost_algorithm.rs", "        self.theta();\n", "")],
 demo=r'''
fn main() {
    let s = labels(&[1.0, -1.0, 1.0, -1.0]);
    let wl = Turn::new(vec![H(vec![1.0, -1.0, 1.0, 0.9])]); let g: f64 = 0.21;
    let f = SmoothBoost::init(&s).tolerance(0.3).gamma(g).run(&wl);
    let th = g / (2.0 + g); let mut n = vec![1.0f64; 4];
    for d in wl.log.borrow().iter() {
        let m: Vec<f64> = n.iter().map(|x| if *x <= 0.0 { 1.0 } else { (1.0 - g).powf(x / 2.0) }).collect(); let z: f64 = m.iter().sum();
        for i in 0..4 { check(near(d[i], m[i] / z), "distribution"); }
        for (i, x) in [1.0, 1.0, 1.0, -0.9].iter().enumerate() { n[i] += x - th; }
    }
}'''),
dict(id="S12", property="A05", needs="a row whose prediction pattern contains, but does not equal, that of a positive training row",
 breaks="such rows are answered +1",
 edits=[("src/hypothesis/naive_aggregation.rs", "        if self.prediction.iter().any(|p| p.eq(&bits)) { 1.0 } else { -1.0 }\n", "        if self.prediction.iter().any(|p| p.is_subset(&bits)) { 1.0 } else { -1.0 }\n")],
 demo=r'''
fn main() {
    let s = labels(&[1.0, -1.0, -1.0]);
    let hs = vec![H(vec![1.0, 1.0, -1.0]), H(vec![-1.0, 1.0, -1.0])];
    let f = miniboosts::NaiveAggregation::new(hs, &s);
    check(f.confidence(&s, 0) == 1.0, "row 0"); check(f.confidence(&s, 1) == -1.0, "row 1"); check(f.confidence(&s, 2) == -1.0, "row 2");
}'''),
dict(id="S13", property="A08", needs="a weak learner whose edges are not monotone",
 breaks="the smallest edge seen is replaced by the latest edge, so training does not stop when the tolerance is reached",
 edits=[("src/booster/lpboost/lpboost_algorithm.rs", "        self.gamma_hat = ghat.min(self.gamma_hat);\n", "        self.gamma_hat = ghat;\n")],
 demo=r'''
fn main() {
    let s = labels(&[1.0, 1.0, -1.0, -1.0]);
    use std::ops::ControlFlow;
    // edge 0, then edge 1: the optimum over both members is 0, within 0.1 of the smallest edge
    let wl = Turn::new(vec![H(vec![1.0, -1.0, 1.0, -1.0]), H(vec![-1.0, 1.0, -1.0, 1.0])]);
    let mut b = LPBoost::init(&s).nu(1.0).tolerance(0.1);
    b.preprocess(&wl);
    let f1 = b.boost(&wl, 1); let f2 = b.boost(&wl, 2);
    check(matches!(f1, ControlFlow::Continue(())), "stopped in round 1");
    check(matches!(f2, ControlFlow::Break(_)), "did not stop in round 2");
}'''),
dict(id="S14", property="L02", needs="a capping parameter that is not an integer",
 breaks="the soft margin is that of the integer part of nu",
 edits=[("src/research/objective_functions.rs", "        let unit_weight = 1.0 / self.0;\n", "        let unit_weight = 1.0 / self.0.floor();\n")],
 demo=r'''
use miniboosts::research::ObjectiveFunction;
fn main() {
    let s = labels(&[1.0, 1.0, 1.0, -1.0]);
    let v = miniboosts::SoftMarginObjective::new(2.5).eval(&s, &H(vec![0.1, 0.4, 0.9, -1.0]));
    check(near(v, 0.4 * 0.1 + 0.4 * 0.4 + 0.2 * 0.9), &format!("{v}"));
}'''),
dict(id="S15", property="T02", needs="a row whose feature value equals the threshold",
 breaks="such rows are routed left although they were counted right when the split was chosen",
 edits=[("src/weak_learner/common/split_rule.rs", "        if value < self.threshold.0 { LR::Left } else { LR::Right }\n", "        if value <= self.threshold.0 { LR::Left } else { LR::Right }\n")],
 demo=r'''
fn main() {
    // values 0, 1, 2 and 4 bins-by-value: a boundary lies exactly on a value
    let s = csv(&["x", "y"], &[vec![0.0, 1.0], vec![2.0, -1.0], vec![4.0, -1.0], vec![1.0, 1.0]]);
    let mut b = DecisionTreeBuilder::new(&s).max_depth(1); b.set_nbins("x", 2);
    let h = b.build().produce(&s, &[0.25; 4]);
    for i in 0..4 { check(near(h.confidence(&s, i), s.target()[i]), &format!("row {i}: {}", h.confidence(&s, i))); }
}'''),
dict(id="S16", property="T03", needs="a maximum depth that the data can exhaust",
 breaks="regression trees grow one level more than the maximum depth",
 edits=[("src/weak_learner/regression_tree/regression_tree_algorithm.rs", "        if loss == 0.0 || max_depth <= 1 {\n", "        if loss == 0.0 || max_depth < 1 {\n"),
        ("src/weak_learner/regression_tree/regression_tree_algorithm.rs", "        let ltree = self.full_tree(sample, gradient, hessian, lindices, max_depth-1);\n", "        let max_depth = max_depth - 1;\n        let ltree = self.full_tree(sample, gradient, hessian, lindices, max_depth);\n"),
        ("src/weak_learner/regression_tree/regression_tree_algorithm.rs", "        let rtree = self.full_tree(sample, gradient, hessian, rindices, max_depth-1);\n", "        let rtree = self.full_tree(sample, gradient, hessian, rindices, max_depth);\n")],
 demo=r'''
fn main() {
    let s = csv(&["x", "y"], &(0..8).map(|i| vec![i as f64, [3.0, 1.0, 4.0, 1.5, 9.0, 2.0, 6.0, 5.0][i]]).collect::<Vec<_>>());
    let t = RegressionTreeBuilder::new(&s).max_depth(2).loss(miniboosts::GBMLoss::L2).build();
    let h = t.produce(&s, &[0.0; 8]);
    let mut v: Vec<f64> = (0..8).map(|i| h.predict(&s, i)).collect(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v.dedup();
    check(v.len() <= 2, &format!("{} leaves at two levels", v.len()));
}'''),
dict(id="S17", property="N01", needs="a row so far from both classes that both densities underflow",
 breaks="both posteriors become zero and the last label wins",
 edits=[("src/weak_learner/naive_bayes/nbayes_classifier.rs", "                let prob = prior * (log_cond - log_all).exp();\n", "                let prob = prior * log_cond.exp();\n"),
        ("src/weak_learner/naive_bayes/nbayes_classifier.rs", "        let log_all = self.density.log_probability(sample, row);\n", "")],
 demo=r'''
fn main() {
    let mut rows = vec![]; for i in 0..6 { let e = [-1.0, 0.0, 1.0][i % 3]; rows.push(if i < 3 { vec![e, e, 1.0] } else { vec![100.0 + e, e, -1.0] }); }
    let s = csv(&["a", "b", "y"], &rows); let h = GaussianNB::init().produce(&s, &[1.0 / 6.0; 6]);
    let t = csv(&["a", "b", "y"], &[vec![10.0, 60.0, 1.0], vec![90.0, 60.0, -1.0], vec![0.0, 0.0, 1.0]]);
    for i in 0..3 { check(h.predict(&t, i) as f64 == t.target()[i], &format!("row {i}: {}", h.confidence(&t, i))); }
}'''),
dict(id="S18", property="R01", needs="a logger asked to print only every k-th round",
 breaks="rounds that are not printed are missing from the log file too",
 edits=[("src/research/logger.rs", "            file.write_all(line.as_bytes())\n                .expect(\"Failed to writing {filename:?}\");\n", "            if self.round == usize::MAX || iter % self.round == 0 || iter == 1 || flow.is_break() {\n                file.write_all(line.as_bytes())\n                    .expect(\"Failed to writing {filename:?}\");\n            }\n")],
 demo=r'''
fn main() {
    let s = labels(&[1.0, -1.0, 1.0, -1.0]);
    let hs = vec![H(vec![1.0, -1.0, 1.0, 1.0]), H(vec![1.0, 1.0, 1.0, -1.0])];
    let loss = |s: &Sample, f: &WeightedMajority<H>| (0..s.shape().0).filter(|i| f.predict(s, *i) as f64 != s.target()[*i]).count() as f64 / s.shape().0 as f64;
    let mut lg = miniboosts::research::LoggerBuilder::new().booster(AdaBoost::init(&s).force_quit_at(6)).weak_learner(Turn::new(hs)).train_sample(&s).test_sample(&s)
        .objective_function(miniboosts::ExponentialLoss::new()).loss_function(loss).print_every(4).build();
    let _ = lg.run(scratch("log.csv"));
    let lines = std::fs::read_to_string(scratch("log.csv")).unwrap().lines().count();
    check(lines == 1 + 7, &format!("{lines} lines"));
}'''),
dict(id="S19", property="W01", needs="a distribution under which some member has a strongly negative edge",
 breaks="the member of largest absolute edge is returned",
 edits=[("src/weak_learner/bad_learner/worstcase_lpboost.rs", ".max_by(|(e1, _), (e2, _)| e1.partial_cmp(e2).unwrap())", ".max_by(|(e1, _), (e2, _)| e1.abs().partial_cmp(&e2.abs()).unwrap())")],
 demo=r'''
fn main() {
    let n = 10; let s = labels(&(0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect::<Vec<_>>());
    let wl = BadBaseLearnerBuilder::new(&s).nu(2.0).tolerance(0.001).build();
    let mut d = vec![0.0; n]; d[0] = 0.6; d[7] = 0.4; // the first half: only the first member is positive there
    let h = wl.produce(&s, &d);
    let e: f64 = (0..n).map(|i| d[i] * s.target()[i] * h.confidence(&s, i)).sum();
    check(e > 0.15, &format!("edge {e}"));
}'''),
dict(id="S20", property="D03", needs="an SVMlight file in which some column index never occurs",
 breaks="name lookup of the columns after an unused index points past their own data",
 edits=[(SS, '''        self.name_to_index = features.iter()
            .filter_map(|feat| {
                if feat.is_empty() {
                    None
                } else {
                    Some(feat.name().to_string())
                }
            })
            .enumerate()
            .map(|(i, name)| (name, i))
            .collect();
''', '''        self.name_to_index = features.iter()
            .enumerate()
            .filter_map(|(i, feat)| {
                if feat.is_empty() {
                    None
                } else {
                    Some((feat.name().to_string(), i))
                }
            })
            .collect();
''')],
 demo=r'''
fn main() {
    let s = svm("1 0:1 2:5\n-1 0:2 2:6\n");
    std::panic::set_hook(Box::new(|_| {}));
    let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s["Feat. [3]"][1]));
    check(matches!(v, Ok(x) if x == 6.0), &format!("{v:?}"));
}'''),
dict(id="S21", property="L01", needs="directions of both signs in an absolute-loss fit",
 breaks="the weighted median is taken over ratios ordered by magnitude",
 edits=[("src/common/loss_functions.rs", "    items.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());\n", "    items.sort_by(|a, b| a.1.abs().partial_cmp(&b.1.abs()).unwrap());\n")],
 demo=r'''
use miniboosts::{GBMLoss, LossFunction};
fn main() {
    let r = [1.0, 2.0, -3.0, 0.5, 4.0]; let p = [1.0, 1.0, 1.0, 1.0, -1.0];
    let c = GBMLoss::L1.best_coefficient(&r, &p);
    let loss = |c: f64| r.iter().zip(&p).map(|(r, p)| (r - c * p).abs()).sum::<f64>();
    for k in -500..500 { check(loss(c) <= loss(k as f64 / 100.0) + 1e-9, &format!("coefficient {c}")); }
}'''),
dict(id="S22", property="A12", needs="a gradient-boosting object that is run twice",
 breaks="the second run starts from the predictions of the first",
 edits=[("src/booster/gradient_boost/gbm.rs", "        self.terminated = self.max_iter;\n        self.predictions = vec![0.0; n_sample];\n", "        self.terminated = self.max_iter;\n        self.predictions.resize(n_sample, 0.0);\n")],
 demo=r'''
fn main() {
    let s = labels(&[3.0, -1.0, 2.0, 0.5]);
    let mut b = GBM::init_with_loss(&s, miniboosts::GBMLoss::L2);
    for _ in 0..2 {
        let wl = Turn::new(vec![R(vec![1.0, 0.0, 1.0, 0.0]), R(vec![0.0, 1.0, 0.5, 0.0]), R(vec![0.0, 0.0, 0.0, 1.0])]);
        b.run(&wl);
        check(wl.log.borrow()[0].iter().all(|x| *x == 0.0), "first predictions");
    }
}'''),
dict(id="S23", property="A10", needs="the short-step rule and a new member whose margins differ from the current ones more on some row in the negative direction",
 breaks="the curvature bound ignores rows on which the margin decreases, so the step is too long",
 edits=[("src/common/frank_wolfe.rs", "                denom = denom.max(diff.abs());\n", "                denom = denom.max(diff);\n")],
 demo=r'''
fn main() {
    let n = 4; let s = labels(&[1.0, 1.0, -1.0, -1.0]);
    let hs = vec![H(vec![1.0, 1.0, -1.0, 1.0]), H(vec![0.7, 0.4, 0.5, 0.2])];
    let (nu, tol) = (1.5f64, 0.2f64); let eta = ((n as f64 / nu).ln() / (tol / 2.0)).max(0.0);
    let wl = Turn::new(hs.clone()); let mut b = CERLPBoost::init(&s).nu(nu).tolerance(tol).fw_type(miniboosts::FWType::ShortStep);
    b.preprocess(&wl);
    let _ = b.boost(&wl, 1); let _ = b.boost(&wl, 2);
    let f = miniboosts::research::Research::current_hypothesis(&b);
    let d = wl.log.borrow()[1].clone(); let y = s.target();
    let m = |h: &H, i: usize| y[i] * h.0[i];
    let num: f64 = (0..n).map(|i| d[i] * (m(&hs[1], i) - m(&hs[0], i))).sum();
    let den: f64 = (0..n).map(|i| (m(&hs[1], i) - m(&hs[0], i)).abs()).fold(0.0, f64::max);
    let step = (num / (eta * den * den)).clamp(0.0, 1.0);
    let got = if f.weights.len() == 2 { f.weights[1] } else { 0.0 };
    check(near(got, step), &format!("step {got} expected {step}"));
}'''),
dict(id="S24", property="T01", needs="a regression or classification of at least two features where the later one is better by the edge criterion",
 breaks="the edge of a candidate split is compared without its absolute value, so inverted stumps are missed",
 edits=[("src/weak_learner/decision_tree/criterion.rs", "        if best_edge < edge.abs() {\n            best_edge = edge.abs();\n", "        if best_edge < edge {\n            best_edge = edge;\n")],
 demo=r'''
fn main() {
    // -1 left, +1 right: the best stump is +edge only with inverted labels; column b is a worse one with the direct orientation
    let s = csv(&["a", "b", "y"], &[vec![0.0, 3.0, 1.0], vec![1.0, 0.0, 1.0], vec![2.0, 1.0, -1.0], vec![3.0, 2.0, -1.0]]);
    let t = DecisionTreeBuilder::new(&s).max_depth(1).criterion(Criterion::Edge).build();
    let h = t.produce(&s, &[0.25; 4]);
    let e: f64 = (0..4).map(|i| 0.25 * s.target()[i] * h.confidence(&s, i)).sum();
    check(near(e, 1.0), &format!("edge {e}"));
}'''),
dict(id="S25", property="A11", needs="a booster that has been run before with a learner whose smallest edge was smaller",
 breaks="a second run starts with the smallest edge of the first one and stops before its own is close to the objective",
 edits=[("src/booster/mlpboost/mlpboost_algorithm.rs", "        // Upper-bound of the optimal `edge`.\n        self.gamma = 1.0;\n    }\n", "    }\n")],
 demo=r'''
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0, 1.0]; let n = 5; let s = labels(&y);
    let (nu, tol) = (1.0f64, 0.02f64); let eta = (n as f64 / nu).ln() / (tol / 2.0);
    let poor = Turn::new(vec![H(vec![0.01; 5])]);
    let hs = vec![H(vec![0.9, 0.2, 0.5, -0.8, 1.0]), H(vec![0.1, 1.0, -1.0, -0.5, 0.9]), H(vec![0.8, 0.9, -0.9, -0.9, 0.3])];
    let mut b = MLPBoost::init(&s).nu(nu).tolerance(tol);
    b.run(&poor);
    let wl = Turn::new(hs.clone()); b.preprocess(&wl);
    let mut least = 1.0f64;
    for t in 1..=3 {
        let w = if t == 1 { vec![] } else { miniboosts::research::Research::current_hypothesis(&b).weights };
        let stop = b.boost(&wl, t).is_break();
        let d = wl.log.borrow().last().unwrap().clone();
        let edge = |k: usize| (0..n).map(|i| d[i] * y[i] * hs[k].0[i]).sum::<f64>();
        least = least.min(edge(t - 1));
        if stop {
            let ent: f64 = d.iter().map(|x| if *x > 0.0 { x * x.ln() } else { 0.0 }).sum::<f64>() + (n as f64).ln();
            let obj: f64 = w.iter().enumerate().map(|(k, w)| w * edge(k)).sum::<f64>() + ent / eta;
            check(least - obj <= tol / 2.0 + 1e-6, &format!("round {t}: stopped at a gap of {}", least - obj));
            break;
        }
    }
}'''),
dict(id="S26", property="A06", needs="a tolerance set after nu",
 breaks="the corrective booster keeps the regularisation parameter that belongs to the tolerance it had when nu was set",
 edits=[("src/booster/cerlpboost/cerlpboost_algorithm.rs", "        self.regularization_param();\n        self.max_iter = self.max_loop();\n", "        self.max_iter = self.max_loop();\n"),
  ("src/booster/cerlpboost/cerlpboost_algorithm.rs", "        let m = self.dist.len() as f64;\n        let ln_part", "        let m = self.sample.shape().0 as f64;\n        let ln_part")],
 demo=r'''
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0, 1.0]; let s = labels(&y); let n = 5;
    let h = vec![H(vec![0.8, 0.2, -0.4, -0.6, 0.1]), H(vec![0.3, 0.9, -0.9, -0.9, 1.0])];
    let (nu, tol) = (1.2f64, 0.5f64);
    let wl = Turn::new(h.clone()); let mut b = CERLPBoost::init(&s).nu(nu).tolerance(tol); b.preprocess(&wl);
    let _ = b.boost(&wl, 1); let f = miniboosts::research::Research::current_hypothesis(&b); let _ = b.boost(&wl, 2);
    check(f.weights.len() == 1, "one member after one round");
    let eta = (n as f64 / nu).ln() / (tol / 2.0);
    let e: Vec<f64> = (0..n).map(|i| (-eta * y[i] * h[0].0[i]).exp()).collect(); let z: f64 = e.iter().sum();
    let d = wl.log.borrow()[1].clone();
    for i in 0..n { check((d[i] - e[i] / z).abs() < 1e-6, &format!("{d:?}")); }
}'''),
dict(id="S27", property="A09", needs="a round whose regularised edge is larger than that of an earlier round, close to the end of training",
 breaks="the stopping rule compares with the regularised edge of the last round instead of the smallest one seen",
 edits=[("src/booster/erlpboost/erlpboost_algorithm.rs", "        self.gamma_hat = self.gamma_hat.min(obj_val);\n", "        self.gamma_hat = obj_val;\n")],
 demo=r'''
fn main() {
    // a learner that returns a poor member in the first round and the best ones afterwards
    let y = [1.0, 1.0, -1.0, -1.0]; let s = labels(&y); let n = 4;
    let h = vec![H(vec![0.05, 0.0, -0.05, 0.0]), H(vec![1.0, 1.0, -1.0, -1.0]), H(vec![1.0, 1.0, -1.0, -1.0])];
    let (nu, tol) = (1.0f64, 0.1f64); let eta = (((n as f64) / nu).ln() / (tol / 2.0)).max(0.5);
    let wl = Turn::new(h.clone()); let mut b = ERLPBoost::init(&s).nu(nu).tolerance(tol); b.preprocess(&wl);
    let mut best = 1.0f64; let mut star = -1.0f64;
    for t in 1..=3 {
        let stop = b.boost(&wl, t).is_break();
        let d = wl.log.borrow().last().unwrap().clone();
        let ent: f64 = d.iter().map(|x| if *x > 0.0 { x * x.ln() } else { 0.0 }).sum::<f64>() + (n as f64).ln();
        let edge = |k: usize| (0..n).map(|i| d[i] * y[i] * h[k].0[i]).sum::<f64>();
        if t > 1 { star = (0..t - 1).map(|k| edge(k)).fold(f64::MIN, f64::max) + ent / eta; }
        best = best.min(edge(t - 1) + ent / eta);
        let must = best - star <= tol / 2.0;
        if (best - star - tol / 2.0).abs() > 1e-3 { check(stop == must, &format!("round {t}: stop {stop}, gap {}", best - star)); }
        if stop { break; }
    }
}'''),
dict(id="S28", property="A07", needs="a round whose edge is larger than that of an earlier round",
 breaks="the bound on the edges follows the last edge instead of the smallest one seen",
 edits=[("src/booster/softboost/softboost_algorithm.rs", "        if self.gamma_hat > edge {\n            self.gamma_hat = edge;\n        }\n", "        self.gamma_hat = edge;\n")],
 demo=r'''
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0]; let s = labels(&y); let n = 4;
    let h = vec![H(vec![0.4, -0.1, -0.3, 0.2]), H(vec![0.9, 0.8, -0.9, -1.0]), H(vec![1.0, -0.5, 0.2, -0.7])];
    let wl = Turn::new(h.clone()); let mut b = SoftBoost::init(&s).nu(1.0).tolerance(0.01); b.preprocess(&wl);
    let mut least = 1.0f64;
    for t in 1..=3 {
        let stop = b.boost(&wl, t).is_break();
        let d = wl.log.borrow().last().unwrap().clone();
        let edge = |k: usize| (0..n).map(|i| d[i] * y[i] * h[k].0[i]).sum::<f64>();
        for k in 0..t - 1 { check(edge(k) <= least + 1e-4, &format!("round {t}: member {k} has edge {} above {least}", edge(k))); }
        least = least.min(edge(t - 1));
        if stop { break; }
    }
}'''),
dict(id="S29", property="N02", needs="a network with two outputs whose confidences are close to each other",
 breaks="the read-out reports the difference of the two confidences instead of the larger one",
 edits=[("src/common/task.rs", "        if y[0] > y[1] { -y[0] } else { y[1] }\n", "        y[1] - y[0]\n")],
 demo=r'''
use miniboosts::{NeuralNetwork, Activation};
fn main() {
    let s = labels(&[1.0, -1.0, 1.0, -1.0]);
    let h = NeuralNetwork::init(&s).append(2, Activation::SoftMax(1e-9)).n_epoch(1).n_iter(1).produce(&s, &[0.25; 4]);
    for i in 0..4 { let c = h.confidence(&s, i); check(c.abs() >= 0.5 - 1e-9, &format!("the more confident of two outputs has {c}")); }
}'''),
dict(id="S30", property="A02", needs="a round whose edge is larger than that of an earlier round",
 breaks="the margin target follows the last edge instead of the smallest one seen",
 edits=[("src/booster/adaboostv/adaboostv_algorithm.rs", "        self.gamma = edge.min(self.gamma);\n", "        self.gamma = edge;\n")],
 demo=r'''
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0]; let s = labels(&y); let n = 4; let tol = 0.1;
    let h = vec![H(vec![0.4, -0.1, -0.3, 0.2]), H(vec![0.5, 0.4, -0.5, -0.6])];
    let wl = Turn::new(h.clone()); let mut b = AdaBoostV::init(&s).tolerance(tol); b.preprocess(&wl);
    let _ = b.boost(&wl, 1); let _ = b.boost(&wl, 2);
    let f = miniboosts::research::Research::current_hypothesis(&b);
    let mut least = 1.0f64; let mut a0 = 0.0;
    for t in 0..2 {
        let d = wl.log.borrow()[t].clone();
        let e: f64 = (0..n).map(|i| d[i] * y[i] * h[t].0[i]).sum(); least = least.min(e); let rho = least - tol;
        let a = 0.5 * ((1.0 + e) / (1.0 - e)).ln() - 0.5 * ((1.0 + rho) / (1.0 - rho)).ln();
        if t == 0 { a0 = a; }
        check(near(f.weights[t] / f.weights[0], a / a0), &format!("vote {t}: {:?}, ratio should be {}", f.weights, a / a0));
    }
}'''),
]
