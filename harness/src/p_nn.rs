//! N02: neural networks.
use super::activation::Activation;
use super::layer::Layer;
use super::nn_hypothesis::{NNClassifier, NNHypothesis, NNRegressor};
use super::nn_loss::NNLoss;
use crate::common::task::{self, Task};
use crate::ensure;
use crate::gen::*;
use miniboosts::{Classifier, Regressor};

fn act_ref(a: &Activation, x: &[f64]) -> Vec<f64> {
    match a {
        Activation::SoftMax(e) => { let m = x.iter().map(|v| e * v).fold(f64::NEG_INFINITY, f64::max); let z: Vec<f64> = x.iter().map(|v| (e * v - m).exp()).collect(); let s: f64 = z.iter().sum(); z.iter().map(|v| v / s).collect() }
        Activation::Sigmoid(e) => x.iter().map(|v| 1.0 / (1.0 + (-e * v).exp())).collect(),
        Activation::ReLu(t) => x.iter().map(|v| if v > t { *v } else { 0.0 }).collect(),
        Activation::Id => x.to_vec(),
    }
}
fn net_ref(ws: &[(Vec<Vec<f64>>, Vec<f64>, Activation)], x: &[f64]) -> Vec<f64> {
    ws.iter().fold(x.to_vec(), |z, (w, b, a)| { let u: Vec<f64> = w.iter().zip(b).map(|(w, b)| w.iter().zip(&z).map(|(a, b)| a * b).sum::<f64>() + b).collect(); act_ref(a, &u) })
}
fn near_kink(ws: &[(Vec<Vec<f64>>, Vec<f64>, Activation)], x: &[f64]) -> bool {
    let mut z = x.to_vec();
    for (w, b, a) in ws {
        let u: Vec<f64> = w.iter().zip(b).map(|(w, b)| w.iter().zip(&z).map(|(a, b)| a * b).sum::<f64>() + b).collect();
        if let Activation::ReLu(t) = a { if u.iter().any(|v| (v - t).abs() < 1e-2) { return true; } }
        z = act_ref(a, &u);
    }
    false
}
fn random_act(r: &mut Rng) -> Activation { match r.below(4) { 0 => Activation::SoftMax(r.f(0.2, 2.0)), 1 => Activation::Sigmoid(r.f(0.2, 2.0)), 2 => Activation::ReLu(r.f(-0.5, 0.5)), _ => Activation::Id } }

pub fn n02(r: &mut Rng, _c: u64) -> R {
    // activations
    let k = r.range(1, 5);
    let x: Vec<f64> = (0..k).map(|_| r.f(-3.0, 3.0)).collect();
    let a = random_act(r);
    let v = a.eval(&x); let want = act_ref(&a, &x);
    ensure!("N02.activation", close_vec(&v, &want, 1e-9, 1.0), "{a:?} of {x:?} is {v:?}, expected {want:?}");
    if let Activation::SoftMax(_) = a { ensure!("N02.softmax-simplex", (v.iter().sum::<f64>() - 1.0).abs() < 1e-9 && v.iter().all(|p| (0.0..=1.0).contains(p)), "{a:?} of {x:?} is {v:?}"); cover("softmax"); }
    let d = a.diff(&x);
    ensure!("N02.derivative", d.len() == k, "{} entries for {k}", d.len());
    for i in 0..k {
        if let Activation::ReLu(t) = a { if (x[i] - t).abs() < 1e-4 { continue; } }
        let e = 1e-6; let (mut p, mut m) = (x.clone(), x.clone()); p[i] += e; m[i] -= e;
        let num = (act_ref(&a, &p)[i] - act_ref(&a, &m)[i]) / (2.0 * e);
        ensure!("N02.derivative", (d[i] - num).abs() < 1e-5 * (1.0 + num.abs()), "derivative of {a:?} at {x:?}, entry {i}, is {}; the difference quotient is {num}", d[i]);
        cover("derivative");
    }
    // large arguments
    let big: Vec<f64> = (0..k).map(|_| r.f(-800.0, 800.0)).collect();
    let sm = Activation::SoftMax(1.0).eval(&big); let wb = act_ref(&Activation::SoftMax(1.0), &big);
    ensure!("N02.softmax-large", close_vec(&sm, &wb, 1e-9, 1.0), "softmax of {big:?} is {sm:?}");
    // a layer
    let (nr, nc) = (r.range(1, 4), r.range(1, 4));
    let mut l = Layer::new(nr, nc, a);
    l.matrix = (0..nr).map(|_| (0..nc).map(|_| r.f(-1.0, 1.0)).collect()).collect();
    l.bias = (0..nr).map(|_| r.f(-1.0, 1.0)).collect();
    let z: Vec<f64> = (0..nc).map(|_| r.f(-2.0, 2.0)).collect();
    let ws = vec![(l.matrix.clone(), l.bias.clone(), a)];
    let (got, want) = (l.forward(&z), net_ref(&ws, &z));
    ensure!("N02.layer", near_kink(&ws, &z) || close_vec(&got, &want, 1e-9, 1.0), "{a:?}({:?} {z:?} + {:?}) gives {got:?}, expected {want:?}", l.matrix, l.bias);
    // read-outs
    let q = r.u();
    ensure!("N02.binary-one", close(task::binarize(vec![q]), 2.0 * q - 1.0, 1e-12, 1.0), "an output {q} (confidence of +1) reads {}", task::binarize(vec![q]));
    let pr = [q, 1.0 - q];
    ensure!("N02.binary-two", task::binarize(pr.to_vec()) == if pr[0] > pr[1] { -pr[0] } else { pr[1] }, "outputs {pr:?} read {}", task::binarize(pr.to_vec()));
    let m = r.range(1, 5);
    let out: Vec<f64> = (0..m).map(|_| r.u()).collect();
    let cls = task::discretize(&out, m) as usize;
    ensure!("N02.class", cls < m && out.iter().all(|o| *o <= out[cls]), "outputs {out:?} read class {cls}");
    for c in 0..m { if m > 1 { let v = task::vectorize(c as f64, m); ensure!("N02.target-vector", v.len() == m && (0..m).all(|i| v[i] == if i == c { 1.0 } else { 0.0 }), "class {c} of {m} is {v:?}"); } }
    ensure!("N02.target-vector", task::vectorize(-1.0, 2) == vec![1.0, 0.0] && task::vectorize(1.0, 2) == vec![0.0, 1.0], "binary labels");
    // a whole network: evaluation, read-out and one training step
    let n = r.range(2, 5);
    let t = { let d = r.range(1, 3); let cols: Vec<Vec<f64>> = (0..d).map(|_| (0..n).map(|_| r.f(-2.0, 2.0)).collect()).collect(); from_cols(r, cols) };
    let smp = t.build(r.chance(0.3));
    let combo = r.below(3);
    let (loss, outdim, outact) = match combo { 0 => (NNLoss::CrossEntropy, 2, Activation::SoftMax(1.0)), 1 => (NNLoss::CrossEntropy, 2, Activation::Sigmoid(1.0)), _ => (NNLoss::L2, r.range(1, 2), Activation::Id) };
    let mut dims = vec![t.d]; let mut acts = vec![];
    for _ in 0..r.below(3) { dims.push(r.range(1, 3)); acts.push(match r.below(3) { 0 => Activation::Sigmoid(r.f(0.2, 2.0)), 1 => Activation::ReLu(0.0), _ => Activation::Id }); }
    dims.push(outdim); acts.push(outact);
    let mut net = NNHypothesis::new(Task::Binary, &dims, &acts);
    let mut ws = vec![];
    for l in net.verif_layers() {
        let (nr, nc) = l.shape();
        l.matrix = (0..nr).map(|_| (0..nc).map(|_| r.f(-1.0, 1.0)).collect()).collect();
        l.bias = (0..nr).map(|_| r.f(-1.0, 1.0)).collect();
        ws.push((l.matrix.clone(), l.bias.clone(), l.activation));
    }
    let rows: Vec<Vec<f64>> = (0..n).map(|i| (0..t.d).map(|j| t.cols[j][i]).collect()).collect();
    for i in 0..n {
        let o = net.eval(rows[i].clone()); let w = net_ref(&ws, &rows[i]);
        ensure!("N02.network", near_kink(&ws, &rows[i]) || close_vec(&o, &w, 1e-9, 1.0), "network {ws:?} of {:?} gives {o:?}, expected {w:?}", rows[i]);
        let c = NNClassifier::new(net.clone()).confidence(&smp, i);
        ensure!("N02.confidence", c == task::binarize(o.clone()), "confidence {c} for outputs {o:?}");
    }
    let b = r.range(1, n); let batch: Vec<usize> = r.perm(n)[..b].to_vec();
    if batch.iter().any(|&i| near_kink(&ws, &rows[i])) { cover("skip-kink"); return Ok(()); }
    let total = |ws: &Vec<(Vec<Vec<f64>>, Vec<f64>, Activation)>| batch.iter().map(|&i| {
        let o = net_ref(ws, &rows[i]);
        let y: Vec<f64> = if outdim == 1 { vec![t.y[i]] } else if t.y[i] > 0.0 { vec![0.0, 1.0] } else { vec![1.0, 0.0] };
        match combo { 0 => -y.iter().zip(&o).map(|(y, p)| y * p.ln()).sum::<f64>(),
            1 => -y.iter().zip(&o).map(|(y, p)| y * p.ln() + (1.0 - y) * (1.0 - p).ln()).sum::<f64>(),
            _ => y.iter().zip(&o).map(|(y, p)| 0.5 * (p - y) * (p - y)).sum::<f64>() }
    }).sum::<f64>();
    let rate = 0.125;
    let name = format!("{loss} network dims {dims:?} activations {acts:?} parameters {ws:?} batch {batch:?} rows {}", t.show());
    net.train(rate, loss, &smp, &batch);
    let e = 1e-5;
    for (li, l) in net.verif_layers().iter().enumerate() {
        let (nr, nc) = l.shape();
        for a in 0..nr { for c in 0..=nc {
            let mut p = ws.clone(); let mut m = ws.clone();
            let (old, new) = if c < nc { p[li].0[a][c] += e; m[li].0[a][c] -= e; (ws[li].0[a][c], l.matrix[a][c]) } else { p[li].1[a] += e; m[li].1[a] -= e; (ws[li].1[a], l.bias[a]) };
            let g = (total(&p) - total(&m)) / (2.0 * e);
            let used = (old - new) / rate;
            ensure!("N02.training-gradient", (g - used).abs() < 1e-4 * (1.0 + g.abs()), "layer {li} parameter ({a},{c}): the step uses {used}, the derivative of the loss is {g}: {name}");
            cover(if li + 1 == dims.len() - 1 { "gradient-output" } else { "gradient-hidden" });
        } }
    }
    Ok(())
}
