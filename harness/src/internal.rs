//! Executable contracts of private items: the real source files of /repo are compiled in place
//! (`#[path]`), nothing of them is copied or edited.
#![allow(dead_code, unused_imports)]
mod gen;
mod driver;
pub use miniboosts::{Classifier, Regressor, Sample, WeakLearner};
mod common {
    #[path = "/repo/src/common/utils.rs"] pub mod utils;
    #[path = "/repo/src/common/checker.rs"] pub(crate) mod checker;
    #[path = "/repo/src/common/task.rs"] pub mod task;
}
mod weak_learner {
    pub mod neural_network {
        #[path = "/repo/src/weak_learner/neural_network/nn_weak_learner.rs"] mod nn_weak_learner;
        mod nn_hypothesis {
            include!("/repo/src/weak_learner/neural_network/nn_hypothesis.rs");
            impl NNHypothesis { pub(crate) fn verif_layers(&mut self) -> &mut Vec<Layer> { &mut self.layers } }
        }
        #[path = "/repo/src/weak_learner/neural_network/nn_loss.rs"] mod nn_loss;
        #[path = "/repo/src/weak_learner/neural_network/activation.rs"] mod activation;
        #[path = "/repo/src/weak_learner/neural_network/layer.rs"] pub(crate) mod layer;
        #[path = "/verif/harness/src/p_nn.rs"] pub mod p_nn;
    }
}
fn table_of(prop: &str) -> Option<(driver::Check, u64, u64)> {
    Some(match prop { "N02" => (weak_learner::neural_network::p_nn::n02, 6000, 120000), _ => return None })
}
fn main() { driver::run(table_of); }
