//! Comparisons, the median, difficulty updates and the header step, as circuits.
use crate::*;
use bellpepper_core::boolean::Boolean;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use ff::PrimeFieldBits;
use nova_snark::traits::circuit::StepCircuit;
use validate_btc_header::btc_validation::difficulty_update::*;
use validate_btc_header::btc_validation::header_step::BlockHeader;
use validate_btc_header::btc_validation::median::*;

#[derive(Clone, Copy, Debug)]
pub enum TOp {
    Lt(usize),
    Leq(usize),
    LtSelf(usize),
    LeqSelf(usize),
    Median(usize),
    Calc,
}
pub struct TG {
    pub op: TOp,
}
pub fn b2f<F: XField>(b: bool) -> F {
    if b {
        F::ONE
    } else {
        F::ZERO
    }
}
pub fn bool_wire<F: XField, CS: ConstraintSystem<F>>(b: &Boolean) -> Wire<F> {
    wire(b.lc(CS::one(), F::ONE), b.get_value().map(b2f))
}
impl<F: XField> Circuit<F> for TG {
    fn n_in(&self) -> usize {
        match self.op {
            TOp::LtSelf(_) | TOp::LeqSelf(_) => 1,
            TOp::Median(n) => n + 1,
            _ => 2,
        }
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let n = Circuit::<F>::n_in(self);
        let mut x = vec![];
        for i in 0..n {
            x.push(AllocatedNum::alloc(cs.namespace(|| format!("in{}", i)), || w.map(|w| w[i]).ok_or_else(miss))?);
        }
        let g = cs.namespace(|| "gadget");
        Ok(match self.op {
            TOp::Lt(k) => vec![bool_wire::<F, CS>(&less_than(g, &x[0], &x[1], k)?)],
            TOp::Leq(k) => vec![bool_wire::<F, CS>(&leq(g, &x[0], &x[1], k)?)],
            TOp::LtSelf(k) => vec![bool_wire::<F, CS>(&less_than(g, &x[0], &x[0], k)?)],
            TOp::LeqSelf(k) => vec![bool_wire::<F, CS>(&leq(g, &x[0], &x[0], k)?)],
            TOp::Median(k) => vec![bool_wire::<F, CS>(&verify_allocated_median(g, &x[..k], &x[k])?)],
            TOp::Calc => bn_wires("target", &calculate_difficulty_update(g, &x[0], &x[1])?, w.is_some()),
        })
    }
}
pub struct Step {
    pub words: [u64; 10],
}
impl<F: XField + PrimeFieldBits> Circuit<F> for Step {
    fn n_in(&self) -> usize {
        16
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let mut z = vec![];
        for i in 0..16 {
            z.push(AllocatedNum::alloc(cs.namespace(|| format!("z{}", i)), || w.map(|w| w[i]).ok_or_else(miss))?);
        }
        // the second of a sequence of blocks
        let b = BlockHeader::<F>::new_blocks(vec![[7; 10], self.words]);
        let o = b[1].synthesize(&mut cs.namespace(|| "step"), &z)?;
        Ok(o.into_iter().map(|n| wire(LinearCombination::zero() + n.get_variable(), n.get_value())).collect())
    }
}
