//! The methods the `Gadget` trait provides to any type that implements it, on a type of our own:
//! a fixed-length list of field elements.
use crate::*;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use validate_btc_header::util::bit::Bit;
use validate_btc_header::util::gadget::Gadget;

#[derive(Clone)]
pub struct Elems<F: XField> {
    pub vals: Option<Vec<F>>,
    pub lcs: Vec<LinearCombination<F>>,
    pub n: usize,
}
impl<F: XField> Gadget for Elems<F> {
    type Scalar = F;
    type Value = Vec<F>;
    type Access = ();
    type Params = usize;
    fn alloc<CS: ConstraintSystem<F>>(mut cs: CS, value: Option<&Vec<F>>, _: (), n: &usize) -> Result<Self, SynthesisError> {
        let mut lcs = vec![];
        for i in 0..*n {
            let v = cs.alloc(|| format!("e{}", i), || value.map(|v| v[i]).ok_or_else(miss))?;
            lcs.push(LinearCombination::zero() + v);
        }
        Ok(Elems { vals: value.cloned(), lcs, n: *n })
    }
    fn wires(&self) -> Vec<LinearCombination<F>> {
        self.lcs.clone()
    }
    fn wire_values(&self) -> Option<Vec<F>> {
        self.vals.clone()
    }
    fn value(&self) -> Option<&Vec<F>> {
        self.vals.as_ref()
    }
    fn access(&self) -> &() {
        &()
    }
    fn params(&self) -> &usize {
        &self.n
    }
}
impl<F: XField> Elems<F> {
    pub fn outs(&self) -> Vec<Wire<F>> {
        self.lcs.iter().enumerate().map(|(i, l)| wire(l.clone(), self.vals.as_ref().map(|v| v[i]))).collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OwnOp {
    Mux,
    Switch,
    Tree,
    AssertEqual,
    AsNums,
}
/// selectors, then the elements of each list
pub struct Own {
    pub op: OwnOp,
    pub bits: usize,
    pub ins: Vec<usize>,
}
impl<F: XField> Circuit<F> for Own {
    fn n_in(&self) -> usize {
        self.bits + self.ins.iter().sum::<usize>()
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let mut at = 0;
        let mut sel = vec![];
        for i in 0..self.bits {
            sel.push(Bit::alloc(cs.namespace(|| format!("sel{}", i)), w.map(|w| w[at] == F::ONE))?);
            at += 1;
        }
        let mut b = vec![];
        for (i, n) in self.ins.iter().enumerate() {
            let v = w.map(|w| w[at..at + n].to_vec());
            b.push(Elems::alloc(cs.namespace(|| format!("in{}", i)), v.as_ref(), (), n)?);
            at += n;
        }
        let cs = cs.namespace(|| "gadget");
        Ok(match self.op {
            OwnOp::Mux => Elems::mux(cs, &sel[0], &b[0], &b[1])?.outs(),
            OwnOp::Switch => {
                let (x, y) = Elems::switch(cs, &sel[0], &b[0], &b[1])?;
                let mut o = x.outs();
                o.extend(y.outs());
                o
            }
            OwnOp::Tree => Elems::mux_tree(cs, sel.iter(), &b)?.outs(),
            OwnOp::AssertEqual => {
                Elems::assert_equal(cs, &b[0], &b[1])?;
                vec![]
            }
            OwnOp::AsNums => {
                let n = b[0].as_nums(cs)?;
                n.into_iter().map(|n| wire(LinearCombination::zero() + n.get_variable(), n.get_value())).collect()
            }
        })
    }
}
/// Drive a circuit over every combination of values.
pub fn over<F: XField>(ctx: &Ctx, key: &str, c: &dyn DynCircuit<F>, axes: &[Vec<F>], want: &dyn Fn(&[F]) -> Exp<F>) {
    let total: u64 = axes.iter().map(|a| a.len() as u64).product();
    let decode = |mut k: u64| -> Vec<F> {
        axes.iter()
            .map(|a| {
                let x = a[(k % a.len() as u64) as usize];
                k /= a.len() as u64;
                x
            })
            .collect()
    };
    let Some(base) = (0..total).map(&decode).find(|w| matches!(want(w), Exp::Outs(_))) else {
        return;
    };
    if let Some(mut j) = Judge::new(ctx, key, c, &base) {
        for k in 0..total {
            let w = decode(k);
            let e = want(&w);
            j.both(&w, e);
        }
        j.done();
    }
}
pub fn small<F: XField>(k: usize) -> Vec<F> {
    let p = F::modulus();
    if let Some(t) = F::TINY {
        return (0..t.min(k as u64)).map(F::from).chain((t > k as u64).then(|| -F::ONE)).collect();
    }
    [0.into(), 1.into(), &p - 1, pow2(128), &p / 2].iter().take(k).map(|x| F::from_nat(x)).collect()
}
