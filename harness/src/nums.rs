//! Numbers, bits and conversions, as circuits.
use crate::*;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::num::Num;

/// x, y, z inputs; the number under test is a*x + b*y + c
#[derive(Clone)]
pub struct Form<F: XField> {
    pub coef: Vec<F>,
    pub konst: F,
}
impl<F: XField> Form<F> {
    pub fn var() -> Self {
        Form { coef: vec![F::ONE], konst: F::ZERO }
    }
    pub fn mixed() -> Self {
        Form { coef: vec![F::from(2), -F::ONE], konst: F::from(3) }
    }
    pub fn alloc<CS: ConstraintSystem<F>>(&self, cs: &mut CS, tag: &str, w: Option<&[F]>) -> Result<Num<F>, SynthesisError> {
        let mut lc = LinearCombination::zero() + (self.konst, CS::one());
        let mut val = w.map(|_| self.konst);
        for (i, c) in self.coef.iter().enumerate() {
            let v = cs.alloc(|| format!("{} {}", tag, i), || w.map(|w| w[i]).ok_or(SynthesisError::AssignmentMissing))?;
            lc = lc + (*c, v);
            val = val.map(|x| x + *c * w.unwrap()[i]);
        }
        Ok(Num::new(val, lc))
    }
    pub fn value(&self, w: &[F]) -> F {
        self.coef.iter().zip(w).fold(self.konst, |a, (c, x)| a + *c * x)
    }
    /// inputs making the form equal to `v`, with the second input (if any) set to `y`
    pub fn solve(&self, v: F, y: F) -> Vec<F> {
        let mut t = v - self.konst;
        let mut w = vec![F::ZERO; self.coef.len()];
        if self.coef.len() > 1 {
            w[1] = y;
            t -= self.coef[1] * y;
        }
        w[0] = t * self.coef[0].invert().unwrap();
        w
    }
}
pub struct Range<F: XField> {
    pub form: Form<F>,
    pub n: usize,
}
impl<F: XField> Circuit<F> for Range<F> {
    fn n_in(&self) -> usize {
        self.form.coef.len()
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let x = self.form.alloc(&mut cs, "x", w)?;
        x.fits_in_bits(cs.namespace(|| "range"), self.n)?;
        Ok(vec![])
    }
}
pub struct WellFormed {
    pub lw: usize,
    pub n: usize,
}
impl<F: XField> Circuit<F> for WellFormed {
    fn n_in(&self) -> usize {
        self.n
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let b = BigNat::alloc_from_limbs(
            cs.namespace(|| "b"),
            || w.map(|w| w.to_vec()).ok_or(SynthesisError::AssignmentMissing),
            None,
            self.lw,
            self.n,
        )?;
        b.assert_well_formed(cs.namespace(|| "wf"))?;
        Ok(vec![])
    }
}
pub fn fb<F: XField>(b: bool) -> F {
    if b {
        F::ONE
    } else {
        F::ZERO
    }
}
/// all the ways a bit vector reports itself must agree
pub fn bv_wires<F: XField>(bv: &Bitvector<F>) -> Result<Vec<Wire<F>>, SynthesisError> {
    let n = bv.bits.len();
    if let Some(v) = &bv.values {
        if v.len() != n {
            panic!("bit vector of length {} with {} values", n, v.len());
        }
    }
    let mut o = vec![];
    for i in 0..n {
        let b = bv.get(i).expect("get within length");
        if b.value != bv.values.as_ref().map(|v| v[i]) {
            panic!("bit vector: get({}) disagrees with the values", i);
        }
        o.push(wire(bv.bits[i].clone(), b.value.map(fb)));
        o.push(wire(b.bit, b.value.map(fb)));
    }
    Ok(o)
}
pub struct Decomp<F: XField> {
    pub form: Form<F>,
    pub n: usize,
}
impl<F: XField> Circuit<F> for Decomp<F> {
    fn n_in(&self) -> usize {
        self.form.coef.len()
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let x = self.form.alloc(&mut cs, "x", w)?;
        let bv = x.decompose(cs.namespace(|| "d"), self.n)?;
        if bv.allocations.len() != self.n {
            panic!("{} bits allocated for a decomposition into {}", bv.allocations.len(), self.n);
        }
        bv_wires(&bv)
    }
}
#[derive(Clone, Copy, Debug)]
pub enum BOp {
    Id,
    Rev,
    Trunc(usize),
    Shr(usize),
    Shl(usize),
    Rebuilt,
    PopPush,
    AppendFirst,
}
/// is `num` the number written in the (rearranged) bits?
pub struct Recomp<F: XField> {
    pub form: Form<F>,
    pub n: usize,
    pub op: BOp,
}
pub fn apply_op<F: XField>(bv: Bitvector<F>, op: BOp) -> Bitvector<F> {
    match op {
        BOp::Id => bv,
        BOp::Rev => bv.reversed(),
        BOp::Trunc(k) => bv.truncate(k),
        BOp::Shr(k) => bv.shr(k),
        BOp::Shl(k) => bv.shl(k),
        BOp::Rebuilt => Bitvector::from_bits(bv.into_bits()),
        BOp::PopPush => {
            let mut bv = bv;
            if let Some(b) = bv.pop() {
                bv.insert(0, b);
            }
            bv
        }
        BOp::AppendFirst => {
            let mut bv = bv;
            let c = bv.clone().truncate(1);
            bv.append(c);
            bv
        }
    }
}
impl<F: XField> Circuit<F> for Recomp<F> {
    fn n_in(&self) -> usize {
        self.form.coef.len() + self.n
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let m = self.form.coef.len();
        let x = self.form.alloc(&mut cs, "x", w)?;
        let mut bits = vec![];
        for i in 0..self.n {
            // a bit given as a caller's wire (its range is the caller's business)
            let val = w.map(|w| w[m + i]);
            let v = cs.alloc(|| format!("b{}", i), || val.ok_or(miss()))?;
            bits.push(Bit::new(LinearCombination::zero() + v, val.map(|x| x == F::ONE)));
        }
        let bv = apply_op(Bitvector::from_bits(bits), self.op);
        x.is_equal(cs.namespace(|| "eq"), &bv)?;
        Ok(vec![])
    }
}
pub struct Single<F: XField> {
    pub form: Form<F>,
    pub what: usize,
}
impl<F: XField> Circuit<F> for Single<F> {
    fn n_in(&self) -> usize {
        self.form.coef.len()
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let x = self.form.alloc(&mut cs, "x", w)?;
        let bval = x.value.map(|v| v == F::ONE);
        let bit = Bit::new(x.num.clone(), bval);
        match self.what {
            // the allocated number is the number
            0 => {
                let n = x.as_sapling_allocated_num(cs.namespace(|| "n"))?;
                let back = Num::from(n.clone());
                Ok(vec![wire(LinearCombination::zero() + n.get_variable(), n.get_value()), wire(back.num, back.value)])
            }
            // negation
            1 => {
                let n = bit.not::<CS>();
                let nn = n.not::<CS>();
                Ok(vec![wire(n.bit, n.value.map(fb)), wire(nn.bit, nn.value.map(fb))])
            }
            2 => {
                bit.constrain_value(cs.namespace(|| "t"), true);
                Ok(vec![])
            }
            3 => {
                bit.constrain_value(cs.namespace(|| "f"), false);
                Ok(vec![])
            }
            // constants, and conversion of the proof system's own booleans
            4 => {
                use bellpepper_core::boolean::{AllocatedBit, Boolean};
                let t = Bit::<F>::new_true::<CS>();
                let f = Bit::<F>::new_false::<CS>();
                let t2 = Bit::<F>::new_value::<CS>(true);
                let f2 = Bit::<F>::new_value::<CS>(false);
                let a = AllocatedBit::alloc(cs.namespace(|| "a"), bval)?;
                cs.enforce(|| "link", |l| l, |l| l, |l| l + a.get_variable() - &x.num);
                let is = Bit::from_sapling::<CS>(Boolean::from(a.clone()));
                let not = Bit::from_sapling::<CS>(Boolean::from(a).not());
                let kt = Bit::from_sapling::<CS>(Boolean::constant(true));
                let kf = Bit::from_sapling::<CS>(Boolean::constant(false));
                Ok([t, f, t2, f2, is, not, kt, kf].into_iter().map(|b| wire(b.bit, b.value.map(fb))).collect())
            }
            // a fresh bit is a bit: link it to the input to see which inputs it admits
            _ => {
                let b = Bit::alloc(cs.namespace(|| "b"), bval)?;
                cs.enforce(|| "link", |l| l, |l| l, |l| l + &b.bit - &x.num);
                Ok(vec![wire(b.bit, b.value.map(fb))])
            }
        }
    }
}
pub struct NatDecomp {
    pub lw: usize,
    pub n: usize,
}
impl<F: XField> Circuit<F> for NatDecomp {
    fn n_in(&self) -> usize {
        self.n
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let b = BigNat::alloc_from_limbs(cs.namespace(|| "b"), || w.map(|w| w.to_vec()).ok_or(miss()), None, self.lw, self.n)?;
        let bv = b.decompose(cs.namespace(|| "d"))?;
        bv_wires(&bv)
    }
}
pub struct FromNum {
    pub lw: usize,
    pub n: usize,
    pub form: usize,
}
impl<F: XField> Circuit<F> for FromNum {
    fn n_in(&self) -> usize {
        1
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let v = cs.alloc(|| "x", || w.map(|w| w[0]).ok_or(miss()))?;
        let (lc, val) = if self.form == 0 {
            (LinearCombination::zero() + v, w.map(|w| w[0]))
        } else {
            (LinearCombination::<F>::zero() + (F::from(2), v) + CS::one(), w.map(|w| w[0].double() + F::ONE))
        };
        let b = BigNat::from_num(cs.namespace(|| "b"), Num::new(val, lc), self.lw, self.n)?;
        Ok(bn_wires("number", &b, w.is_some()))
    }
}
pub struct Equals;
impl<F: XField> Circuit<F> for Equals {
    fn n_in(&self) -> usize {
        2
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let a = AllocatedNum::alloc(cs.namespace(|| "a"), || w.map(|w| w[0]).ok_or(miss()))?;
        let b = AllocatedNum::alloc(cs.namespace(|| "b"), || w.map(|w| w[1]).ok_or(miss()))?;
        let r = BigNat::<F>::equals(cs.namespace(|| "eq"), &a, &b)?;
        Ok(vec![wire(r.lc(CS::one(), F::ONE), r.get_value().map(|x| if x { F::ONE } else { F::ZERO }))])
    }
}
