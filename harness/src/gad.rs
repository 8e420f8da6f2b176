//! The repository's multi-limb gadgets, as circuits over their input limbs.
use mc::*;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::bit::Bit;
use validate_btc_header::util::gadget::Gadget;

pub fn pow2(k: usize) -> BigInt {
    BigInt::one() << k
}
pub fn miss() -> SynthesisError {
    SynthesisError::AssignmentMissing
}

/// An input number: `n` limbs of width `lw`, each at most `max`; known to be at least 2^(min_bits-1).
#[derive(Clone, Debug)]
pub struct Spec {
    pub lw: usize,
    pub n: usize,
    pub max: Option<BigInt>,
    pub min_bits: usize,
}
impl Spec {
    pub fn new(lw: usize, n: usize) -> Self {
        Spec { lw, n, max: None, min_bits: 0 }
    }
    pub fn wide(lw: usize, n: usize, max: u64) -> Self {
        Spec { lw, n, max: Some(max.into()), min_bits: 0 }
    }
    pub fn at_least(mut self, b: usize) -> Self {
        self.min_bits = b;
        self
    }
    pub fn max_word(&self) -> BigInt {
        self.max.clone().unwrap_or(pow2(self.lw) - 1)
    }
    pub fn value(&self, limbs: &[BigInt]) -> BigInt {
        limbs.iter().rev().fold(BigInt::zero(), |a, x| (a << self.lw) + x)
    }
    /// within the contract of the number
    pub fn admits(&self, limbs: &[BigInt]) -> bool {
        limbs.iter().all(|l| *l <= self.max_word())
            && (self.min_bits == 0 || self.value(limbs) >= pow2(self.min_bits - 1))
    }
    pub fn tag(&self) -> String {
        format!(
            "{}x{}{}{}",
            self.n,
            self.lw,
            self.max.as_ref().map(|m| format!("m{}", m)).unwrap_or_default(),
            if self.min_bits > 0 { format!("b{}", self.min_bits) } else { String::new() }
        )
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Equal,
    AssertEqual,
    IsEqual,
    Carried,
    Regroup,
    Mult,
    Divides,
    Sub,
    Min,
    MultMod,
    RedMod,
    ProductMod,
    MinBits(usize),
    FullBits,
    Mux,
    Switch,
    Tree,
    WellFormed,
    Inputize,
    AsNums,
    PolyProduct,
    PolySum,
    Recompose(usize),
}
/// The polynomial type lives in a private module: reach it through the public signature that takes one.
pub fn poly_of<F: XField, P: From<BigNat<F>>>(_: fn(P, usize, BigInt) -> BigNat<F>, b: BigNat<F>) -> P {
    b.into()
}
pub struct Gad {
    pub op: Op,
    pub bits: usize,
    pub ins: Vec<Spec>,
}

thread_local! {
    /// the system at hand does not compute witnesses, whatever inputs it is given
    pub static NO_WITNESS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// what a number says about itself must agree with what it is
pub fn claims<F: XField>(what: &str, b: &BigNat<F>, witness: bool) {
    let p = &b.params;
    if b.limbs.len() != p.n_limbs {
        panic!("{}: {} limbs, {} stated", what, b.limbs.len(), p.n_limbs);
    }
    if !witness || NO_WITNESS.get() {
        return;
    }
    let lv = match &b.limb_values {
        Some(v) => v,
        None => panic!("{}: limb values missing", what),
    };
    if lv.len() != p.n_limbs {
        panic!("{}: {} limb values for {} limbs", what, lv.len(), p.n_limbs);
    }
    let mut v = BigInt::zero();
    for l in lv.iter().rev() {
        let l = l.nat();
        if l > p.max_word {
            panic!("{}: limb {} above the stated bound {}", what, l, p.max_word);
        }
        v = (v << p.limb_width) + l;
    }
    if b.value.as_ref() != Some(&v) {
        panic!("{}: stated value {:?}, limbs say {}", what, b.value, v);
    }
    if p.min_bits > 0 && v < pow2(p.min_bits - 1) {
        panic!("{}: {} has less than the stated {} bits", what, v, p.min_bits);
    }
    if p.n_limbs > 0 && v >= pow2(b.n_bits()) {
        panic!("{}: {} has more than the stated {} bits", what, v, b.n_bits());
    }
}
pub fn bn_wires<F: XField>(what: &str, b: &BigNat<F>, witness: bool) -> Vec<Wire<F>> {
    claims(what, b, witness);
    (0..b.limbs.len()).map(|i| wire(b.limbs[i].clone(), b.limb_values.as_ref().map(|v| v[i]))).collect()
}
impl<F: XField> Circuit<F> for Gad {
    fn n_in(&self) -> usize {
        self.bits + self.ins.iter().map(|s| s.n).sum::<usize>()
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let cs = &mut cs;
        let k = w.is_some();
        let mut at = 0;
        let mut sel = vec![];
        for i in 0..self.bits {
            sel.push(Bit::alloc(cs.namespace(|| format!("sel{}", i)), w.map(|w| w[at] == F::ONE))?);
            at += 1;
        }
        let mut b: Vec<BigNat<F>> = vec![];
        for (i, s) in self.ins.iter().enumerate() {
            let ws = w.map(|w| w[at..at + s.n].to_vec());
            at += s.n;
            let mut x = BigNat::alloc_from_limbs(cs.namespace(|| format!("in{}", i)), || ws.ok_or(miss()), s.max.clone(), s.lw, s.n)?;
            x.params.min_bits = s.min_bits;
            b.push(x);
        }
        let mut cs = cs.namespace(|| "gadget");
        Ok(match self.op {
            Op::Equal => {
                b[0].equal(cs, &b[1])?;
                vec![]
            }
            Op::AssertEqual => {
                Gadget::assert_equal(cs, &b[0], &b[1])?;
                vec![]
            }
            Op::IsEqual => {
                let r = b[0].is_equal(cs.namespace(|| "e"), &b[1])?;
                vec![wire(r.lc(CS::one(), F::ONE), r.get_value().map(|x| if x { F::ONE } else { F::ZERO }))]
            }
            Op::Carried => {
                b[0].equal_when_carried(cs, &b[1])?;
                vec![]
            }
            Op::Regroup => {
                b[0].equal_when_carried_regroup(cs, &b[1])?;
                vec![]
            }
            Op::Mult => bn_wires("product", &b[0].mult(cs, &b[1])?, k),
            Op::Divides => {
                b[0].divides(cs, &b[1])?;
                vec![]
            }
            Op::Sub => bn_wires("difference", &b[0].sub(cs, &b[1])?, k),
            Op::Min => bn_wires("minimum", &b[0].min(cs, &b[1])?, k),
            Op::MultMod => {
                let (q, r) = b[0].mult_mod(cs, &b[1], &b[2])?;
                let mut o = bn_wires("quotient", &q, k);
                o.extend(bn_wires("remainder", &r, k));
                o
            }
            Op::RedMod => bn_wires("remainder", &b[0].red_mod(cs, &b[1])?, k),
            Op::ProductMod => bn_wires("quotient", &b[0].assert_product_mod(cs, &b[1], &b[2], &b[3])?, k),
            Op::MinBits(m) => {
                let mut x = b[0].clone();
                x.enforce_min_bits(cs, m)?;
                bn_wires("number", &x, k)
            }
            Op::FullBits => {
                let mut x = b[0].clone();
                x.enforce_full_bits(cs)?;
                bn_wires("number", &x, k)
            }
            Op::Mux => bn_wires("selected", &BigNat::mux(cs, &sel[0], &b[0], &b[1])?, k),
            Op::Switch => {
                let (x, y) = BigNat::switch(cs, &sel[0], &b[0], &b[1])?;
                let mut o = bn_wires("first", &x, k);
                o.extend(bn_wires("second", &y, k));
                o
            }
            Op::Tree => bn_wires("selected", &BigNat::mux_tree(cs, sel.iter(), &b)?, k),
            Op::WellFormed => {
                b[0].assert_well_formed(cs)?;
                vec![]
            }
            Op::Inputize => {
                b[0].inputize(cs.namespace(|| "own"))?;
                Gadget::inputize(&b[1], cs.namespace(|| "trait"))?;
                vec![]
            }
            Op::AsNums => {
                let n = b[0].as_nums(cs)?;
                n.into_iter().map(|n| wire(LinearCombination::zero() + n.get_variable(), n.get_value())).collect()
            }
            Op::PolyProduct | Op::PolySum => {
                let x = poly_of(BigNat::from_poly, b[0].clone());
                let y = poly_of(BigNat::from_poly, b[1].clone());
                let z = if self.op == Op::PolySum { x.sum(&y) } else { x.alloc_product(cs, &y)? };
                // evaluation of the values, at a few points
                if let Some(v) = &z.values {
                    for t in 0..4 {
                        let t = F::from(t);
                        let e = v.iter().rev().fold(F::ZERO, |a, c| a * t + *c);
                        let (ex, ey) = (x.evaluate_at(t).unwrap(), y.evaluate_at(t).unwrap());
                        let want = if self.op == Op::PolySum { ex + ey } else { ex * ey };
                        if z.evaluate_at(t) != Some(e) || e != want {
                            panic!("polynomial evaluates to {:?} at {:?}, its coefficients to {:?}, its operands to {:?}", z.evaluate_at(t), t, e, want);
                        }
                    }
                } else if k && !NO_WITNESS.get() {
                    panic!("polynomial without values");
                }
                let zv = z.values.clone();
                z.coefficients.into_iter().enumerate().map(|(i, c)| wire(c, zv.as_ref().map(|v| v[i]))).collect()
            }
            Op::Recompose(g) => {
                let bv = b[0].decompose(cs.namespace(|| "d"))?;
                bn_wires("recomposed", &BigNat::recompose(&bv, g), k)
            }
        })
    }
}

/// The bits a carry between numbers with limbs up to `m` needs (a carry is below 2m/(2^lw - 1)).
pub fn carry_width(m: &BigInt, lw: usize) -> usize {
    let d = pow2(lw) - 1;
    let c: BigInt = (m * 2 + &d - 1) / &d;
    if c > BigInt::one() {
        BigInt::from(c - 1).bits() as usize
    } else {
        0
    }
}
/// can limbs up to `m` be carried in this field
pub fn carriable<F: XField>(m: &BigInt, lw: usize) -> bool {
    lw + carry_width(m, lw) <= F::CAPACITY as usize
}

pub struct Case<'a> {
    pub sel: Vec<bool>,
    pub limbs: &'a [Vec<BigInt>],
    pub v: Vec<BigInt>,
}
pub type Oracle<F> = dyn Fn(&Case) -> Exp<F> + Sync + Send;

pub fn limbs_of<F: XField>(v: &BigInt, lw: usize, n: usize) -> Vec<F> {
    let mask = pow2(lw) - 1;
    (0..n).map(|i| F::from_nat(&((v >> (i * lw)) & &mask))).collect()
}
/// Every combination of limbs drawn from `dom(input, limb)`, for every selector.
pub fn drive<F: XField>(
    ctx: &Ctx,
    key: &str,
    g: &Gad,
    dom: &dyn Fn(usize, usize) -> Vec<BigInt>,
    oracle: &Oracle<F>,
    attack: &dyn Fn(&Exp<F>, u64) -> bool,
) {
    let mut axes: Vec<Vec<BigInt>> = vec![];
    for _ in 0..g.bits {
        axes.push(vec![0.into(), 1.into()]);
    }
    for (i, s) in g.ins.iter().enumerate() {
        for l in 0..s.n {
            axes.push(dom(i, l));
        }
    }
    let total: u64 = axes.iter().map(|a| a.len() as u64).product();
    let decode = |mut c: u64| -> Vec<BigInt> {
        let mut o = Vec::with_capacity(axes.len());
        for a in &axes {
            o.push(a[(c % a.len() as u64) as usize].clone());
            c /= a.len() as u64;
        }
        o
    };
    let judge = |w: &[BigInt]| -> Exp<F> {
        let mut at = g.bits;
        let limbs: Vec<Vec<BigInt>> = g
            .ins
            .iter()
            .map(|s| {
                at += s.n;
                w[at - s.n..at].to_vec()
            })
            .collect();
        if g.ins.iter().zip(&limbs).any(|(s, l)| !s.admits(l)) {
            return Exp::Skip;
        }
        let v = g.ins.iter().zip(&limbs).map(|(s, l)| s.value(l)).collect();
        oracle(&Case { sel: w[..g.bits].iter().map(|x| *x == BigInt::one()).collect(), limbs: &limbs, v })
    };
    let fw = |w: &[BigInt]| -> Vec<F> { w.iter().map(|x| F::from_nat(x)).collect() };
    // an input the gadget handles
    let mut base = None;
    for c in 0..total.min(1 << 22) {
        let w = decode(c);
        if matches!(judge(&w), Exp::Outs(_)) {
            base = Some(fw(&w));
            break;
        }
    }
    let base = match base {
        Some(b) => b,
        None => {
            ctx.note("circuits_without_an_acceptable_input", 1);
            return;
        }
    };
    if let Some(mut j) = Judge::new(ctx, key, g, &base) {
        let mut n = 0;
        for c in 0..total {
            let w = decode(c);
            let e = judge(&w);
            if matches!(e, Exp::Skip) {
                continue;
            }
            let f = fw(&w);
            j.honest(&f, &e);
            if attack(&e, n) {
                j.attack(&f, &e);
            }
            n += 1;
        }
        ctx.note("input_combinations", n);
        j.done();
    }
}
/// all values up to `m` (never past the field)
pub fn full<F: XField>(m: &BigInt) -> Vec<BigInt> {
    let mut v = vec![];
    let mut i = BigInt::zero();
    let p = F::modulus();
    while i <= *m && i < p {
        v.push(i.clone());
        i += 1;
    }
    v
}
/// values at which limbs of width `lw` up to `m` change behaviour
pub fn corners<F: XField>(lw: usize, m: &BigInt) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = vec![0.into(), 1.into(), pow2(lw) - 1, pow2(lw), m - 1, m.clone(), pow2(lw - 1)];
    v.retain(|x| *x >= BigInt::zero() && x <= m && *x < F::modulus());
    v.sort();
    v.dedup();
    v
}
