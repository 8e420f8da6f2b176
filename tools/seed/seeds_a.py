"""Planted bugs: each one an edit of original lines and a program that shows the property broken."""
BN = "src/mp/bignat.rs"; NUM = "src/util/num.rs"; BIT = "src/util/bit.rs"; GAD = "src/util/gadget.rs"
MED = "src/btc_validation/median.rs"; DIF = "src/btc_validation/difficulty_update.rs"
HDR = "src/btc_validation/header_step.rs"; POLY = "src/mp/poly.rs"; CONV = "src/util/convert.rs"; LAZY = "src/util/lazy.rs"

SEEDS = {}
def seed(id, prop, needs, breaks, edits, main):
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, main=main)

seed("range-check-64-bits", "C02",
     "a range check of 65 bits or more and a prover that assigns a non-bit to a high bit",
     "fits_in_bits only makes its bit variables boolean below bit 64, so a number of any size passes a check of more than 64 bits",
     [(NUM, "for (i, v) in bits.iter().enumerate() {", "for (i, v) in bits.iter().take(u64::BITS as usize - 1).enumerate() {")],
     r'''
use support::*;
use validate_btc_header::util::num::Num;
type F = mc::Pallas;
fn main() {
    // is 2^70 a number of 66 bits?
    let big = F::from_nat(&(num_bigint::BigInt::from(1) << 70u32));
    let r = forge::<F>(&fs(&[5]), &[big], &|_| false, &|cs, x| {
        Num::from(x[0].clone()).fits_in_bits(cs.namespace(|| "fits"), 66)?;
        Ok(vec![])
    });
    report(r.is_some(), "a 71-bit number is not accepted as one of 66 bits");
}
''')

seed("empty-bits-equal-anything", "C03",
     "comparing a number with a bit vector that has no bits left (shifted or truncated away)",
     "Num::is_equal emits no constraint for an empty bit vector, so any number equals it instead of only zero",
     [(NUM, """        let sum_lc = LinearCombination::zero() + &self.num - &sum;
        cs.enforce(|| "sum", |lc| lc + &sum_lc, |lc| lc + CS::one(), |lc| lc);
        Ok(())""", """        if !other.bits.is_empty() {
            let sum_lc = LinearCombination::zero() + &self.num - &sum;
            cs.enforce(|| "sum", |lc| lc + &sum_lc, |lc| lc + CS::one(), |lc| lc);
        }
        Ok(())""")],
     r'''
use support::*;
use validate_btc_header::util::num::Num;
type F = Fp<101>;
fn main() {
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        let n = Num::from(x[0].clone());
        let bv = n.decompose(cs.namespace(|| "bits"), 4)?.shr(4);
        Num::from(x[1].clone()).is_equal(cs.namespace(|| "eq"), &bv)?;
        Ok(vec![])
    };
    assert!(honest::<F>(&fs(&[9, 0]), &g).is_some());
    report(honest::<F>(&fs(&[9, 7]), &g).is_some(), "9 >> 4 is not 7");
}
''')

seed("get-reads-the-allocation", "C04",
     "getting a bit of a vector after a shift, reversal, push or insert",
     "Bitvector::get takes the value from the allocation of that index instead of from the values, which operations keep in step",
     [(BIT, "            value: self.values.as_ref().map(|vs| vs[i].clone()),", "            value: self.allocations.get(i).and_then(|b| b.value),")],
     r'''
use support::*;
use validate_btc_header::util::num::Num;
type F = Fp<101>;
fn main() {
    let mut bad = false;
    for v in 0..16u64 {
        let m = make::<F>(&fs(&[v]), &|cs, x| {
            let bv = Num::from(x[0].clone()).decompose(cs.namespace(|| "bits"), 4)?.shr(1);
            let b = bv.get(0).unwrap();
            Ok(vec![b.bit.clone(), bellpepper_core::LinearCombination::zero() + (F::from(b.value.unwrap() as u64), Rec::<F>::one())])
        }).unwrap();
        let o: Vec<F> = m.outs.iter().map(|l| m.rec.eval(l).unwrap()).collect();
        bad |= o[0] != o[1];
    }
    report(bad, "the value of a bit is the value of its linear combination");
}
''')

seed("shl-short-values", "C04",
     "shifting a bit vector left by more than its length",
     "shl pads the values with at most as many zeros as the vector has bits, while the linear combinations are padded fully",
     [(BIT, "            v.splice(0..0, std::iter::repeat(false).take(i));", "            let pad = vec![false; i.min(v.len())];\n            v.splice(0..0, pad);")],
     r'''
use support::*;
use validate_btc_header::util::num::Num;
type F = Fp<101>;
fn main() {
    let mut bad = false;
    for by in 0..7usize {
        make::<F>(&fs(&[3]), &|cs, x| {
            let bv = Num::from(x[0].clone()).decompose(cs.namespace(|| "bits"), 2)?.shl(by);
            if bv.values.as_ref().map(|v| v.len()) != Some(bv.bits.len()) {
                return Err(bellpepper_core::SynthesisError::Unsatisfiable);
            }
            Ok(vec![])
        }).map(|_| ()).unwrap_or_else(|| bad = true);
    }
    report(bad, "a shifted vector has as many values as bits");
}
''')

seed("lazy-clones-apart", "C05",
     "cloning a lazy cell before its first borrow, and borrowing both",
     "the cell is no longer shared by its clones, so each of them runs the thunk again",
     [(LAZY, "    cell: Rc<RefCell<LazyCellInner<T, F>>>,", "    cell: RefCell<LazyCellInner<T, F>>,"),
      (LAZY, "#[derive(Debug)]\npub enum", "#[derive(Debug, Clone)]\npub enum"),
      (LAZY, "use std::rc::Rc;\n", ""),
      (LAZY, "cell: Rc::new(RefCell::new(LazyCellInner::Unforced(f))),", "cell: RefCell::new(LazyCellInner::Unforced(f)),"),
      (LAZY, "cell: Rc::new(RefCell::new(LazyCellInner::Forced(t))),", "cell: RefCell::new(LazyCellInner::Forced(t)),")],
     r'''
use std::cell::Cell;
use support::report;
use validate_btc_header::util::lazy::LazyCell;
fn main() {
    let n = Cell::new(0);
    let a = LazyCell::new(|| {
        n.set(n.get() + 1);
        n.get()
    });
    let b = a.clone();
    let (x, y) = (*a.borrow(), *b.borrow());
    report(n.get() != 1 || x != y, "the thunk runs once for all clones");
}
''')

seed("signed-repr", "C01",
     "a field whose modulus uses the top bit of its last byte, and an element that has this bit",
     "f_to_nat reads the representation as two's complement, so large elements of such fields become negative numbers",
     [(CONV, "    BigInt::from_bytes_le(Sign::Plus, f.to_repr().as_ref())", "    BigInt::from_signed_bytes_le(f.to_repr().as_ref())"),
      (CONV, "use num_bigint::{BigInt, Sign};", "use num_bigint::BigInt;")],
     r'''
use ff::Field;
use support::*;
use validate_btc_header::util::convert::f_to_nat;
type F = halo2curves::secp256k1::Fq;
fn main() {
    let n = f_to_nat(&-F::ONE);
    report(n < num_bigint::BigInt::from(0), "the last element of secp256k1's scalar field is a natural number");
}
''')

seed("surplus-limbs", "C06",
     "allocating a number from more limb values than it has limbs",
     "alloc_from_limbs only refuses too few values: surplus values enter the number's value but not its limbs",
     [(BN, "                            if vs.len() != n_limbs {", "                            if vs.len() < n_limbs {")],
     r'''
use support::*;
use validate_btc_header::mp::bignat::BigNat;
type F = Fp<10007>;
fn main() {
    let r = make::<F>(&[], &|cs, _| {
        let b = BigNat::alloc_from_limbs(cs.namespace(|| "n"), || Ok(fs(&[1, 2, 3])), None, 4, 2)?;
        Ok(b.limbs.clone())
    });
    report(r.is_some(), "three limbs are not taken for a number of two");
}
''')

seed("from-num-without-range", "C07",
     "a prover that assigns a limb wider than the limb width",
     "from_num checks the sum of the limbs against the field element but no longer that the limbs are of the limb width",
     [(BN, '''        // check if bignat equals n
        // (1) decompose `bignat` into a bitvector `bv`
        let bv = bignat.decompose(cs.namespace(|| "bv"))?;
        // (2) recompose bits and check if it equals n
        n.is_equal(cs.namespace(|| "n"), &bv)?;
''', '''        // check if bignat equals n: recompose its limbs
        let base = (0..limb_width).fold(Scalar::ONE, |b, _| b.double());
        let mut power = Scalar::ONE;
        let mut sum = LinearCombination::zero();
        for limb in bignat.limbs.iter() {
            sum = sum + (power, limb);
            power.mul_assign(&base);
        }
        cs.enforce(|| "n", |lc| lc, |lc| lc, |lc| lc + &n.num - &sum);
''')],
     r'''
use support::*;
use validate_btc_header::mp::bignat::BigNat;
type F = Fp<10007>;
fn main() {
    let want = fs::<F>(&[13, 5, 2]);
    let w = want.clone();
    let r = forge::<F>(&fs(&[13 + 16 * 5 + 256 * 2]), &fs(&[13 + 16 * 5 + 256 * 2]), &move |o| o == &w[..], &|cs, x| {
        Ok(BigNat::from_num(cs.namespace(|| "n"), nums(x).remove(0), 4, 3)?.limbs)
    });
    report(r.is_some(), "605 has only the limbs 13, 5, 2");
}
''')

seed("equal-one-extra-limb", "C09",
     "asserting equality of numbers whose limb counts differ by two or more, the longer having a non-zero limb beyond the first extra one",
     "equal constrains only the first of the surplus limbs to zero",
     [(BN, "        for i in n..(self.limbs.len()) {", "        // a properly carried number exceeds the other by a carry at most\n        for i in (n..(self.limbs.len())).take(1) {")],
     r'''
use support::*;
type F = Fp<10007>;
fn main() {
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        nat(&x[..1], 4).equal(cs.namespace(|| "eq"), &nat(&x[1..], 4))?;
        Ok(vec![])
    };
    assert!(honest::<F>(&fs(&[3, 3, 0, 0]), &g).is_some());
    report(honest::<F>(&fs(&[3, 3, 0, 1]), &g).is_some(), "3 is not 3 + 256");
}
''')

seed("equals-bit-half-bound", "C09",
     "unequal operands and a prover that claims they are equal",
     "the constraint that makes the equality bit 0 for unequal numbers is replaced by one that t is 0 or 1, which leaves the bit open",
     [(BN, """            |lc| lc + a.get_variable() - b.get_variable(),
            |lc| lc + r.get_variable(),
            |lc| lc,""", """            |lc| lc + t.get_variable(),
            |lc| lc + t.get_variable() - CS::one(),
            |lc| lc,""")],
     r'''
use support::*;
use validate_btc_header::mp::bignat::BigNat;
type F = Fp<101>;
fn main() {
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        let b = BigNat::equals(cs.namespace(|| "eq"), &x[0], &x[1])?;
        Ok(vec![b.lc(Rec::<F>::one(), F::from(1))])
    };
    let mut bad = false;
    for (a, b) in [(3, 3), (3, 5), (0, 100), (0, 0)] {
        let want = fs::<F>(&[(a == b) as u64]);
        bad |= honest::<F>(&fs(&[a, b]), &g) != Some(want.clone());
        bad |= forge::<F>(&fs(&[1, 1]), &fs(&[a, b]), &|o| o == &want[..], &g).is_some();
    }
    report(bad, "the equality bit tells whether the numbers are equal");
}
''')

seed("last-carry-unchecked", "C10",
     "numbers that together are wider than the field, and a prover that picks a carry outside its range",
     "the carry into the last limb is no longer range-checked, so equality holds modulo the field's order only",
     [(BN, "            if i < n - 1 {\n                carry.fits_in_bits", "            if i + 2 < n {\n                carry.fits_in_bits"),
      (BN, '            } else {\n                cs.enforce(\n                    || format!("carry {} is out", i),', '            } else if i + 1 == n {\n                cs.enforce(\n                    || format!("carry {} is out", i),')],
     r'''
use support::*;
type F = Fp<1009>;
fn main() {
    // two limbs of 8 bits; 1009 = 3 * 256 + 241
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        nat(&x[..2], 8).equal_when_carried(cs.namespace(|| "eq"), &nat(&x[2..], 8))?;
        Ok(vec![])
    };
    assert!(honest::<F>(&fs(&[5, 4, 5, 4]), &g).is_some());
    let r = forge::<F>(&fs(&[5, 4, 5, 4]), &fs(&[241, 3, 0, 0]), &|_| false, &g);
    report(r.is_some(), "1009 is not 0");
}
''')

seed("group-one-bit-too-wide", "C10",
     "a limb width for which the number of bits of the field, less the carry, is a multiple",
     "grouping of limbs counts on all bits of the field instead of its capacity, so the compared groups can wrap around the modulus",
     [(BN, "        let limbs_per_group = (Scalar::CAPACITY as usize - carry_bits) / self.params.limb_width;",
           "        let limbs_per_group = (Scalar::NUM_BITS as usize - carry_bits) / self.params.limb_width;")],
     r'''
use support::*;
type F = Fp<4099>;
fn main() {
    // the field has 13 bits, 12 of which can be counted on: with a carry of one bit, two limbs make a group
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        nat(&x[..6], 4).equal_when_carried_regroup(cs.namespace(|| "eq"), &nat(&x[6..], 4))?;
        Ok(vec![])
    };
    let base = fs::<F>(&[1, 2, 3, 1, 2, 3, 1, 2, 3, 1, 2, 3]);
    let l = |v: u64| (0..6).map(|i| v >> (4 * i) & 15).collect::<Vec<u64>>();
    let mut bad = false;
    for a in (0..1u64 << 24).step_by(60101) {
        let mut w = l(a);
        w.extend(l(a));
        bad |= honest::<F>(&fs(&w), &g).is_none();
        for d in [1, 3, 4096, 4099, 4101, 8198] {
            let mut w = l(a);
            w.extend(l((a + d) & 0xff_ffff));
            bad |= forge::<F>(&base, &fs(&w), &|_| false, &g).is_some();
        }
    }
    report(bad, "equal numbers, and no others, are accepted as equal");
}
''')
