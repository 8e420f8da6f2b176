from seeds_a import *

seed("too-few-points", "C17",
     "a product of polynomials of different lengths and a dishonest prover",
     "the product is checked at twice the shorter length of points, fewer than its coefficients when the lengths differ",
     [(POLY, "        for _ in 1..(n_product_coeffs + 1) {", "        for _ in 1..min(2 * min(self.coefficients.len(), other.coefficients.len()), n_product_coeffs + 1) {"),
      (POLY, "use std::cmp::max;", "use std::cmp::{max, min};")],
     r'''
use support::*;
use validate_btc_header::mp::bignat::BigNat;
type F = Fp<101>;
fn poly<P: From<BigNat<F>>>(_: fn(P, usize, num_bigint::BigInt) -> BigNat<F>, b: BigNat<F>) -> P { b.into() }
fn main() {
    let want = fs::<F>(&[2, 3, 4, 5]);
    let r = forge::<F>(&fs(&[1, 1, 1, 1, 1]), &fs(&[2, 3, 4, 5, 1]), &move |o| o == &want[..], &|cs, x| {
        let a = poly(BigNat::<F>::from_poly, nat(&x[..4], 4));
        let b = poly(BigNat::<F>::from_poly, nat(&x[4..], 4));
        Ok(a.alloc_product(cs.namespace(|| "p"), &b)?.coefficients)
    });
    report(r.is_some(), "times one is the same polynomial");
}
''')

seed("product-bound-of-one-factor", "C11",
     "multiplying a number of normal words by one whose words are wider than a limb",
     "the bound on a product's words is computed from the first factor's words alone, so the carries are too narrow for the true product",
     [(BN, '''            let mut x = BigInt::from(min(self.params.n_limbs, other.params.n_limbs));
            x *= &self.params.max_word;
            x *= &other.params.max_word;
            x
        };
        let poly_prod''', '''            let mut x = BigInt::from(min(self.params.n_limbs, other.params.n_limbs));
            x *= &self.params.max_word * &self.params.max_word;
            x
        };
        let poly_prod''')],
     r'''
use support::*;
use ff::Field;
use validate_btc_header::mp::bignat::BigNat;
type F = mc::Pallas;
fn main() {
    // limbs of 120 bits; the words of b hold up to 125
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        let v: Vec<F> = x.iter().map(|x| x.get_value().unwrap()).collect();
        let one = num_bigint::BigInt::from(1);
        let a = BigNat::alloc_from_limbs(cs.namespace(|| "a"), || Ok(v[..2].to_vec()), None, 120, 2)?;
        let b = BigNat::alloc_from_limbs(cs.namespace(|| "b"), || Ok(v[2..].to_vec()), Some((one << 125) - 1), 120, 2)?;
        Ok(a.mult(cs.namespace(|| "m"), &b)?.limbs)
    };
    let top = |k: u32| F::from(2).pow_vartime([k as u64]) - F::from(1);
    let mut bad = false;
    for k in [0, 8, 119, 120, 121, 123, 125] {
        bad |= honest::<F>(&[top(120), top(119), top(k), F::from(5)], &g).is_none();
    }
    report(bad, "the product of two numbers in range is accepted");
}
''')

seed("remainder-words-unchecked", "C12",
     "a modulus of several limbs and a prover that writes the remainder with words wider than a limb",
     "red_mod relies on the remainder being below the modulus and no longer range-checks its limbs, so the limbs returned are not unique",
     [(BN, '''            || Ok(BigInt::from(self.value.grab()? % modulus.value.grab()?)),
            self.params.limb_width,
            modulus.limbs.len(),
        )?;
        remainder.assert_well_formed(cs.namespace(|| "remainder rangecheck"))?;
''', '''            || Ok(BigInt::from(self.value.grab()? % modulus.value.grab()?)),
            self.params.limb_width,
            modulus.limbs.len(),
        )?;
''')],
     r'''
use support::*;
type F = Fp<65537>;
fn main() {
    // 0x31 mod 0x57, in limbs of 4 bits
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        Ok(nat(&x[..2], 4).red_mod(cs.namespace(|| "r"), &nat(&x[2..], 4))?.limbs)
    };
    let w = fs::<F>(&[1, 3, 7, 5]);
    let want = fs::<F>(&[1, 3]);
    assert_eq!(honest(&w, &g), Some(want.clone()));
    report(forge(&w, &w, &move |o| o == &want[..], &g).is_some(), "0x31 mod 0x57 has the limbs 1 and 3 only");
}
''')

seed("quotient-unchecked", "C12",
     "a prover that assigns a quotient with words wider than a limb",
     "assert_product_mod returns a quotient whose limbs are no longer range-checked",
     [(BN, '''            self.params.limb_width,
            quotient_limbs,
        )?;
        quotient.assert_well_formed(cs.namespace(|| "quotient rangecheck"))?;
        let a_poly''', '''            self.params.limb_width,
            quotient_limbs,
        )?;
        let a_poly''')],
     r'''
use support::*;
type F = Fp<65537>;
fn main() {
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        Ok(nat(&x[..1], 4).assert_product_mod(cs.namespace(|| "p"), &nat(&x[1..2], 4), &nat(&x[2..3], 4), &nat(&x[3..], 4))?.limbs)
    };
    // 9 * 13 = 117 = 2 + 5 * 23 is 23 = 7 + 16 fives and 2
    let w = fs::<F>(&[9, 13, 5, 2]);
    let want = fs::<F>(&[7, 1]);
    assert_eq!(honest(&w, &g), Some(want.clone()));
    report(forge(&w, &w, &move |o| o == &want[..], &g).is_some(), "the quotient has the limbs 7 and 1 only");
}
''')

seed("factor-unchecked", "C13",
     "a non-divisor and a prover that assigns a factor outside the number's range",
     "divides does not range-check the factor any more, so it can be a fraction modulo the field's order",
     [(BN, '''        // Verify that factor is in bounds
        factor.assert_well_formed(cs.namespace(|| "rangecheck"))?;
        self.verify_mult(cs.namespace(|| "multcheck"), &factor, &other)''', '''        // the product carries into `other`, and so the factor is in bounds
        self.verify_mult(cs.namespace(|| "multcheck"), &factor, &other)''')],
     r'''
use support::*;
type F = Fp<1009>;
fn main() {
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        nat(&x[..1], 4).divides(cs.namespace(|| "d"), &nat(&x[1..], 4))?;
        Ok(vec![])
    };
    assert!(honest::<F>(&fs(&[3, 9]), &g).is_some());
    report(forge::<F>(&fs(&[3, 9]), &fs(&[3, 10]), &|_| false, &g).is_some(), "3 does not divide 10");
}
''')

seed("min-bits-by-limb", "C15",
     "a minimum bit length that is not one more than a multiple of the limb width",
     "enforce_min_bits looks for a set bit from the start of the limb that holds the wanted bit",
     [(BN, "        let upper_bits: Vec<Bit<Scalar>> = bits.into_iter().skip(min_bits - 1).collect();",
           "        let low_limbs = (min_bits - 1) / self.params.limb_width;\n        let upper_bits: Vec<Bit<Scalar>> = bits.into_iter().skip(low_limbs * self.params.limb_width).collect();")],
     r'''
use support::*;
type F = Fp<10007>;
fn main() {
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        nat(&x[..2], 4).enforce_min_bits(cs.namespace(|| "m"), 7)?;
        Ok(vec![])
    };
    assert!(honest::<F>(&fs(&[0, 4]), &g).is_some());
    assert!(honest::<F>(&fs(&[15, 0]), &g).is_none());
    report(honest::<F>(&fs(&[15, 3]), &g).is_some(), "63 has six bits, not seven");
}
''')

seed("full-bits-first-limb", "C15",
     "a number of several limbs whose lowest limb is full while the highest is not",
     "enforce_full_bits takes the value of the top limb but constrains the lowest",
     [(BN, "        let lc = self.limbs.last().unwrap().clone();\n        Num::new(value, lc)", "        let lc = self.limbs.first().unwrap().clone();\n        Num::new(value, lc)"),
      (BN, ".map(|vs| vs.last().unwrap().clone());\n        let lc", ".map(|vs| vs.first().unwrap().clone());\n        let lc")],
     r'''
use support::*;
type F = Fp<10007>;
fn main() {
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        nat(&x[..2], 4).enforce_full_bits(cs.namespace(|| "m"))?;
        Ok(vec![])
    };
    let bad = honest::<F>(&fs(&[0, 8]), &g).is_none() || honest::<F>(&fs(&[8, 7]), &g).is_some();
    report(bad, "0x80 has eight bits, 0x78 has not");
}
''')

seed("product-min-bits", "C08",
     "multiplying two numbers with known minimum lengths that are just that long",
     "a product is stated to have as many bits as its factors together, one more than can be known",
     [(BN, "            prod.params.min_bits = self.params.min_bits + other.params.min_bits - 1;", "            prod.params.min_bits = self.params.min_bits + other.params.min_bits;")],
     r'''
use support::*;
type F = Fp<65537>;
fn main() {
    let mut bad = false;
    make::<F>(&fs(&[4, 4]), &|cs, x| {
        let (mut a, mut b) = (nat(&x[..1], 4), nat(&x[1..], 4));
        a.enforce_min_bits(cs.namespace(|| "a"), 3)?;
        b.enforce_min_bits(cs.namespace(|| "b"), 3)?;
        let p = a.mult(cs.namespace(|| "p"), &b)?;
        let bits = p.value.as_ref().unwrap().bits() as usize;
        if bits < p.params.min_bits {
            return Err(bellpepper_core::SynthesisError::Unsatisfiable);
        }
        Ok(vec![])
    }).map(|_| ()).unwrap_or_else(|| bad = true);
    report(bad, "4 * 4 has the bits it is said to have");
}
''')

seed("concat-low-words", "C08",
     "concatenating below a number one that has wider words (a sum, say)",
     "the concatenation states the word bound of its high part only",
     [(BN, "                max_word: max(&self.params.max_word, &other.params.max_word).clone(),\n                n_limbs: self.params.n_limbs + other.params.n_limbs,",
           "                max_word: self.params.max_word.clone(),\n                n_limbs: self.params.n_limbs + other.params.n_limbs,")],
     r'''
use support::*;
type F = Fp<65537>;
fn main() {
    let m = make::<F>(&fs(&[15, 15, 1]), &|_, x| {
        let low = nat(&x[..1], 4).add::<Rec<F>>(&nat(&x[1..2], 4))?;
        let c = nat(&x[2..], 4).concat(&low)?;
        if F::from_nat(&c.params.max_word) < c.limb_values.as_ref().unwrap()[0] {
            return Err(bellpepper_core::SynthesisError::Unsatisfiable);
        }
        Ok(vec![])
    });
    report(m.is_none(), "no limb of a concatenation exceeds the bound it states");
}
''')

seed("mux-of-different-widths", "C16",
     "selecting between numbers with as many limbs but of different limb widths",
     "mux no longer refuses inputs of different limb widths: the result has the first input's width, whichever is selected",
     [(BN, "        if i0_wires.len() != i1_wires.len() || i0.params.limb_width != i1.params.limb_width {", "        if i0_wires.len() != i1_wires.len() {")],
     r'''
use support::*;
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::{bit::Bit, gadget::Gadget};
type F = Fp<65537>;
fn main() {
    let m = make::<F>(&fs(&[1, 2, 1, 2]), &|cs, x| {
        let s = Bit::alloc(cs.namespace(|| "s"), Some(true))?;
        let (a, b) = (nat(&x[..2], 4), nat(&x[2..], 5));
        let o = BigNat::mux(cs.namespace(|| "mux"), &s, &a, &b)?;
        // the selected number is 1 + 2 * 32
        if (0..2).map(|i| (i, o.limb_values.as_ref().unwrap()[i].0)).map(|(i, v)| v << (o.params.limb_width * i)).sum::<u64>() != 65 {
            return Ok(vec![]);
        }
        Err(bellpepper_core::SynthesisError::Unsatisfiable)
    });
    report(m.is_some(), "what is selected is the selected number, or the inputs are refused");
}
''')

seed("tree-uneven", "C16",
     "a selection tree whose number of inputs is not a power of two of the selectors, such as 3 inputs for 2 bits",
     "mux_tree accepts an odd number of inputs, giving the spare one to the right half, and pads nothing",
     [(GAD, '''            if inputs.len() & 1 != 0 {
                return Err(SynthesisError::Unsatisfiable);
            }
''', '''            if inputs.len() < 2 {
                return inputs.first().cloned().ok_or(SynthesisError::Unsatisfiable);
            }
''')],
     r'''
use support::*;
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::{bit::Bit, gadget::Gadget};
type F = Fp<65537>;
fn main() {
    // no input is the fourth of three
    let m = make::<F>(&fs(&[1, 2, 3]), &|cs, x| {
        let s: Vec<Bit<F>> = (0..2).map(|i| Bit::alloc(cs.namespace(|| format!("s{}", i)), Some(i == 1)).unwrap()).collect();
        let v: Vec<BigNat<F>> = (0..3).map(|i| nat(&x[i..i + 1], 4)).collect();
        Ok(BigNat::mux_tree(cs.namespace(|| "tree"), s.iter(), &v)?.limbs)
    });
    let got = m.map(|m| m.rec.eval(&m.outs[0]).unwrap());
    report(got.is_some() && got != Some(F::from(2)), "the selectors 01 select the second input, or the inputs are refused");
}
''')

seed("public-limbs-reversed", "C28",
     "a number of several limbs made public",
     "inputize publishes the limbs most significant first",
     [(BN, '''        for (i, l) in self.limbs.iter().enumerate() {
            let mut c = cs.namespace(|| format!("limb {}", i));''', '''        for (i, l) in self.limbs.iter().enumerate().rev() {
            let mut c = cs.namespace(|| format!("limb {}", i));''')],
     r'''
use support::*;
type F = Fp<65537>;
fn main() {
    let m = make::<F>(&fs(&[1, 2, 3]), &|cs, x| {
        nat(x, 4).inputize(cs.namespace(|| "pub"))?;
        Ok(vec![])
    }).unwrap();
    let got: Vec<F> = m.rec.inputs[1..].iter().map(|i| m.rec.vals[*i as usize].unwrap()).collect();
    report(got != fs::<F>(&[1, 2, 3]), "limbs are published in order");
}
''')

seed("as-nums-of-known-zero", "C28",
     "converting a number to elements when a limb happens to be zero, and a dishonest prover",
     "as_nums does not tie an element to a wire whose value is zero, so that element is open",
     [(GAD, '''                cs.enforce(
                    || format!("wire eq {}", i),
                    |lc| lc,
                    |lc| lc,
                    |lc| lc + &w - n.get_variable(),
                );''', '''                cs.enforce(
                    || format!("wire eq {}", i),
                    |lc| lc + &w - n.get_variable(),
                    |lc| lc + n.get_variable(),
                    |lc| lc,
                );''')],
     r'''
use support::*;
use validate_btc_header::util::gadget::Gadget;
type F = Fp<101>;
fn main() {
    let want = fs::<F>(&[7, 3]);
    let r = forge::<F>(&fs(&[7, 3]), &fs(&[7, 3]), &move |o| o == &want[..], &|cs, x| {
        Ok(nat(x, 4).as_nums(cs.namespace(|| "nums"))?.iter().map(lc).collect())
    });
    report(r.is_some(), "the elements of 7, 3 are 7 and 3 only");
}
''')
SEEDS["as-nums-of-known-zero"]["needs"] = "a prover that assigns zero for an element of a non-zero limb"
SEEDS["as-nums-of-known-zero"]["breaks"] = "as_nums ties an element to its wire only if the element is not zero"

seed("zero-limbs-unconstrained", "C27",
     "asserting equality with a longer number whose surplus limbs are not zero when parameters are made but are zero in the proof (or the reverse)",
     "equal leaves out the constraint on a surplus limb that is known to be zero, so the circuit depends on the witness",
     [(BN, '''        for i in n..(self.limbs.len()) {
            cs.enforce(''', '''        let known_zero = |i: usize| self.limb_values.as_ref().map_or(false, |vs| vs[i].is_zero_vartime());
        for i in (n..(self.limbs.len())).filter(|i| !known_zero(*i)) {
            cs.enforce(''')],
     r'''
use support::*;
type F = Fp<10007>;
fn main() {
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        nat(&x[..1], 4).equal(cs.namespace(|| "eq"), &nat(&x[1..], 4))?;
        Ok(vec![])
    };
    let a = make::<F>(&fs(&[3, 3, 0]), &g).unwrap();
    let b = make::<F>(&fs(&[3, 3, 1]), &g).unwrap();
    report(a.rec.cons != b.rec.cons, "the constraints do not depend on the values");
}
''')

seed("negative-difference-wraps", "C14",
     "subtracting a number from a smaller one when the difference is allocated by a dishonest prover",
     "the difference is compared with the minuend on the words the minuend has, so that a borrow out of the top is lost",
     [(BN, "        self.equal_when_carried_regroup(cs.namespace(|| \"eq\"), &sum)?;\n        Ok(diff)",
           "        self.equal_when_carried_regroup(cs.namespace(|| \"eq\"), &sum.truncate_limbs(self.limbs.len()))?;\n        Ok(diff)")],
     r'''
use support::*;
type F = Fp<65537>;
fn main() {
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        nat(&x[..1], 4).sub(cs.namespace(|| "s"), &nat(&x[1..], 4))?;
        Ok(vec![])
    };
    // 3 - (2 + 16)
    assert!(honest::<F>(&fs(&[3, 2, 0]), &g).is_some());
    report(forge::<F>(&fs(&[3, 2, 0]), &fs(&[3, 2, 1]), &|_| false, &g).is_some(), "3 - 18 is not a natural number");
}
''')
