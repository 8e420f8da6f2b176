from seeds_b import *

seed("shift-of-127-bits", "C18",
     "comparing numbers of exactly 127 bits",
     "the shift for the comparison is taken as 2 << 127, which is lost in 128 bits",
     [(MED, """        let b_value = b.get_value().unwrap();

        // Accomodating n_bits > 128 (i.e a and b atleast 128 bits)
        let zero_shift = if n_bits <= 126 { """, """        let b_value = b.get_value().unwrap();

        // Accomodating n_bits > 128 (i.e a and b atleast 128 bits)
        let zero_shift = if n_bits < 128 { """)],
     r'''
use support::*;
use validate_btc_header::btc_validation::median::less_than;
type F = mc::Pallas;
fn main() {
    let mut bad = false;
    for n in [8usize, 125, 126, 127, 128, 129] {
        for (a, b) in [(3u64, 5u64), (5, 3), (4, 4)] {
            let r = honest::<F>(&fs(&[a, b]), &|cs, x| {
                let r = less_than(cs.namespace(|| "lt"), &x[0], &x[1], n)?;
                Ok(vec![r.lc(Rec::<F>::one(), F::from(1))])
            });
            bad |= r != Some(fs(&[(a < b) as u64]));
        }
    }
    report(bad, "comparisons of every bit length give the order");
}
''')

seed("signed-timestamps", "C20",
     "timestamps after January 2038",
     "timestamps are sorted as signed numbers, so those of the second half of the range come first",
     [(MED, "    prev_timestamps.sort();", "    prev_timestamps.sort_by_key(|time| *time as i32);")],
     r'''
use support::report;
use validate_btc_header::btc_validation::median::compute_median_timestamp;
fn main() {
    let mut bad = false;
    for base in [0u32, 1_300_000_000, 0x7fff_fff0, 0x8000_0000] {
        let mut v: Vec<u32> = [7u32, 3, 20, 0, 9].iter().map(|x| base + x).collect();
        bad |= compute_median_timestamp(&mut v) != base + 7;
    }
    report(bad, "the median is the middle of the sorted list");
}
''')

seed("median-of-many", "C20",
     "a list of 33 or more timestamps in which the median is repeated",
     "the final comparison of the median check is of four bits, too few for the counts in a long list",
     [(MED, '    leq(cs.namespace(|| "median leq"), &lhs, &fe_median_occ, 32usize)', '    leq(cs.namespace(|| "median leq"), &lhs, &fe_median_occ, 4usize)')],
     r'''
use support::*;
use validate_btc_header::btc_validation::median::verify_median_timestamp;
type F = mc::Pallas;
fn main() {
    let mut bad = false;
    for (n, median, want) in [(11u32, 5u32, true), (11, 4, false), (41, 20, true), (41, 0, false), (45, 44, false), (63, 0, false), (63, 62, false), (63, 31, true)] {
        let r = honest::<F>(&[], &|cs, _| {
            let mut t: Vec<u32> = (0..n).collect();
            let r = verify_median_timestamp(cs.namespace(|| "m"), &mut t, median)?;
            Ok(vec![r.lc(Rec::<F>::one(), F::from(1))])
        });
        bad |= r != Some(fs(&[want as u64]));
    }
    report(bad, "the median, and no other, is recognised");
}
''')

seed("absolute-value-open", "C21",
     "a claimed median below the true one and a prover that picks the absolute value of the imbalance",
     "the negation of the imbalance is constrained only up to its square",
     [(MED, '''        |lc| lc + sign_diff.get_variable() + neg_sign_diff.get_variable(),
        |lc| lc + CS::one(),
        |lc| lc,''', '''        |lc| lc + sign_diff.get_variable() + neg_sign_diff.get_variable(),
        |lc| lc + neg_sign_diff.get_variable(),
        |lc| lc,''')],
     r'''
use support::*;
use validate_btc_header::btc_validation::median::verify_allocated_median;
type F = mc::Pallas;
fn main() {
    let g = |cs: &mut Rec<F>, x: &[bellpepper_core::num::AllocatedNum<F>]| -> Outs<F> {
        let r = verify_allocated_median(cs.namespace(|| "m"), &x[1..], &x[0])?;
        Ok(vec![r.lc(Rec::<F>::one(), F::from(1))])
    };
    let base = fs::<F>(&[5, 5, 1, 9]);
    assert_eq!(honest(&base, &g), Some(fs(&[1])));
    let mut bad = false;
    for m in [1u64, 9, 4] {
        bad |= forge(&base, &fs(&[m, 5, 1, 9]), &|o| o == &fs::<F>(&[0])[..], &g).is_some();
    }
    report(bad, "only 5 is the median of 5, 1, 9");
}
''')

seed("target-overflow", "C22",
     "a previous target close to 2^256, whose update does not fit in 256 bits",
     "the computed target is truncated to four limbs before it is compared, so an overflowing update is accepted",
     [(DIF, '    target.equal(cs.namespace(|| "computation equal to next target"), &t_new).unwrap()',
            '    target.equal(cs.namespace(|| "computation equal to next target"), &t_new.truncate_limbs(4)).unwrap()')],
     r'''
use num_bigint::BigInt;
use support::*;
use validate_btc_header::btc_validation::difficulty_update::verify_difficulty_update;
type F = mc::Pallas;
fn main() {
    let mut bad = false;
    for (prev, t) in [(BigInt::from(1) << 200u32, 1_300_000u32), (BigInt::from(1) << 255u32, 2_419_200), ((BigInt::from(1) << 255u32) + 77, 4_000_000)] {
        let new = &prev * t / 1_209_600;
        let cut = &new % (BigInt::from(1) << 256u32);
        let lo = |n: &BigInt| u128::try_from(n % (BigInt::from(1) << 128u32)).unwrap();
        let hi = |n: &BigInt| u128::try_from(n >> 128u32).unwrap();
        let r = honest::<F>(&[], &|cs, _| {
            verify_difficulty_update(cs.namespace(|| "d"), hi(&cut), lo(&cut), hi(&prev), lo(&prev), t);
            Ok(vec![])
        });
        bad |= r.is_some() != (cut == new);
    }
    report(bad, "a target is accepted if and only if it is the updated one");
}
''')

seed("scaled-time", "C23",
     "a prover that assigns another quotient and remainder of the same product",
     "mult_mod leaves the top limb of its quotient without a range check, so the product is split into other quotients and remainders",
     [(BN, '''        quotient.assert_well_formed(cs.namespace(|| "quotient rangecheck"))?;
        let remainder = BigNat::alloc_from_nat(
            cs.namespace(|| "remainder"),
            || {
                Ok({
                    let mut x = self.value.grab()?.clone();
                    x *= other.value.grab()?;
                    x %=''', '''        quotient.truncate_limbs(quotient_limbs - 1).assert_well_formed(cs.namespace(|| "quotient rangecheck"))?;
        let remainder = BigNat::alloc_from_nat(
            cs.namespace(|| "remainder"),
            || {
                Ok({
                    let mut x = self.value.grab()?.clone();
                    x *= other.value.grab()?;
                    x %=''')],
     r'''
use support::*;
use bellpepper_core::num::AllocatedNum;
use mc::XField as _;
use num_bigint::BigInt;
use num_traits::One;
use validate_btc_header::btc_validation::difficulty_update::calculate_difficulty_update;
type F = mc::Pallas;
// x[2..] are what the prover claims the lower limbs of the result to be
fn g(cs: &mut Rec<F>, x: &[AllocatedNum<F>]) -> Outs<F> {
    let l = calculate_difficulty_update(cs.namespace(|| "d"), &x[0], &x[1])?.limbs;
    for (i, c) in x[2..].iter().enumerate() {
        cs.enforce(|| format!("claim {}", i), |z| z, |z| z, |z| z + c.get_variable() - &l[i]);
    }
    Ok(l)
}
fn main() {
    let (prev, time) = (1u64 << 40, 1_300_000u64);
    let mut base = fs::<F>(&[prev, time]);
    let want = honest(&base, &g).unwrap();
    let lower = want.len() - 1;
    let mut bad = false;
    let product = BigInt::from(prev) * BigInt::from(time);
    let rest = BigInt::from(prev as u128 * time as u128 % 1209600);
    let all = BigInt::one() << (64 * lower);
    // the inverse of 4725 modulo a power of two
    let inv = {
        let mut x = BigInt::one();
        for _ in 0..12 { x = (&x * (BigInt::from(2) - BigInt::from(4725) * &x)) % &all; if x < BigInt::from(0) { x += &all; } }
        x
    };
    assert_eq!(&inv * BigInt::from(4725) % &all, BigInt::one());
    base.extend_from_slice(&want[..lower]);
    for r in [&rest - BigInt::from(256), &rest + BigInt::from(256), &rest + BigInt::from(4096)] {
        if r < BigInt::from(0) || r >= BigInt::from(1209600) { continue; }
        // another quotient: right in the lower limbs, the top limb makes up for the rest
        let mut q = (&product - &r) / BigInt::from(256) * &inv % &all;
        if q < BigInt::from(0) { q += &all; }
        let mut w = fs::<F>(&[prev, time]);
        for i in 0..lower {
            let limb: BigInt = (&q >> (64 * i)) % (BigInt::one() << 64);
            w.push(F::from_nat(&limb));
        }
        bad |= forge(&base, &w, &|o| o == &want[..], &g).is_some();
    }
    report(bad, "the updated target has one representation");
}
''')

HEAD = r'''
use support::*;
use bellpepper_core::ConstraintSystem as _;
use nova_snark::traits::circuit::StepCircuit;
use validate_btc_header::btc_validation::header_step::BlockHeader;
type F = mc::Pallas;
const BLOCK: &str = "010000009500c43a25c624520b5100adf82cb9f9da72fd2447a496bc600b0000000000006cd862370395dedf1da2841ccda0fc489e3039de5f1ccddef0e834991a65600ea6c8cb4db3936a1ae3143991";
const BLOCK1: &str = "010000006fe28c0ab6f1b372c1a6a246ae63f74f931e8365e15a089c68d6190000000000982051fd1e4ba744bbbe680e1fee14677ba1a3c3540bf7b1cdb606e857233e0e61bc6649ffff001d01e36299";
fn words(h: &str) -> [u64; 10] {
    let mut w = [0; 10];
    for i in 0..10 { w[i] = u64::from_str_radix(&h[16 * i..16 * i + 16], 16).unwrap(); }
    // the last word: threshold and nonce
    w
}
fn step(h: &str) -> impl Fn(&mut Rec<F>, &[bellpepper_core::num::AllocatedNum<F>]) -> Outs<F> {
    let w = words(h);
    move |cs, x| {
        let b = BlockHeader::<F>::new_blocks(vec![w]);
        Ok(b[0].synthesize(cs, x)?.iter().map(lc).collect())
    }
}
fn num(s: &str) -> F { F::from_nat(&s.parse().unwrap()) }
/// the state before block 123456
fn z() -> Vec<F> {
    let mut z = vec![num("18283544428642297129396529020735695233361821945456783020785813")];
    z.extend(fs::<F>(&[1305191152, 1305191688, 1305193319, 1305194571, 1305194986, 1305195947, 1305197900, 1305199436, 1305200301, 1305200460, 1305200584]));
    z.push(num("171262555713783851185422181139260521316022447660158187451973632"));
    z.extend(fs::<F>(&[1304975844, 480, 0]));
    z
}
/// the state before block 1
fn z1() -> Vec<F> {
    let hash = num_bigint::BigInt::parse_bytes(b"000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f", 16).unwrap();
    let mut z = vec![F::from_nat(&hash)];
    z.extend(fs::<F>(&[1231006505; 11]));
    z.push(F::from_nat(&(num_bigint::BigInt::from(0xffff) << 208u32)));
    z.extend(fs::<F>(&[1231006505, 1, 1]));
    z
}
'''

seed("easy-targets", "C24",
     "a block of low difficulty, with a target above 2^209 (the first years of the chain)",
     "the hash is compared with the target as numbers of 208 bits, so valid blocks of low difficulty are rejected",
     [(HDR, '&curr_hash, &target, 224usize).unwrap();', '&curr_hash, &target, 208usize).unwrap();')],
     HEAD + r'''
fn main() {
    assert!(honest(&z(), &step(BLOCK)).is_some());
    report(honest(&z1(), &step(BLOCK1)).is_none(), "block 1 is accepted");
}
''')

seed("time-equal-to-median", "C25",
     "a header whose time is exactly the median of the last eleven",
     "the time is required not to be before the median, instead of after it",
     [(HDR, 'let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();',
            'let r_time = median::leq(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();')],
     HEAD + r'''
fn main() {
    let g = step(BLOCK);
    let out = honest(&z(), &g).unwrap();
    let mut w = z();
    for i in 1..=11 { w[i] = out[11]; }
    report(honest(&w, &g).is_some(), "a block at the median time is rejected");
}
''')

seed("target-changes-midway", "C25",
     "a header with another target than the state's in the middle of an epoch",
     "the target must equal the state's only on the first block of an epoch, where it is updated anyway",
     [(HDR, '''            |lc| lc + target.get_variable() - z_i[12].get_variable(),
            |lc| lc + z_i[14].get_variable(),
            |lc| lc,''', '''            |lc| lc + target.get_variable() - target.get_variable(),
            |lc| lc + z_i[14].get_variable(),
            |lc| lc,''')],
     HEAD + r'''
fn main() {
    let g = step(BLOCK);
    assert!(honest(&z(), &g).is_some());
    let mut w = z();
    w[12] += F::from(1u64 << 40);
    report(honest(&w, &g).is_some(), "a block whose target is not the state's is rejected");
}
''')
SEEDS["target-changes-midway"]["breaks"] = "the constraint that ties the target to the state's compares the target with itself"

seed("counter-open-at-wrap", "C26",
     "the last block of an epoch and a prover that picks the next counter",
     "the next counter is constrained unless the epoch ends, when it may be anything",
     [(HDR, '''            |lc| lc + CS::one() + z_i[14].get_variable(),
            |lc| lc + CS::one() - &last_of_epoch.lc(CS::one(), F::ONE),
            |lc| lc + z_out[14].get_variable(),''', '''            |lc| lc + CS::one() + z_i[14].get_variable() - z_out[14].get_variable(),
            |lc| lc + CS::one() - &last_of_epoch.lc(CS::one(), F::ONE),
            |lc| lc,''')],
     HEAD + r'''
fn main() {
    let g = step(BLOCK);
    let mut bad = false;
    for counter in [480u64, 2014, 2015, 1] {
        let mut w = z();
        w[14] = F::from(counter);
        let m = make(&w, &g).unwrap();
        assert!(m.rec.satisfied());
        // another value for a variable of the next state
        for o in &m.outs {
            let mut vals = m.rec.vals.clone();
            let v = o.t[0].0 as usize;
            vals[v] = vals[v].map(|x| x + F::from(1));
            bad |= mc::first_unsat(&m.rec.cons, &vals).is_none();
        }
    }
    report(bad, "the next state is forced");
}
''')

seed("epoch-selector-free", "C26",
     "a block in the middle of an epoch and a prover that takes it for the first of one",
     "the selector that is 0 on the first block of an epoch and 1 otherwise need only be 0 there",
     [(HDR, '''            |lc| lc + z_i[14].get_variable(),
            |lc| lc + t.get_variable() - CS::one(),
            |lc| lc,''', '''            |lc| lc + t.get_variable(),
            |lc| lc + t.get_variable() - CS::one(),
            |lc| lc,''')],
     HEAD + r'''
use ff::Field;
fn main() {
    // In the middle of an epoch that took two weeks exactly: the inverse of the counter, and what follows from it,
    // may be 0 instead; then the epoch starts anew.
    let g = step(BLOCK);
    let mut w = z();
    w[13] = w[11] - F::from(1209600);
    let m = make(&w, &g).unwrap();
    assert!(m.rec.satisfied());
    let time = m.rec.eval(&m.outs[11]).unwrap();
    let vals: Vec<F> = m.rec.vals.iter().map(|x| x.unwrap()).collect();
    let start = m.outs[13].t[0].0 as usize;
    let inv = F::from(480).invert().unwrap();
    let mut bad = false;
    // the variables that hold the inverse of the counter
    for i in (17..vals.len()).filter(|i| vals[*i] == inv) {
        let mut v = vals.clone();
        v[i] = F::ZERO;
        v[start] = time;
        // the variable that is their product, 1 so far
        for c in &m.rec.cons {
            if c.a.t.len() == 1 && c.b.t.len() == 1 && c.c.t.len() == 1 && c.b.t[0].0 as usize == i {
                v[c.c.t[0].0 as usize] = F::ZERO;
            }
        }
        let a: Vec<Option<F>> = v.into_iter().map(Some).collect();
        bad |= time != w[13] && mc::first_unsat(&m.rec.cons, &a).is_none();
    }
    report(bad, "the start of the epoch does not change in its middle");
}
''')
