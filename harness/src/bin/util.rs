//! C01 conversions, C02 range checks, C03 bit decomposition
use harness::*;
use bellpepper_core::ConstraintSystem;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::convert::*;

pub fn two(k: usize) -> BigInt {
    BigInt::one() << k
}
/// numbers at which a representation of `bits` bits in a field with modulus `p` can go wrong
pub fn edges(p: &BigInt, top: usize) -> Vec<BigInt> {
    let mut v = vec![];
    for k in 0..=top {
        for d in [-1i32, 0, 1] {
            v.push(two(k) + d);
        }
    }
    for d in -3i32..=3 {
        v.push(p + d);
        v.push(p * 2 + d);
        v.push(p / 2 + d);
    }
    v.retain(|x| *x >= BigInt::zero());
    v.sort();
    v.dedup();
    v
}

// ------------------------------------------------------------------ C01
fn conv_cases<F: XField>(ctx: &Ctx, ns: &[BigInt]) {
    let p = F::modulus();
    let mut l = Local::default();
    for n in ns {
        let key = format!("conv/{}/n={}", F::name(), n);
        let want = *n < p && *n >= BigInt::zero();
        match guardp(|| nat_to_f::<F>(n)) {
            Out::Ok(Some(f)) => {
                l.eval("converted");
                if !want || f.nat() != *n {
                    ctx.fail(&format!("{}/nat_to_f", key), || {
                        format!("the natural number {} became the field element {} of {} (modulus {})", n, f.nat(), F::name(), p)
                    });
                }
            }
            Out::Ok(None) => {
                l.eval("refused");
                if want {
                    ctx.fail(&format!("{}/nat_to_f", key), || format!("{} refused although it is below the modulus {}", n, p));
                }
            }
            o => {
                l.eval("failed");
                ctx.fail(&format!("{}/nat_to_f", key), || o.why())
            }
        }
        if want {
            let f = F::from_nat(n);
            match guardp(|| f_to_nat(&f)) {
                Out::Ok(m) if m == *n => l.eval("converted"),
                o => ctx.fail(&format!("{}/f_to_nat", key), || format!("field element {} became {:?}", n, o)),
            }
            let fits = *n < two(64);
            match guardp(|| f_to_usize(&f)) {
                Out::Ok(m) => {
                    l.eval("converted");
                    if !fits || BigInt::from(m) != *n {
                        ctx.fail(&format!("{}/f_to_usize", key), || format!("field element {} became the machine integer {}", n, m))
                    }
                }
                o => {
                    l.eval("refused");
                    if fits {
                        ctx.fail(&format!("{}/f_to_usize", key), || format!("field element {} cannot be converted: {}", n, o.why()))
                    }
                }
            }
            if fits {
                let m: usize = n.iter_u64_digits().next().unwrap_or(0) as usize;
                match guardp(|| usize_to_f::<F>(m)) {
                    Out::Ok(g) if g.nat() == *n => l.eval("converted"),
                    o => ctx.fail(&format!("{}/usize_to_f", key), || format!("machine integer {} became {:?}", n, o)),
                }
            }
        }
    }
    ctx.visited(ns.len() as u64, l.outcomes.values().sum());
    ctx.validated(l.outcomes.values().sum());
    ctx.merge(l);
}
pub fn c01(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    macro_rules! t {
        ($($p:literal),*) => { $( jobs.add(format!("conv/F{}", $p), move |ctx, _| {
            let v: Vec<BigInt> = (0..(4 * $p as i64).min(40_000)).map(BigInt::from).collect();
            conv_cases::<Fp<$p>>(ctx, &v);
        }); )* };
    }
    t!(2, 3, 5, 7, 11, 13, 17, 31, 61, 127, 251, 257, 509, 1021, 4093, 65521, 65537, 16777213);
    macro_rules! b {
        ($($f:ty),*) => { $( jobs.add(format!("conv/{}", <$f>::name()), move |ctx, _| {
            let mut v = edges(&<$f>::modulus(), 520);
            // every single-byte pattern: byte order of every representation
            for i in 0..33 { for b in [1u32, 0x5a, 0x80, 0xff] { v.push(BigInt::from(b) << (8 * i)); } }
            let mut x = BigInt::zero();
            for i in 0..40u32 { x = (x << 8) + (i * 7 + 3); v.push(x.clone()); v.push(&x % <$f>::modulus()); }
            v.extend((0..1200).map(BigInt::from));
            v.sort(); v.dedup();
            conv_cases::<$f>(ctx, &v);
        }); )* };
    }
    b!(Fr, Pallas, Vesta, Bn, Secp);
    jobs.run(ctx);
    ctx.sample("rule", || "every natural number 0..min(4p,40000) in 18 small fields; 2^k-1,2^k,2^k+1 (k<=520), p and 2p and p/2 +-3, single-byte patterns and 0..1200 in 5 production fields".into());
}

// ------------------------------------------------------------------ C02
pub fn yes_no<F>(b: bool) -> Exp<F> {
    if b {
        Exp::Outs(vec![])
    } else {
        Exp::Reject
    }
}
fn range_tiny<const P: u64>(_: &Ctx, jobs: &mut Jobs)  {
    type T<const P: u64> = Fp<P>;
    let nb = (64 - P.leading_zeros()) as usize;
    for n in 0..=nb {
        // (2 is not invertible in the field of two elements)
        for fi in 0..if P == 2 { 1 } else { 2 } {
            let key = format!("fits/F{}/n={}/form{}", P, n, fi);
            jobs.add(key, move |ctx, k| {
                let form = if fi == 0 { Form::<T<P>>::var() } else { Form::mixed() };
                let c = Range { form: form.clone(), n };
                if let Some(mut j) = Judge::new(ctx, k, &c, &form.solve(T::<P>::tiny(0), T::<P>::tiny(1))) {
                    for v in 0..P {
                        for y in if fi == 0 { vec![0] } else { vec![0, 1, P - 1] } {
                            let w = form.solve(Fp(v), Fp(y));
                            j.both(&w, yes_no((v as u128) < (1u128 << n)));
                        }
                    }
                    j.done();
                }
            });
        }
    }
}
fn wf_tiny<const P: u64>(_: &Ctx, jobs: &mut Jobs, max_n: usize) {
    let nb = (64 - P.leading_zeros()) as usize;
    for lw in 1..nb {
        for n in 1..=max_n {
            let key = format!("wellformed/F{}/lw={}/limbs={}", P, lw, n);
            jobs.add(key, move |ctx, k| {
                let c = WellFormed { lw, n };
                let all: Vec<Fp<P>> = (0..P).map(Fp).collect();
                if let Some(mut j) = Judge::new(ctx, k, &c, &vec![Fp(0); n]) {
                    for w in product(&all, n) {
                        let ok = w.iter().all(|x| x.0 < 1 << lw);
                        j.both(&w, yes_no(ok));
                    }
                    j.done();
                }
            });
        }
    }
}
fn range_big<F: XField>(ctx: &Ctx, jobs: &mut Jobs) {
    let p = F::modulus();
    for n in 1..=F::NUM_BITS as usize {
        let key = format!("fits/{}/n={}", F::name(), n);
        let p = p.clone();
        jobs.add(key, move |ctx, k| {
            let form = if n % 3 == 0 { Form::<F>::mixed() } else { Form::var() };
            let c = Range { form: form.clone(), n };
            if let Some(mut j) = Judge::new(ctx, k, &c, &form.solve(F::ZERO, F::ONE)) {
                let mut vs: Vec<BigInt> = vec![0.into(), 1.into(), two(n - 1), two(n) - 1, two(n), two(n) + 1, &p - 1, &p - 2];
                vs.push((&p - 1) / 2);
                vs.push((&p + 1) / 2);
                if n > 1 {
                    vs.push(two(n) - 2);
                    vs.push(two(n - 1) + 1);
                    vs.push(two(n - 1) - 1);
                }
                vs.push(two(n + 1));
                vs.push(&p - two(n.min(F::CAPACITY as usize)));
                vs.retain(|x| *x >= BigInt::zero() && *x < p);
                vs.sort();
                vs.dedup();
                for v in vs {
                    let w = form.solve(F::from_nat(&v), F::from(5));
                    let e = yes_no(v < two(n));
                    j.honest(&w, &e);
                    if !matches!(e, Exp::Outs(_)) || v == two(n) - 1 {
                        j.attack(&w, &e);
                    }
                }
                j.done();
            }
        });
    }
    // limbs of every width, a single out-of-range limb at every position
    for lw in (1..F::CAPACITY as usize).step_by(if ctx.thorough { 1 } else { 7 }).chain([32, 63, 64, 65, 127, 128]) {
        let key = format!("wellformed/{}/lw={}", F::name(), lw);
        jobs.add(key, move |ctx, k| {
            let n = 3;
            let c = WellFormed { lw, n };
            if let Some(mut j) = Judge::new(ctx, k, &c, &vec![F::ZERO; n]) {
                let top = F::from_nat(&(two(lw) - 1));
                j.both(&vec![top; n], yes_no(true));
                for i in 0..n {
                    for v in [two(lw), two(lw) + 1, F::modulus() - 1] {
                        let mut w = vec![top; n];
                        w[i] = F::from_nat(&v);
                        j.both(&w, yes_no(false));
                    }
                }
                j.done();
            }
        });
    }
}
pub fn c02(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    range_tiny::<2>(ctx, &mut jobs);
    range_tiny::<3>(ctx, &mut jobs);
    range_tiny::<5>(ctx, &mut jobs);
    range_tiny::<7>(ctx, &mut jobs);
    range_tiny::<11>(ctx, &mut jobs);
    range_tiny::<13>(ctx, &mut jobs);
    range_tiny::<17>(ctx, &mut jobs);
    range_tiny::<31>(ctx, &mut jobs);
    range_tiny::<61>(ctx, &mut jobs);
    range_tiny::<127>(ctx, &mut jobs);
    range_tiny::<257>(ctx, &mut jobs);
    if ctx.thorough {
        range_tiny::<509>(ctx, &mut jobs);
        range_tiny::<1021>(ctx, &mut jobs);
        range_tiny::<2053>(ctx, &mut jobs);
    }
    wf_tiny::<5>(ctx, &mut jobs, 3);
    wf_tiny::<11>(ctx, &mut jobs, ctx.pick(2, 3));
    wf_tiny::<17>(ctx, &mut jobs, ctx.pick(2, 3));
    wf_tiny::<31>(ctx, &mut jobs, 2);
    range_big::<Fr>(ctx, &mut jobs);
    range_big::<Pallas>(ctx, &mut jobs);
    if ctx.thorough {
        range_big::<Vesta>(ctx, &mut jobs);
        range_big::<Bn>(ctx, &mut jobs);
        range_big::<Secp>(ctx, &mut jobs);
    }
    jobs.run(ctx);
}

// ------------------------------------------------------------------ C03
fn bits_of<F: XField>(v: &BigInt, n: usize) -> Exp<F> {
    if *v >= two(n) {
        return Exp::Reject;
    }
    let mut o = vec![];
    for i in 0..n {
        o.push(fb(v.bit(i as u64)));
        o.push(fb(v.bit(i as u64)));
    }
    outs(o)
}
fn apply_model<T: Clone>(mut v: Vec<T>, op: BOp, zero: T) -> Vec<T> {
    match op {
        BOp::Id | BOp::Rebuilt => v,
        BOp::Rev => {
            v.reverse();
            v
        }
        BOp::Trunc(k) => v.into_iter().take(k).collect(),
        BOp::Shr(k) => v.into_iter().skip(k).collect(),
        BOp::Shl(k) => {
            let mut o = vec![zero; k];
            o.extend(v);
            o
        }
        BOp::PopPush => {
            if let Some(x) = v.pop() {
                v.insert(0, x);
            }
            v
        }
        BOp::AppendFirst => {
            if let Some(x) = v.first().cloned() {
                v.push(x);
            }
            v
        }
    }
}
fn c03_tiny<const P: u64>(jobs: &mut Jobs) {
    let nb = (64 - P.leading_zeros()) as usize;
    for n in 1..=nb {
        for fi in 0..2 {
            jobs.add(format!("decompose/F{}/n={}/form{}", P, n, fi), move |ctx, k| {
                let form = if fi == 0 { Form::<Fp<P>>::var() } else { Form::mixed() };
                let c = Decomp { form: form.clone(), n };
                if let Some(mut j) = Judge::new(ctx, k, &c, &form.solve(Fp(0), Fp(1))) {
                    for v in 0..P {
                        let w = form.solve(Fp(v), Fp(P - 1));
                        let e = bits_of(&BigInt::from(v), n);
                        j.honest(&w, &e);
                        if n < nb {
                            // with as many bits as the field has, several expansions exist
                            j.attack(&w, &e);
                        }
                    }
                    j.done();
                }
            });
        }
    }
    for n in 1..=nb.min(5) {
        let mut ops = vec![BOp::Id, BOp::Rev, BOp::Rebuilt, BOp::PopPush, BOp::AppendFirst];
        for k in 0..=n {
            ops.push(BOp::Trunc(k));
            ops.push(BOp::Shr(k));
        }
        ops.extend([BOp::Shl(1), BOp::Shl(2)]);
        for op in ops {
            for fi in 0..2 {
                jobs.add(format!("recompose/F{}/n={}/{:?}/form{}", P, n, op, fi), move |ctx, k| {
                    let form = if fi == 0 { Form::<Fp<P>>::var() } else { Form::mixed() };
                    let c = Recomp { form: form.clone(), n, op };
                    let mut base = form.solve(Fp(0), Fp(0));
                    base.extend(vec![Fp(0); n]);
                    if let Some(mut j) = Judge::new(ctx, k, &c, &base) {
                        for bits in product(&[Fp(0), Fp(1)], n) {
                            let m = apply_model(bits.clone(), op, Fp::<P>(0));
                            let mut sum = 0u64;
                            for (i, b) in m.iter().enumerate() {
                                sum = (sum + b.0 * (1 << i)) % P;
                            }
                            for v in 0..P {
                                let mut w = form.solve(Fp(v), Fp(2 % P));
                                w.extend(bits.clone());
                                j.both(&w, yes_no(v == sum));
                            }
                        }
                        j.done();
                    }
                });
            }
        }
    }
    for what in 0..6 {
        for fi in 0..2 {
            jobs.add(format!("single/F{}/{}/form{}", P, what, fi), move |ctx, k| {
                let form = if fi == 0 { Form::<Fp<P>>::var() } else { Form::mixed() };
                let c = Single { form: form.clone(), what };
                let base = form.solve(Fp(if what == 2 { 1 } else { 0 }), Fp(1));
                if let Some(mut j) = Judge::new(ctx, k, &c, &base) {
                    for v in 0..P {
                        let w = form.solve(Fp(v), Fp(1));
                        let one = Fp::<P>(1);
                        let zero = Fp::<P>(0);
                        let x = Fp::<P>(v);
                        let e = match what {
                            0 => outs(vec![x, x]),
                            1 if v < 2 => outs(vec![one - x, x]),
                            1 => Exp::Skip,
                            2 => yes_no(v == 1),
                            3 if v < 2 => yes_no(v == 0),
                            3 => {
                                // the value no longer says false, the wire does not either
                                Exp::Reject
                            }
                            4 if v < 2 => outs(vec![one, zero, one, zero, x, one - x, one, zero]),
                            5 if v < 2 => outs(vec![x]),
                            _ => Exp::Reject,
                        };
                        j.both(&w, e);
                    }
                    j.done();
                }
            });
        }
    }
    for lw in 1..nb {
        for n in 1..=2 {
            jobs.add(format!("limb-decompose/F{}/lw={}/limbs={}", P, lw, n), move |ctx, k| {
                let c = NatDecomp { lw, n };
                let all: Vec<Fp<P>> = (0..P).map(Fp).collect();
                if let Some(mut j) = Judge::new(ctx, k, &c, &vec![Fp(0); n]) {
                    for w in product(&all, n) {
                        let ok = w.iter().all(|x| x.0 < 1 << lw);
                        let v = w.iter().rev().fold(BigInt::zero(), |a, x| (a << lw) + x.0);
                        j.both(&w, if ok { bits_of(&v, lw * n) } else { Exp::Reject });
                    }
                    j.done();
                }
            });
        }
    }
}
fn c03_big<F: XField>(ctx: &Ctx, jobs: &mut Jobs) {
    for n in 1..=F::NUM_BITS as usize {
        jobs.add(format!("decompose/{}/n={}", F::name(), n), move |ctx, k| {
            let p = F::modulus();
            let form = if n % 3 == 0 { Form::<F>::mixed() } else { Form::var() };
            let c = Decomp { form: form.clone(), n };
            if let Some(mut j) = Judge::new(ctx, k, &c, &form.solve(F::ZERO, F::ONE)) {
                let mut pat = BigInt::zero();
                for i in 0..n {
                    if (i * i + i / 3) % 5 < 2 {
                        pat.set_bit(i as u64, true);
                    }
                }
                let mut vs: Vec<BigInt> = vec![0.into(), 1.into(), two(n - 1), two(n) - 1, two(n), two(n) + 1, &p - 1, pat.clone()];
                vs.push(&p - two(n.min(F::CAPACITY as usize)));
                vs.retain(|x| *x < p);
                vs.sort();
                vs.dedup();
                for v in vs {
                    let w = form.solve(F::from_nat(&v), F::from(5));
                    let e = bits_of(&v, n);
                    j.honest(&w, &e);
                    if n <= F::CAPACITY as usize && (v == pat || v == two(n) || v == &p - 1) {
                        j.attack(&w, &e);
                    }
                }
                j.done();
            }
        });
    }
    for lw in (1..F::CAPACITY as usize).step_by(if ctx.thorough { 1 } else { 9 }).chain([31, 32, 33, 63, 64, 65, 127, 128]) {
        jobs.add(format!("limb-decompose/{}/lw={}", F::name(), lw), move |ctx, k| {
            let n = 3;
            let c = NatDecomp { lw, n };
            if let Some(mut j) = Judge::new(ctx, k, &c, &vec![F::ZERO; n]) {
                let pats = [BigInt::zero(), BigInt::one(), two(lw) - 1, two(lw - 1)];
                for x in product(&pats, n) {
                    let w: Vec<F> = x.iter().map(|x| F::from_nat(x)).collect();
                    let ok = x.iter().all(|x| *x < two(lw));
                    let v = x.iter().rev().fold(BigInt::zero(), |a, x| (a << lw) + x);
                    let e = if ok { bits_of(&v, lw * n) } else { Exp::Reject };
                    j.honest(&w, &e);
                }
                for i in 0..n {
                    for v in [two(lw), F::modulus() - 1] {
                        let mut w = vec![F::ONE; n];
                        w[i] = F::from_nat(&v);
                        j.both(&w, Exp::Reject);
                    }
                }
                j.done();
            }
        });
    }
}
pub fn c03(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    c03_tiny::<5>(&mut jobs);
    c03_tiny::<11>(&mut jobs);
    c03_tiny::<17>(&mut jobs);
    c03_tiny::<31>(&mut jobs);
    if ctx.thorough {
        c03_tiny::<61>(&mut jobs);
        c03_tiny::<127>(&mut jobs);
    }
    c03_big::<Fr>(ctx, &mut jobs);
    if ctx.thorough {
        c03_big::<Pallas>(ctx, &mut jobs);
        c03_big::<Secp>(ctx, &mut jobs);
    } else {
        c03_big::<Pallas>(ctx, &mut jobs);
    }
    jobs.run(ctx);
}

// ------------------------------------------------------------------ C04
type T17 = Fp<17>;
/// the model of one bit: which variable it is (0: the constant zero), and its value if known
type MB = (u32, Option<bool>);
#[derive(Clone, Copy, Debug)]
enum VOp {
    Rev,
    Trunc(usize),
    Shr(usize),
    Shl(usize),
    Pop,
    Push(bool),
    Insert(usize, bool),
    AppendKnown(usize),
    AppendUnknown(usize),
    Rebuild,
}
struct VPool {
    rec: Rec<T17>,
    known: Vec<Bit<T17>>,
    unknown: Vec<Bit<T17>>,
}
fn vpool() -> VPool {
    let mut rec = Rec::<T17>::prover();
    let mut known = vec![];
    let mut unknown = vec![];
    for i in 0..8 {
        let v = i % 3 == 1;
        known.push(Bit::alloc(&mut rec, Some(v)).unwrap());
        let b = Bit::alloc(&mut rec, Some(v)).unwrap();
        unknown.push(Bit::new(b.bit, None));
    }
    VPool { rec, known, unknown }
}
fn vmodel(rec: &Rec<T17>, b: &Bit<T17>) -> MB {
    let l = rec.lin(&b.bit);
    (if l.t.is_empty() { 0 } else { l.t[0].0 }, b.value)
}
fn vcheck(p: &VPool, bv: &Bitvector<T17>, m: &[MB]) -> Result<(), String> {
    let want: Option<Vec<bool>> = m.iter().map(|x| x.1).collect();
    if bv.bits.len() != m.len() {
        return Err(format!("length {} instead of {}", bv.bits.len(), m.len()));
    }
    if bv.values != want {
        return Err(format!("values {:?} instead of {:?}", bv.values, want));
    }
    for i in 0..m.len() + 2 {
        match (bv.get(i), m.get(i)) {
            (None, None) => {}
            (Some(b), Some(x)) => {
                let g = vmodel(&p.rec, &b);
                let wv = want.as_ref().map(|v| v[i]);
                if g.0 != x.0 || g.1 != wv || p.rec.lin(&bv.bits[i]) != p.rec.lin(&b.bit) {
                    return Err(format!("bit {} is variable {} = {:?} instead of variable {} = {:?}", i, g.0, g.1, x.0, wv));
                }
            }
            (g, x) => return Err(format!("get({}) is {:?} instead of {:?}", i, g.is_some(), x)),
        }
    }
    let d = format!("{}", bv);
    let wd = match &want {
        Some(v) => format!("Bitvector({})", v.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>()),
        None => format!("Bitvector(len {})", m.len()),
    };
    if d != wd {
        return Err(format!("displayed as {} instead of {}", d, wd));
    }
    let into: Vec<MB> = bv.clone().into_bits().iter().map(|b| vmodel(&p.rec, b)).collect();
    if into.len() != m.len() || into.iter().zip(m).any(|(a, b)| a.0 != b.0) || (want.is_some() && into.iter().zip(m).any(|(a, b)| a.1 != b.1)) {
        return Err(format!("into_bits gives {:?} instead of {:?}", into, m));
    }
    Ok(())
}
fn vstep(p: &VPool, bv: Bitvector<T17>, m: &[MB], op: VOp) -> (Bitvector<T17>, Vec<MB>, Result<(), String>) {
    let mut m = m.to_vec();
    let mut r = Ok(());
    let n = m.len();
    let pick = |known: bool, i: usize| if known { p.known[i].clone() } else { p.unknown[i].clone() };
    let bv = match op {
        VOp::Rev => {
            m.reverse();
            bv.reversed()
        }
        VOp::Trunc(k) => {
            m.truncate(k);
            bv.truncate(k)
        }
        VOp::Shr(k) => {
            m.drain(0..k);
            bv.shr(k)
        }
        VOp::Shl(k) => {
            for _ in 0..k {
                m.insert(0, (0, Some(false)));
            }
            bv.shl(k)
        }
        VOp::Pop => {
            let mut bv = bv;
            let all = bv.values.is_some();
            let g = bv.pop();
            let x = m.pop();
            match (&g, &x) {
                (None, None) => {}
                (Some(b), Some(x)) => {
                    let b = vmodel(&p.rec, b);
                    if b.0 != x.0 || (all && b.1 != x.1) {
                        r = Err(format!("pop gives {:?} instead of {:?}", b, x));
                    }
                }
                _ => r = Err(format!("pop gives {} instead of {:?}", g.is_some(), x)),
            }
            bv
        }
        VOp::Push(k) => {
            let b = pick(k, n % 8);
            m.push(vmodel(&p.rec, &b));
            let mut bv = bv;
            bv.push(b);
            bv
        }
        VOp::Insert(i, k) => {
            let b = pick(k, (n + 3) % 8);
            m.insert(i, vmodel(&p.rec, &b));
            let mut bv = bv;
            bv.insert(i, b);
            bv
        }
        VOp::AppendKnown(k) | VOp::AppendUnknown(k) => {
            let kn = matches!(op, VOp::AppendKnown(_));
            let bs: Vec<Bit<T17>> = (0..k).map(|i| pick(kn || i == 0, (n + i + 5) % 8)).collect();
            m.extend(bs.iter().map(|b| vmodel(&p.rec, b)));
            let mut bv = bv;
            bv.append(Bitvector::from_bits(bs));
            bv
        }
        VOp::Rebuild => Bitvector::from_bits(bv.into_bits()),
    };
    (bv, m, r)
}
fn vops(n: usize) -> Vec<VOp> {
    let mut o = vec![VOp::Rev, VOp::Pop, VOp::Push(true), VOp::Push(false), VOp::Rebuild, VOp::Shl(0), VOp::Shl(1), VOp::Shl(2)];
    for k in [0, 1, n.saturating_sub(1), n, n + 1] {
        o.push(VOp::Trunc(k));
    }
    let mut ks = vec![0, 1, n / 2, n];
    ks.retain(|k| *k <= n);
    ks.sort();
    ks.dedup();
    for k in ks {
        o.push(VOp::Shr(k));
        o.push(VOp::Insert(k, true));
        o.push(VOp::Insert(k, false));
    }
    o.extend([VOp::AppendKnown(0), VOp::AppendKnown(2), VOp::AppendUnknown(2)]);
    o
}
/// whether a bit's value was forgotten on the way (a vector knows all its values or none)
fn forget(m: &mut Vec<MB>, bv: &Bitvector<T17>) {
    if bv.values.is_none() {
        for x in m.iter_mut() {
            x.1 = None;
        }
        if m.is_empty() {
            // an empty vector with unknown values stays unknown: representable only by the flag
        }
    }
}
fn vexplore(ctx: &Ctx, key: &str, p: &VPool, bv: &Bitvector<T17>, m: &[MB], depth: usize, hist: &mut Vec<VOp>, st: &mut (u64, u64)) {
    st.0 += 1;
    if depth == 0 {
        return;
    }
    for op in vops(m.len()) {
        st.1 += 1;
        hist.push(op);
        let r = guardp(|| {
            let (b, mut m2, r) = vstep(p, bv.clone(), m, op);
            // Emptied vectors: "unknown" is sticky or not, both are faithful
            if m2.is_empty() && b.bits.is_empty() {
                let r2 = r.and_then(|_| if b.values.as_ref().map(|v| v.is_empty()).unwrap_or(true) { Ok(()) } else { Err("values of an empty vector".into()) });
                return (b, m2, r2);
            }
            // a value lost earlier stays lost: unknown is allowed to spread, never the reverse
            let lost = bv.values.is_none();
            if lost {
                forget(&mut m2, &b);
                if b.values.is_some() {
                    return (b, m2, Err("values appeared for a vector whose values were unknown".into()));
                }
                let c = if m2.is_empty() { Ok(()) } else { vcheck(p, &b, &m2) };
                return (b, m2, r.and(c));
            }
            let c = vcheck(p, &b, &m2);
            forget(&mut m2, &b);
            (b, m2, r.and(c))
        });
        let hs = || hist.iter().map(|h| format!("{:?}", h)).collect::<Vec<_>>().join(">");
        match r {
            Out::Ok((b, m2, Ok(()))) => vexplore(ctx, key, p, &b, &m2, depth - 1, hist, st),
            Out::Ok((_, _, Err(e))) => ctx.fail(&format!("{}/{}", key, hs()), || format!("after {}: {}", hs(), e)),
            o => ctx.fail(&format!("{}/{}", key, hs()), || format!("after {}: {}", hs(), o.why())),
        }
        hist.pop();
    }
}
pub fn c04(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    let depth = ctx.pick(4, 5);
    for n in 0..=4usize {
        for kind in 0..3 {
            // the first operation splits the work
            for first in 0..vops(n).len() {
                jobs.add(format!("bitvector/n={}/kind={}", n, kind), move |ctx, k| {
                    let p = vpool();
                    let bs: Vec<Bit<T17>> = (0..n)
                        .map(|i| match kind {
                            0 => p.known[i].clone(),
                            1 => p.unknown[i].clone(),
                            _ => {
                                if i % 2 == 0 {
                                    p.known[i].clone()
                                } else {
                                    p.unknown[i].clone()
                                }
                            }
                        })
                        .collect();
                    let mut m: Vec<MB> = bs.iter().map(|b| vmodel(&p.rec, b)).collect();
                    let bv = Bitvector::from_bits(bs);
                    if let Err(e) = vcheck(&p, &bv, &m) {
                        ctx.fail(&format!("{}/from_bits", k), || e);
                        return;
                    }
                    forget(&mut m, &bv);
                    let op = vops(n)[first];
                    let mut st = (1, 0);
                    // restrict the root to one operation
                    let mut hist = vec![];
                    vroot(ctx, k, &p, &bv, &m, depth, op, &mut hist, &mut st);
                    ctx.visited(st.0, st.1);
                    ctx.validated(st.1);
                    let mut l = Local::default();
                    *l.outcomes.entry("operation").or_default() += st.1;
                    ctx.merge(l);
                });
            }
        }
    }
    jobs.run(ctx);
    ctx.sample("history", || format!("every history of up to {} operations from every start of 0..4 bits, e.g. Push(true)>Rev>Shl(1)>AppendUnknown(2)", depth));
}
fn vroot(ctx: &Ctx, key: &str, p: &VPool, bv: &Bitvector<T17>, m: &[MB], depth: usize, op: VOp, hist: &mut Vec<VOp>, st: &mut (u64, u64)) {
    // same as one iteration of vexplore's loop
    let only = |ctx: &Ctx, hist: &mut Vec<VOp>, st: &mut (u64, u64)| {
        hist.push(op);
        let lost = bv.values.is_none();
        let r = guardp(|| {
            let (b, mut m2, r) = vstep(p, bv.clone(), m, op);
            if m2.is_empty() && b.bits.is_empty() {
                return (b, m2, r);
            }
            if lost {
                forget(&mut m2, &b);
            }
            let c = if m2.is_empty() { Ok(()) } else { vcheck(p, &b, &m2) };
            forget(&mut m2, &b);
            (b, m2, r.and(c))
        });
        st.1 += 1;
        match r {
            Out::Ok((b, m2, Ok(()))) => vexplore(ctx, key, p, &b, &m2, depth - 1, hist, st),
            Out::Ok((_, _, Err(e))) => ctx.fail(&format!("{}/{:?}", key, op), || format!("after {:?}: {}", op, e)),
            o => ctx.fail(&format!("{}/{:?}", key, op), || format!("after {:?}: {}", op, o.why())),
        }
        hist.pop();
    };
    only(ctx, hist, st);
}

// ------------------------------------------------------------------ C05
use std::cell::{Cell, Ref};
use std::rc::Rc;
use validate_btc_header::util::lazy::LazyCell;
#[derive(Clone, Copy, Debug, PartialEq)]
enum LOp {
    /// read through handle h and let go
    Peek(usize),
    /// read through handle h and keep the reference
    Hold(usize),
    /// give back the i-th kept reference
    Release(usize),
    /// a further handle, copied from h
    Clone(usize),
}
fn lazy_run<F: FnOnce() -> u64 + Clone + 'static>(seq: &[LOp], from_value: bool, calls: &Rc<Cell<u64>>, f: F) -> Result<(), String> {
    calls.set(0);
    let first: LazyCell<u64, F> = if from_value { LazyCell::from(41) } else { LazyCell::new(f) };
    let want = if from_value { 41 } else { 1001 };
    let mut cells: Vec<Box<LazyCell<u64, F>>> = vec![Box::new(first)];
    let mut held: Vec<Ref<'static, u64>> = vec![];
    let mut forced = false;
    let mut r = Ok(());
    for op in seq {
        match *op {
            LOp::Peek(h) | LOp::Hold(h) => {
                // the cells outlive the references: both are dropped below, references first
                let c: &'static LazyCell<u64, F> = unsafe { &*(cells[h].as_ref() as *const _) };
                match guardp(|| c.borrow()) {
                    Out::Ok(g) => {
                        if *g != want {
                            r = Err(format!("value {} instead of {}", *g, want));
                        }
                        if matches!(op, LOp::Hold(_)) {
                            held.push(g);
                        }
                    }
                    o => r = Err(format!("{} while {} references are held", o.why(), held.len())),
                }
                forced = true;
            }
            LOp::Release(i) => {
                held.remove(i);
            }
            LOp::Clone(h) => {
                let c = cells[h].as_ref().clone();
                cells.push(Box::new(c));
            }
        }
        let expect = if from_value || !forced { 0 } else { 1 };
        if r.is_ok() && calls.get() != expect {
            r = Err(format!("computed {} times instead of {}", calls.get(), expect));
        }
        if r.is_ok() && held.iter().any(|g| **g != want) {
            r = Err("a kept reference changed".into());
        }
        if r.is_err() {
            break;
        }
    }
    drop(held);
    drop(cells);
    r
}
/// all histories: `handles` handles and `held` kept references so far
fn lazy_all(ctx: &Ctx, from_value: bool, seq: &mut Vec<LOp>, handles: usize, held: usize, depth: usize, n: &mut u64) {
    let calls = Rc::new(Cell::new(0u64));
    let c2 = calls.clone();
    let f = move || {
        c2.set(c2.get() + 1);
        1000 + c2.get()
    };
    *n += 1;
    let hs = |s: &[LOp]| s.iter().map(|h| format!("{:?}", h)).collect::<Vec<_>>().join(">");
    if let Err(e) = lazy_run(seq, from_value, &calls, f) {
        ctx.fail(&format!("lazy/value={}/{}", from_value, hs(seq)), || format!("after {}: {}", hs(seq), e));
        return;
    }
    if depth == 0 {
        return;
    }
    let mut ops = vec![];
    for h in 0..handles {
        ops.push((LOp::Peek(h), handles, held));
        if held < 3 {
            ops.push((LOp::Hold(h), handles, held + 1));
        }
        if handles < 3 {
            ops.push((LOp::Clone(h), handles + 1, held));
        }
    }
    for i in 0..held {
        ops.push((LOp::Release(i), handles, held - 1));
    }
    for (op, a, b) in ops {
        seq.push(op);
        lazy_all(ctx, from_value, seq, a, b, depth - 1, n);
        seq.pop();
    }
}
pub fn c05(ctx: &Ctx) {
    let depth = ctx.pick(7, 8);
    for from_value in [false, true] {
        let mut n = 0;
        lazy_all(ctx, from_value, &mut vec![], 1, 0, depth, &mut n);
        ctx.visited(n, n - 1);
        ctx.validated(n);
        let mut l = Local::default();
        *l.outcomes.entry("history").or_default() += n;
        ctx.merge(l);
    }
    ctx.sample("history", || "Hold(0)>Peek(0)>Clone(0)>Hold(1)>Release(0)>Peek(1)".into());
}

fn main() {
    main_with(&[
        Check {
            id: "C01",
            level: "model_checking",
            rule: "each (conversion, field, number); every one is distinct and exercises the conversion",
            assumptions: &[],
            f: c01,
        },
        Check {
            id: "C02",
            level: "model_checking",
            rule: "each (field, width, value) under the honest prover and under every prover",
            assumptions: &[],
            f: c02,
        },
        Check {
            id: "C03",
            level: "model_checking",
            rule: "each (field, width, rearrangement, value) under the honest prover and under every prover",
            assumptions: &[],
            f: c03,
        },
        Check {
            id: "C04",
            level: "model_checking",
            rule: "every history of operations up to the depth, from every starting vector",
            assumptions: &[],
            f: c04,
        },
        Check {
            id: "C05",
            level: "model_checking",
            rule: "every history of borrows, releases and clones up to the depth, over up to 3 handles and 3 live references",
            assumptions: &[],
            f: c05,
        },
    ])
}
