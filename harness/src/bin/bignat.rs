//! Multi-limb numbers: encodings, representation, equality, arithmetic, selection.
use bellpepper_core::ConstraintSystem;
use harness::*;
use std::collections::BTreeMap;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use validate_btc_header::mp::bignat::*;
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::gadget::Gadget;
use validate_btc_header::util::num::Num;

fn all<F: XField>(e: &Exp<F>, _: u64) -> bool {
    !matches!(e, Exp::Skip)
}
fn yes_no<F>(b: bool) -> Exp<F> {
    if b {
        Exp::Outs(vec![])
    } else {
        Exp::Reject
    }
}
fn limbs_out<F: XField>(v: &BigInt, lw: usize, n: usize) -> Exp<F> {
    if *v < BigInt::zero() || *v >= pow2(lw * n) {
        return Exp::Reject;
    }
    outs(limbs_of(v, lw, n))
}

// ------------------------------------------------------------------ C06 encodings
fn enc_case<F: XField>(ctx: &Ctx, l: &mut Local, lw: usize, n: usize, v: &BigInt) {
    let key = format!("encode/{}/lw={}/limbs={}/v={}", F::name(), lw, n, v);
    let p = F::modulus();
    let fits = *v >= BigInt::zero() && *v < pow2(lw * n);
    let want: Vec<BigInt> = (0..n).map(|i| (v >> (i * lw)) & (pow2(lw) - 1)).collect();
    let ok = fits && want.iter().all(|x| *x < p);
    let r = guard(|| nat_to_limbs::<F>(v, lw, n));
    match &r {
        Out::Ok(ls) => {
            l.eval("encoded");
            let got: Vec<BigInt> = ls.iter().map(|x| x.nat()).collect();
            if !ok || got != want {
                ctx.fail(&format!("{}/nat_to_limbs", key), || format!("{} in {} limbs of {} bits became {:?}", v, n, lw, got));
            } else {
                let back = limbs_to_nat::<F, _, _>(ls.iter(), lw);
                if back != *v {
                    ctx.fail(&format!("{}/limbs_to_nat", key), || format!("{:?} read back as {}", got, back));
                }
            }
        }
        o => {
            l.eval("refused");
            if ok {
                ctx.fail(&format!("{}/nat_to_limbs", key), || format!("{} in {} limbs of {} bits: {}", v, n, lw, o.why()));
            }
        }
    }
    // the same number, allocated
    if n == 0 {
        return;
    }
    let mut rec = Rec::<F>::prover();
    let r = guard(|| BigNat::<F>::alloc_from_nat(&mut rec, || Ok(v.clone()), lw, n));
    match &r {
        Out::Ok(b) => {
            l.eval("allocated");
            if !ok {
                ctx.fail(&format!("{}/alloc_from_nat", key), || format!("{} was allocated in {} limbs of {} bits", v, n, lw));
            } else if let Err(e) = well_said(&rec, b, &want, lw, &(pow2(lw) - 1)) {
                ctx.fail(&format!("{}/alloc_from_nat", key), || e);
            }
        }
        o => {
            l.eval("refused");
            if ok {
                ctx.fail(&format!("{}/alloc_from_nat", key), || o.why());
            }
        }
    }
}
/// the number agrees with the model limbs, and with itself
fn well_said<F: XField>(rec: &Rec<F>, b: &BigNat<F>, want: &[BigInt], lw: usize, max: &BigInt) -> Result<(), String> {
    match guardp(|| claims("number", b, true)) {
        Out::Ok(()) => {}
        o => return Err(o.why()),
    }
    if b.params.limb_width != lw {
        return Err(format!("limb width {} instead of {}", b.params.limb_width, lw));
    }
    let got: Vec<BigInt> = b.limb_values.as_ref().unwrap().iter().map(|x| x.nat()).collect();
    if got != want {
        return Err(format!("limb values {:?} instead of {:?}", got, want));
    }
    for (i, lc) in b.limbs.iter().enumerate() {
        let e = rec.eval(&rec.lin(lc)).map(|x| x.nat());
        if e.as_ref() != Some(&want[i]) {
            return Err(format!("limb {} is constrained to {:?}, its value is {}", i, e, want[i]));
        }
    }
    if b.params.max_word > *max {
        return Err(format!("limbs up to {} admitted where {} is the most possible", b.params.max_word, max));
    }
    // seen as plain numbers
    let nums = b.as_limbs::<Rec<F>>();
    if nums.len() != want.len() {
        return Err("as_limbs: wrong length".into());
    }
    for (i, n) in nums.iter().enumerate() {
        if n.value.map(|x| x.nat()).as_ref() != Some(&want[i]) || rec.lin(&n.num) != rec.lin(&b.limbs[i]) {
            return Err(format!("as_limbs: limb {} differs", i));
        }
    }
    Ok(())
}
fn enc_limbs<F: XField>(ctx: &Ctx, l: &mut Local, lw: usize, ls: &[BigInt], stated: usize) {
    // limbs given by the caller, possibly wider than the limb width
    let key = format!("limbs/{}/lw={}/stated={}/{:?}", F::name(), lw, stated, ls);
    let mut rec = Rec::<F>::prover();
    let fs: Vec<F> = ls.iter().map(|x| F::from_nat(x)).collect();
    let top = ls.iter().max().cloned().unwrap_or_default().max(pow2(lw) - 1);
    let f2 = fs.clone();
    let r = guard(|| BigNat::<F>::alloc_from_limbs(&mut rec, || Ok(f2), Some(top.clone()), lw, stated));
    match &r {
        Out::Ok(b) => {
            l.eval("allocated");
            if stated != ls.len() && stated > 0 {
                ctx.fail(&key, || format!("{} limb values accepted for {} limbs", ls.len(), stated));
            } else if stated > 0 {
                if let Err(e) = well_said(&rec, b, ls, lw, &top) {
                    ctx.fail(&format!("{}/alloc_from_limbs", key), || e);
                }
                // and as given linear combinations
                let nums: Vec<Num<F>> = b.as_limbs::<Rec<F>>();
                let c = BigNat::from_limbs(nums, lw);
                if c.value != b.value || c.limb_values != b.limb_values || c.limbs.len() != b.limbs.len() || (0..stated).any(|i| rec.lin(&c.limbs[i]) != rec.lin(&b.limbs[i])) || c.params.limb_width != lw || c.params.n_limbs != stated {
                    ctx.fail(&format!("{}/from_limbs", key), || format!("value {:?} instead of {:?}", c.value, b.value));
                }
            }
        }
        o => {
            l.eval("refused");
            if stated == ls.len() {
                ctx.fail(&format!("{}/alloc_from_limbs", key), || o.why());
            }
        }
    }
    let v = Spec::new(lw, ls.len()).value(ls);
    let back = limbs_to_nat::<F, _, _>(fs.iter(), lw);
    if back != v {
        ctx.fail(&format!("{}/limbs_to_nat", key), || format!("{:?} read as {} instead of {}", ls, back, v));
    }
}
fn c06(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    macro_rules! t {
        ($($p:literal),*) => { $( for lw in 1..8usize { jobs.add(format!("encode/F{}/lw={}", $p, lw), move |ctx, _| {
            let mut l = Local::default();
            for n in 0..=4usize {
                let top: i64 = (2 * (1i64 << (lw * n).min(14)) + 2).min(ctx.pick(3000, 40_000));
                for v in -3..top { enc_case::<Fp<$p>>(ctx, &mut l, lw, n, &v.into()); }
                for d in -2..=2 { enc_case::<Fp<$p>>(ctx, &mut l, lw, n, &(pow2(lw * n) + d)); }
            }
            let a: Vec<BigInt> = (0..$p.min(6)).chain([$p - 1]).map(|x: u64| x.into()).collect();
            for n in 0..=3 { for ls in product(&a, n) { for st in 0..=4 { enc_limbs::<Fp<$p>>(ctx, &mut l, lw, &ls, st); } } }
            ctx.visited(l.outcomes.values().sum(), l.outcomes.values().sum());
            ctx.merge(l);
        }); } )* };
    }
    t!(5, 17, 31, 127, 257, 1021, 65537);
    macro_rules! b {
        ($($f:ty),*) => { $( for lw in [1usize, 7, 8, 31, 32, 33, 63, 64, 65, 100, 127, 128, 253, 254, 255, 256, 300] { jobs.add(format!("encode/{}/lw={}", <$f>::name(), lw), move |ctx, _| {
            let mut l = Local::default();
            for n in 1..=5usize {
                let mut vs = vec![];
                for k in 0..=lw * n + 1 { for d in -1..=1 { vs.push(pow2(k) + d); } }
                vs.push(<$f>::modulus());
                vs.push(<$f>::modulus() - 1);
                vs.push(pow2(lw * n) / 3);
                vs.push(pow2(lw * n) * 2 / 7);
                vs.push(BigInt::from(-1));
                vs.push(-pow2(lw));
                for v in vs { enc_case::<$f>(ctx, &mut l, lw, n, &v); }
            }
            ctx.visited(l.outcomes.values().sum(), l.outcomes.values().sum());
            ctx.merge(l);
        }); } )* };
    }
    b!(Fr, Pallas);
    if ctx.thorough {
        b!(Vesta, Bn, Secp);
    }
    jobs.run(ctx);
    ctx.sample("case", || "nat_to_limbs(1234, limb width 4, 3 limbs) over F257, read back, and allocated".into());
}

// ------------------------------------------------------------------ C07 from_num
fn from_num_case<F: XField>(j: &mut Judge<F>, form: usize, lw: usize, n: usize, x: &BigInt, attack: bool) {
    let f = F::from_nat(x);
    let v = if form == 0 { f } else { f.double() + F::ONE }.nat();
    let e = limbs_out::<F>(&v, lw, n);
    j.honest(&[f], &e);
    if attack {
        j.attack(&[f], &e);
    }
}
fn from_num_tiny<const P: u64>(jobs: &mut Jobs, max_lw: usize) {
    for lw in 1..=max_lw {
        for n in 1..=8usize {
            if pow2(lw * n) > BigInt::from(P) {
                continue;
            }
            for form in 0..2 {
                jobs.add(format!("from_num/F{}/{}x{}/form{}", P, n, lw, form), move |ctx, k| {
                    let c = FromNum { lw, n, form };
                    let base = if form == 0 { Fp::<P>(0) } else { -Fp::<P>::TWO_INV };
                    if let Some(mut j) = Judge::new(ctx, k, &c, &[base]) {
                        for x in 0..P {
                            from_num_case(&mut j, form, lw, n, &x.into(), true);
                        }
                        j.done();
                    }
                });
            }
        }
    }
}
use ff::PrimeField;
fn from_num_big<F: XField>(jobs: &mut Jobs) {
    for (lw, n) in [(1, 8), (8, 4), (32, 1), (32, 7), (64, 1), (64, 2), (64, 3), (100, 2), (128, 1), (120, 2)] {
        for form in 0..2 {
            jobs.add(format!("from_num/{}/{}x{}/form{}", F::name(), n, lw, form), move |ctx, k| {
                let c = FromNum { lw, n, form };
                let base = if form == 0 { F::ZERO } else { -F::TWO_INV };
                if let Some(mut j) = Judge::new(ctx, k, &c, &[base]) {
                    let t = lw * n;
                    let mut xs: Vec<BigInt> = vec![0.into(), 1.into(), 2.into(), F::modulus() - 1, F::modulus() - 2, (F::modulus() - 1) / 2, (F::modulus() + 1) / 2];
                    for i in 0..=n {
                        for d in -1..=1 {
                            xs.push(pow2(lw * i) + d);
                        }
                    }
                    xs.push(pow2(t) / 3);
                    xs.push(pow2(t) * 2 / 7);
                    for x in xs {
                        from_num_case(&mut j, form, lw, n, &x, true);
                    }
                    j.done();
                }
            });
        }
    }
}
fn c07(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    from_num_tiny::<17>(&mut jobs, 4);
    from_num_tiny::<31>(&mut jobs, 4);
    from_num_tiny::<127>(&mut jobs, 6);
    from_num_tiny::<257>(&mut jobs, 8);
    if ctx.thorough {
        from_num_tiny::<1021>(&mut jobs, 9);
    }
    from_num_big::<Fr>(&mut jobs);
    from_num_big::<Pallas>(&mut jobs);
    if ctx.thorough {
        from_num_big::<Bn>(&mut jobs);
        from_num_big::<Secp>(&mut jobs);
    }
    jobs.run(ctx);
}

// ------------------------------------------------------------------ C08 representation under histories
#[derive(Clone)]
struct M {
    limbs: Vec<BigInt>,
    lw: usize,
    max: BigInt,
}
impl M {
    fn value(&self) -> BigInt {
        self.limbs.iter().rev().fold(BigInt::zero(), |a, x| (a << self.lw) + x)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum ROp {
    Add(usize),
    Shift(u64),
    Scale(u64),
    ConcatHigh(usize),
    ConcatLow(usize),
    Truncate(usize),
    Extend(usize),
    Group(usize),
    Poly,
    Relimb,
    One,
    Recompose(usize),
    MinBits,
    /// gadgets, whose results are allocated
    Mul(usize),
    Sub(usize),
    SubFrom(usize),
    Min(usize),
    Mux(usize, bool),
    Mod(usize),
    ModOf(usize),
    MulMod(usize),
    EnforceMin,
    EnforceFull,
}
impl ROp {
    fn gadget(&self) -> bool {
        use ROp::*;
        matches!(self, Mul(_) | Sub(_) | SubFrom(_) | Min(_) | Mux(..) | Mod(_) | ModOf(_) | MulMod(_) | EnforceMin | EnforceFull)
    }
}
struct RPool<F: XField> {
    nums: Vec<(BigNat<F>, M)>,
}
/// A number, and the same where the values of most numbers are not known: as in parameter generation,
/// where only constants are
struct Twin<'a, F: XField> {
    rec: &'a Rec<F>,
    pool: &'a RPool<F>,
    b: BigNat<F>,
}
/// the same limbs and parameters; values it claims, if any, are right
fn same_without_values<F: XField>(rec: &Rec<F>, b: &BigNat<F>, u: &BigNat<F>) -> Result<(), String> {
    if b.params != u.params {
        return Err("without values, its parameters differ".into());
    }
    if b.limbs.len() != u.limbs.len() || b.limbs.iter().zip(&u.limbs).any(|(x, y)| rec.lin(x) != rec.lin(y)) {
        return Err("without values, its limbs differ".into());
    }
    if u.limb_values.is_some() && u.limb_values != b.limb_values {
        return Err(format!("claims limb values {:?} where only some are known, the limbs are {:?}", u.limb_values, b.limb_values));
    }
    if u.value.is_some() && u.value != b.value {
        return Err(format!("claims the value {:?} where only some limbs are known, it is {:?}", u.value, b.value));
    }
    if u.limb_values.is_some() != u.value.is_some() {
        return Err(format!("claims limb values {:?} and value {:?}", u.limb_values, u.value));
    }
    Ok(())
}
fn rstep<F: XField>(rec: &mut Rec<F>, pool: &RPool<F>, b: &BigNat<F>, m: &M, op: ROp) -> Option<(Out<BigNat<F>>, M)> {
    let cap = pow2(F::CAPACITY as usize);
    let mut n = m.clone();
    let b = b.clone();
    let o = match op {
        ROp::Add(i) => {
            let (x, xm) = &pool.nums[i];
            let k = n.limbs.len().max(xm.limbs.len());
            n.limbs.resize(k, BigInt::zero());
            for (a, c) in n.limbs.iter_mut().zip(&xm.limbs) {
                *a += c;
            }
            n.max = &n.max + &xm.max;
            if xm.lw == m.lw && n.max > cap {
                return None;
            }
            let r = guard(|| b.add::<Rec<F>>(x));
            if xm.lw != m.lw {
                return if r.is_ok() { Some((Out::Err("numbers of different limb widths were added".into()), n)) } else { None };
            }
            r
        }
        ROp::Shift(c) => {
            n.limbs[0] += c;
            n.max += c;
            if n.max > cap {
                return None;
            }
            guardp(|| b.shift::<Rec<F>>(F::from(c)))
        }
        ROp::Scale(c) => {
            for l in &mut n.limbs {
                *l *= c;
            }
            n.max *= c;
            if n.max > cap {
                return None;
            }
            guardp(|| b.scale::<Rec<F>>(F::from(c)))
        }
        ROp::ConcatHigh(i) | ROp::ConcatLow(i) => {
            let (x, xm) = &pool.nums[i];
            let high = matches!(op, ROp::ConcatHigh(_));
            let (lo, hi) = if high { (xm, m) } else { (m, xm) };
            n.limbs = lo.limbs.iter().chain(&hi.limbs).cloned().collect();
            n.max = m.max.clone().max(xm.max.clone());
            let r = guard(|| if high { b.concat(x) } else { x.concat(&b) });
            if xm.lw != m.lw {
                return if r.is_ok() { Some((Out::Err("numbers of different limb widths were joined".into()), n)) } else { None };
            }
            if n.limbs.len() > 8 {
                return None;
            }
            r
        }
        ROp::Truncate(k) => {
            n.limbs.truncate(k);
            guardp(|| b.truncate_limbs(k))
        }
        ROp::Extend(k) => {
            n.limbs.resize(m.limbs.len() + k, BigInt::zero());
            guardp(|| b.with_n_limbs::<Rec<F>>(m.limbs.len() + k))
        }
        ROp::Group(g) => {
            let mut max = BigInt::zero();
            for i in 0..g {
                max += &m.max << (i * m.lw);
            }
            if max > cap {
                return None;
            }
            n.limbs = m.limbs.chunks(g).map(|c| c.iter().rev().fold(BigInt::zero(), |a, x| (a << m.lw) + x)).collect();
            n.lw = m.lw * g;
            n.max = max;
            guardp(|| b.group_limbs(g))
        }
        ROp::Poly => {
            let (lw, mx) = (b.params.limb_width, b.params.max_word.clone());
            guardp(|| BigNat::from_poly(b.into(), lw, mx))
        }
        ROp::Relimb => {
            if n.limbs.iter().any(|l| *l >= pow2(m.lw)) {
                return None;
            }
            n.max = pow2(m.lw) - 1;
            guardp(|| BigNat::from_limbs(b.as_limbs::<Rec<F>>(), m.lw))
        }
        ROp::One => {
            n.limbs = vec![BigInt::one()];
            n.max = BigInt::one();
            guardp(|| BigNat::one::<Rec<F>>(m.lw))
        }
        ROp::Recompose(g) => {
            // only numbers already carried decompose
            if n.limbs.iter().any(|l| *l >= pow2(m.lw)) || m.lw > F::CAPACITY as usize || g > F::CAPACITY as usize {
                return None;
            }
            let v = m.value();
            let k = (m.limbs.len() * m.lw - 1) / g + 1;
            n.limbs = (0..k).map(|i| (&v >> (i * g)) & (pow2(g) - 1)).collect();
            n.lw = g;
            n.max = pow2(g) - 1;
            guard(|| {
                let bv: Bitvector<F> = b.decompose(&mut *rec)?;
                Ok(BigNat::recompose(&bv, g))
            })
        }
        ROp::MinBits => {
            // the number states a lower bound that is true
            let v = m.value();
            if v.is_zero() {
                return None;
            }
            let mut b = b;
            b.params.min_bits = v.bits() as usize;
            Out::Ok(b)
        }
        ROp::EnforceMin | ROp::EnforceFull => {
            let v = m.value();
            let full = op == ROp::EnforceFull;
            // both are about numbers already carried
            if v.is_zero() || n.limbs.iter().any(|l| *l >= pow2(m.lw)) || m.lw > F::CAPACITY as usize || full && v.bits() as usize != m.lw * m.limbs.len() {
                return None;
            }
            let mut b = b;
            guard(|| {
                if full {
                    b.enforce_full_bits(&mut *rec)?;
                } else {
                    b.enforce_min_bits(&mut *rec, v.bits() as usize)?;
                }
                Ok(b)
            })
        }
        ROp::Mul(i) | ROp::Sub(i) | ROp::SubFrom(i) | ROp::Min(i) | ROp::Mux(i, _) | ROp::Mod(i) | ROp::ModOf(i) | ROp::MulMod(i) => {
            let (x, xm) = &pool.nums[i];
            // which limbs are compared with carries is C10's business: here they can be
            if xm.lw != m.lw || m.lw > F::CAPACITY as usize {
                return None;
            }
            let word = pow2(m.lw) - 1;
            let (v, xv) = (m.value(), xm.value());
            let tidy = |a: &M| a.limbs.iter().all(|l| *l <= word) && a.max <= word;
            let k = m.limbs.len();
            let (most, value, limbs): (BigInt, BigInt, Option<usize>) = match op {
                ROp::Mul(_) => ((&m.max * &xm.max * k.min(xm.limbs.len())).max(word.clone()), &v * &xv, Some(k + xm.limbs.len())),
                ROp::Sub(_) => (m.max.clone().max(&xm.max + &word), &v - &xv, None),
                ROp::SubFrom(_) => (xm.max.clone().max(&m.max + &word), &xv - &v, None),
                ROp::Min(_) => (m.max.clone().max(xm.max.clone()) + &word, v.clone().min(xv.clone()), Some(k.max(xm.limbs.len()))),
                ROp::Mux(_, s) => (BigInt::zero(), if s { xv.clone() } else { v.clone() }, Some(k.max(xm.limbs.len()))),
                _ => {
                    let (a, by) = if matches!(op, ROp::ModOf(_)) { (xm, m) } else { (m, xm) };
                    let (av, byv) = (a.value(), by.value());
                    if byv.is_zero() || !tidy(by) {
                        return None;
                    }
                    let sq = matches!(op, ROp::MulMod(_));
                    let left = if sq { &a.max * &a.max * a.limbs.len() } else { a.max.clone() };
                    let right = &word * &by.max * by.limbs.len() + &word;
                    (left.max(right), if sq { &av * &av % &byv } else { av % byv }, Some(by.limbs.len()))
                }
            };
            let mux = matches!(op, ROp::Mux(..) | ROp::Min(_));
            if value < BigInt::zero() || !matches!(op, ROp::Mux(..)) && !carriable::<F>(&most, m.lw) || !mux && limbs.map_or(false, |l| value >= pow2(l * m.lw)) {
                return None;
            }
            if matches!(op, ROp::Min(_)) && v == xv {
                return None;
            }
            let r = guard(|| match op {
                ROp::Mul(_) => b.mult(&mut *rec, x),
                ROp::Sub(_) => b.sub(&mut *rec, x),
                ROp::SubFrom(_) => x.sub(&mut *rec, &b),
                ROp::Min(_) => b.min(&mut *rec, x),
                ROp::Mux(_, s) => {
                    let known = rec.witness;
                    let s = Bit::alloc(rec.namespace(|| "s"), if known { Some(s) } else { None })?;
                    Gadget::mux(rec.namespace(|| "mux"), &s, &b, x)
                }
                ROp::Mod(_) => b.red_mod(&mut *rec, x),
                ROp::ModOf(_) => x.red_mod(&mut *rec, &b),
                _ => Ok(b.mult_mod(&mut *rec, &b, x)?.1),
            });
            let limbs = match (&r, limbs) {
                (_, Some(l)) => l,
                (Out::Ok(r), None) => r.limbs.len(),
                _ => 1,
            };
            if mux {
                let first = match op {
                    ROp::Mux(_, s) => !s,
                    _ => v < xv,
                };
                n.limbs = if first { m.limbs.clone() } else { xm.limbs.clone() };
                n.limbs.resize(limbs, BigInt::zero());
                n.max = m.max.clone().max(xm.max.clone());
            } else {
                n.limbs = (0..limbs).map(|i| (&value >> (i * m.lw)) & &word).collect();
                n.max = word;
                if value >= pow2(limbs * m.lw) {
                    return Some((Out::Err(format!("{} limbs for {}", limbs, value)), n));
                }
            }
            if r.is_ok() && rec.witness && !rec.satisfied() {
                return Some((Out::Err("the honest prover is not accepted".into()), n));
            }
            r
        }
    };
    Some((o, n))
}
fn rops(n: usize, pool: usize) -> Vec<ROp> {
    let mut o = vec![ROp::Shift(1), ROp::Shift(3), ROp::Scale(2), ROp::Scale(3), ROp::Scale(0), ROp::Group(1), ROp::Group(2), ROp::Group(3), ROp::Poly, ROp::Relimb, ROp::One, ROp::Recompose(1), ROp::Recompose(3), ROp::MinBits, ROp::Extend(0), ROp::Extend(2)];
    for i in 0..pool {
        o.extend([ROp::Add(i), ROp::ConcatHigh(i), ROp::ConcatLow(i)]);
        o.extend([ROp::Mul(i), ROp::Sub(i), ROp::SubFrom(i), ROp::Min(i), ROp::Mux(i, false), ROp::Mux(i, true), ROp::Mod(i), ROp::ModOf(i), ROp::MulMod(i)]);
    }
    o.extend([ROp::EnforceMin, ROp::EnforceFull]);
    for k in [1, n.saturating_sub(1), n, n + 1] {
        if k > 0 {
            o.push(ROp::Truncate(k));
        }
    }
    o
}
fn rexplore<F: XField>(ctx: &Ctx, key: &str, pool: &RPool<F>, rec: &Rec<F>, b: &BigNat<F>, twin: &Twin<F>, m: &M, depth: usize, hist: &mut Vec<ROp>, st: &mut (u64, u64, BTreeMap<String, u64>), first: Option<usize>) {
    st.0 += 1;
    if depth == 0 {
        return;
    }
    for (i, op) in rops(m.limbs.len(), pool.nums.len()).into_iter().enumerate() {
        if first.is_some() && first != Some(i) {
            continue;
        }
        // decomposition allocates: work on a copy
        let allocates = op.gadget() || matches!(op, ROp::Recompose(_));
        // a gadget counts for two operations
        let cost = if op.gadget() { 2 } else { 1 };
        if cost > depth {
            continue;
        }
        let mut copy = if allocates { rec.clone() } else { Rec::prover() };
        let (o, n) = match rstep(&mut copy, pool, b, m, op) {
            None => continue,
            Some(x) => x,
        };
        let mut tcopy = if allocates { twin.rec.clone() } else { Rec::shape() };
        let t = rstep(&mut tcopy, twin.pool, &twin.b, m, op);
        st.1 += 1;
        if op.gadget() {
            let name = format!("{:?}", op);
            *st.2.entry(name.split('(').next().unwrap().to_string()).or_default() += 1;
        }
        hist.push(op);
        let hs = || hist.iter().map(|h| format!("{:?}", h)).collect::<Vec<_>>().join(">");
        let rec2: &Rec<F> = if allocates { &copy } else { rec };
        let trec: &Rec<F> = if allocates { &tcopy } else { twin.rec };
        let r = match (o, t) {
            (Out::Ok(b2), Some((Out::Ok(u2), _))) => well_said(rec2, &b2, &n.limbs, n.lw, &n.max)
                .and_then(|_| if rec2.cons != trec.cons { Err("without values, its constraints differ".into()) } else { Ok(()) })
                .and_then(|_| same_without_values(trec, &b2, &u2))
                .map(|_| (b2, u2)),
            (Out::Ok(_), Some((o, _))) => Err(format!("without values: {}", o.why())),
            (Out::Ok(_), None) => panic!("HARNESS: the twins part"),
            (o, _) => Err(o.why()),
        };
        match r {
            Ok((b2, u2)) => {
                let twin2 = Twin { rec: trec, pool: twin.pool, b: u2 };
                rexplore(ctx, key, pool, rec2, &b2, &twin2, &n, depth - cost, hist, st, None)
            }
            Err(e) => ctx.fail(&format!("{}/{}", key, hs()), || format!("after {} on limbs {:?}: {}", hs(), m.limbs, e)),
        }
        hist.pop();
    }
}
/// `known`: with values for all numbers, or only for the constants
fn rpool<F: XField>(rec: &mut Rec<F>, known: bool, big: bool) -> RPool<F> {
    let mut nums = vec![];
    let mut add = |ls: &[u64], lw: usize, max: Option<u64>| {
        let fs: Vec<F> = ls.iter().map(|x| F::from(*x)).collect();
        let mut b = BigNat::alloc_from_limbs(rec.namespace(|| format!("{:?}", ls)), || Ok(fs.clone()), max.map(|m| m.into()), lw, ls.len()).unwrap();
        // the second is known anyway
        if !known && nums.len() == 1 {
            b.value = Some(limbs_to_nat::<F, _, _>(fs.iter(), lw));
            b.limb_values = Some(fs);
        }
        nums.push((b, M { limbs: ls.iter().map(|x| (*x).into()).collect(), lw, max: max.unwrap_or(((1u128 << lw) - 1) as u64).into() }));
    };
    if big {
        add(&[u64::MAX, 0x0123456789abcdef], 64, None);
        add(&[5], 64, Some(5));
        add(&[u64::MAX], 64, None);
        add(&[1, 2], 32, None);
    } else {
        add(&[3, 1], 2, None);
        add(&[6], 2, Some(7));
        add(&[0, 0, 2], 2, None);
        add(&[1, 5], 3, None);
    }
    let lw = if big { 64 } else { 2 };
    nums.push((BigNat::one::<Rec<F>>(lw), M { limbs: vec![BigInt::one()], lw, max: BigInt::one() }));
    RPool { nums }
}
fn c08_field<F: XField>(jobs: &mut Jobs, depth: usize, big: bool) {
    for start in 0..5 {
        for first in 0..rops(3, 5).len() {
            jobs.add(format!("representation/{}/start={}", F::name(), start), move |ctx, k| {
                let mut rec = Rec::<F>::prover();
                let pool = rpool(&mut rec, true, big);
                let mut trec = Rec::<F>::shape();
                let tpool = rpool(&mut trec, false, big);
                let twin = Twin { rec: &trec, pool: &tpool, b: tpool.nums[start].0.clone() };
                let (b, m) = pool.nums[start].clone();
                if let Err(e) = well_said(&rec, &b, &m.limbs, m.lw, &m.max) {
                    ctx.fail(k, || e);
                    return;
                }
                let mut st = (0, 0, BTreeMap::new());
                rexplore(ctx, k, &pool, &rec, &b, &twin, &m, depth, &mut vec![], &mut st, Some(first));
                ctx.visited(st.0, st.1);
                ctx.validated(st.1);
                let mut l = Local::default();
                *l.outcomes.entry("operation").or_default() += st.1;
                ctx.merge(l);
                for (k, v) in st.2 {
                    ctx.note(&format!("after {}", k), v);
                }
            });
        }
    }
}
fn c08(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    c08_field::<Fp<65537>>(&mut jobs, ctx.pick(4, 5), false);
    c08_field::<Fp<1021>>(&mut jobs, ctx.pick(3, 4), false);
    c08_field::<Fr>(&mut jobs, ctx.pick(3, 4), true);
    c08_field::<Pallas>(&mut jobs, 3, true);
    jobs.run(ctx);
    ctx.sample("history", || "Add(1)>Scale(3)>Group(2)>Truncate(1) from limbs [3,1] of width 2".into());
}

// ------------------------------------------------------------------ C09 equality
fn pair_eq(c: &Case) -> bool {
    let n = c.limbs[0].len().max(c.limbs[1].len());
    (0..n).all(|i| c.limbs[0].get(i).cloned().unwrap_or_default() == c.limbs[1].get(i).cloned().unwrap_or_default())
}
fn eq_jobs<F: XField>(jobs: &mut Jobs, lw: usize, na: usize, nb: usize, max: u64, corner: bool) {
    for op in [Op::Equal, Op::AssertEqual, Op::IsEqual] {
        if na != nb && op != Op::Equal {
            continue;
        }
        let key = format!("{:?}/{}/{}x{}/{}", op, F::name(), na, lw, nb);
        jobs.add(key, move |ctx, k| {
            let mk = |n| Spec { lw, n, max: if corner { Some(F::modulus() - 1) } else { Some(max.into()) }, min_bits: 0 };
            let g = Gad { op, bits: 0, ins: vec![mk(na), mk(nb)] };
            let dom = |_: usize, _: usize| if corner { vec![0.into(), 1.into(), pow2(lw), F::modulus() - 1, F::modulus() / 2] } else { full::<F>(&max.into()) };
            drive::<F>(
                ctx,
                k,
                &g,
                &dom,
                &move |c| match op {
                    Op::IsEqual => outs(vec![if pair_eq(c) { F::ONE } else { F::ZERO }]),
                    _ => yes_no(pair_eq(c)),
                },
                &all,
            );
        });
    }
}
fn equals_job<F: XField>(jobs: &mut Jobs) {
    jobs.add(format!("equals/{}", F::name()), move |ctx, k| {
        if let Some(mut j) = Judge::new(ctx, k, &Equals, &[F::ZERO, F::ONE]) {
            let p = F::modulus();
            let vs: Vec<BigInt> = if p < 1000.into() {
                full::<F>(&p)
            } else {
                vec![0.into(), 1.into(), 2.into(), &p - 1, &p / 2, &p / 2 + 1, pow2(64), pow2(127), pow2(128) - 1, pow2(254)]
            };
            for a in &vs {
                for b in &vs {
                    j.both(&[F::from_nat(a), F::from_nat(b)], outs(vec![if a == b { F::ONE } else { F::ZERO }]));
                }
            }
            j.done();
        }
    });
}
/// Numbers whose limbs are of different widths: an operation refuses them or takes them for what they are.
fn mixed(jobs: &mut Jobs, ops: &[(Op, usize, usize)]) {
    for (op, bits, k) in ops.to_vec() {
        for n in 1..=2usize {
            for widths in 1..(1usize << k) - 1 {
                let ins: Vec<Spec> = (0..k).map(|i| Spec::new(if widths >> i & 1 == 1 { 3 } else { 2 }, n)).collect();
                let key = format!("mixed/{:?}/{}", op, ins.iter().map(|s| s.tag()).collect::<Vec<_>>().join("/"));
                jobs.add(key, move |ctx, key| {
                    let g = Gad { op, bits, ins: ins.clone() };
                    let total = bits + k * n;
                    for c in 0..if k > 2 { 3u64 } else { 4 }.pow((k * n) as u32) << bits {
                        let mut x = c >> bits;
                        let mut w: Vec<u64> = (0..bits).map(|i| c >> i & 1).collect();
                        while w.len() < total {
                            let b = if k > 2 { 3 } else { 4 };
                            w.push(x % b);
                            x /= b;
                        }
                        let v: Vec<BigInt> = (0..k)
                            .map(|i| ins[i].value(&w[bits + i * n..bits + (i + 1) * n].iter().map(|x| (*x).into()).collect::<Vec<BigInt>>()))
                            .collect();
                        let f: Vec<Fr> = w.iter().map(|x| Fr::from(*x)).collect();
                        let r = accept::<Fr>(&g, &f);
                        ctx.eval(if r.is_ok() { "accepted" } else { "refused" });
                        if let Out::Ok(r) = r {
                            let right = match op {
                                Op::Equal | Op::AssertEqual | Op::Carried | Op::Regroup => v[0] == v[1],
                                Op::IsEqual => r.outs.last().map(|o| r.rec.eval(&o.0) == Some(Fr::from((v[0] == v[1]) as u64))) == Some(true),
                                _ => false,
                            };
                            if !right {
                                ctx.fail(&format!("{}/{}", key, w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")), || {
                                    format!("numbers of different limb widths, {:?}, are accepted and taken for others", v)
                                });
                            }
                        }
                    }
                });
            }
        }
    }
}
/// Numbers of different lengths may be refused, but never taken for others.
fn uneven(jobs: &mut Jobs, ops: &[Op]) {
    for &op in ops {
        for (a, b) in [(1usize, 2usize), (2, 1), (2, 3), (3, 2), (1, 3)] {
            let ins = vec![Spec::new(2, a), Spec::new(2, b)];
            let key = format!("uneven/{:?}/{}/{}", op, a, b);
            jobs.add(key, move |ctx, key| {
                let g = Gad { op, bits: 0, ins: ins.clone() };
                for c in 0..3u64.pow((a + b) as u32) {
                    let w: Vec<u64> = (0..a + b).map(|i| c / 3u64.pow(i as u32) % 3).collect();
                    let big: Vec<BigInt> = w.iter().map(|x| (*x).into()).collect();
                    let same = ins[0].value(&big[..a]) == ins[1].value(&big[a..]);
                    let f: Vec<Fr> = w.iter().map(|x| Fr::from(*x)).collect();
                    let r = accept::<Fr>(&g, &f);
                    ctx.eval(if r.is_ok() { "accepted" } else { "refused" });
                    if let Out::Ok(r) = r {
                        if match op {
                            Op::IsEqual => r.outs.last().map(|o| r.rec.eval(&o.0)) != Some(Some(Fr::from(same as u64))),
                            _ => !same,
                        } {
                            ctx.fail(&format!("{}/{}", key, w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")), || {
                                format!("{:?} of numbers of {} and {} limbs, {:?}, is accepted with the wrong answer", op, a, b, w)
                            });
                        }
                    }
                }
            });
        }
    }
}
fn c09(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    uneven(&mut jobs, &[Op::Equal, Op::AssertEqual, Op::IsEqual]);
    mixed(&mut jobs, &[(Op::Equal, 0, 2), (Op::AssertEqual, 0, 2), (Op::IsEqual, 0, 2)]);
    equals_job::<Fp<2>>(&mut jobs);
    equals_job::<Fp<3>>(&mut jobs);
    equals_job::<Fp<5>>(&mut jobs);
    equals_job::<Fp<17>>(&mut jobs);
    equals_job::<Fp<61>>(&mut jobs);
    for n in 1..=3 {
        own_jobs::<Fp<5>>(&mut jobs, OwnOp::AssertEqual, 0, vec![n, n], 5);
        own_jobs::<Fr>(&mut jobs, OwnOp::AssertEqual, 0, vec![n, n], if n < 3 { 5 } else { 3 });
    }
    equals_job::<Fp<127>>(&mut jobs);
    equals_job::<Fr>(&mut jobs);
    equals_job::<Pallas>(&mut jobs);
    equals_job::<Secp>(&mut jobs);
    eq_jobs::<Fp<5>>(&mut jobs, 2, 1, 1, 4, false);
    eq_jobs::<Fp<5>>(&mut jobs, 1, 2, 2, 4, false);
    eq_jobs::<Fp<5>>(&mut jobs, 1, 3, 3, 4, false);
    for (a, b) in [(1, 2), (2, 1), (1, 3), (3, 1), (2, 3)] {
        eq_jobs::<Fp<5>>(&mut jobs, 1, a, b, 4, false);
    }
    eq_jobs::<Fp<17>>(&mut jobs, 2, 1, 1, 16, false);
    eq_jobs::<Fp<17>>(&mut jobs, 2, 2, 2, ctx.pick(7, 16), false);
    eq_jobs::<Fp<17>>(&mut jobs, 2, 2, 1, 16, false);
    for (a, b) in [(1, 1), (2, 2), (1, 2)] {
        eq_jobs::<Fr>(&mut jobs, 64, a, b, 0, true);
        eq_jobs::<Pallas>(&mut jobs, 64, a, b, 0, true);
    }
    if ctx.thorough {
        eq_jobs::<Fp<5>>(&mut jobs, 1, 4, 4, 3, false);
        eq_jobs::<Fp<7>>(&mut jobs, 1, 3, 3, 6, false);
        eq_jobs::<Fr>(&mut jobs, 64, 3, 3, 0, true);
    }
    jobs.run(ctx);
}

// ------------------------------------------------------------------ C10 carried equality
fn carry_jobs<F: XField>(jobs: &mut Jobs, a: Spec, b: Spec, corner: bool) {
    let m = a.max_word().max(b.max_word());
    if !carriable::<F>(&m, a.lw) {
        return;
    }
    for op in [Op::Carried, Op::Regroup] {
        let (a, b) = (a.clone(), b.clone());
        let key = format!("{:?}/{}/{}/{}", op, F::name(), a.tag(), b.tag());
        jobs.add(key, move |ctx, k| {
            let g = Gad { op, bits: 0, ins: vec![a.clone(), b.clone()] };
            let dom = |i: usize, _: usize| {
                let s = if i == 0 { &a } else { &b };
                if corner {
                    corners::<F>(s.lw, &s.max_word())
                } else {
                    full::<F>(&s.max_word())
                }
            };
            drive::<F>(ctx, k, &g, &dom, &|c| yes_no(c.v[0] == c.v[1]), &|e, _| !corner || matches!(e, Exp::Reject));
        });
    }
}
fn c10(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    mixed(&mut jobs, &[(Op::Carried, 0, 2), (Op::Regroup, 0, 2)]);
    let lim = ctx.pick(6_000u64, 60_000);
    macro_rules! t {
        ($($p:literal),*) => { $(
            for lw in 1..=4usize { for na in 1..=3usize { for nb in 1..=3usize {
                for ma in [1u64, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 20, 28] { for mb in [1u64, 3, 4, 7, 9, 15] {
                    // one side may be the larger, not both orders of everything
                    if (na, ma) < (nb, mb) && na == nb { continue; }
                    let size = (ma + 1).pow(na as u32) * (mb + 1).pow(nb as u32);
                    if size > lim { continue; }
                    carry_jobs::<Fp<$p>>(&mut jobs, Spec::wide(lw, na, ma), Spec::wide(lw, nb, mb), false);
                } }
            } } }
        )* };
    }
    t!(31, 61);
    if ctx.thorough {
        t!(17, 127, 257);
    }
    macro_rules! b {
        ($($f:ty),*) => { $( for (lw, n, m) in [(64usize, 2usize, pow2(64) - 1), (64, 4, pow2(64) - 1), (64, 2, pow2(130)), (32, 3, pow2(67) - 5), (120, 2, pow2(121)), (126, 2, pow2(126) - 1), (4, 3, pow2(200)), (16, 3, pow2(33))] {
            let cs = corners::<$f>(lw, &m).len() as u64;
            if cs.pow(2 * n as u32) <= 50_000 {
                carry_jobs::<$f>(&mut jobs, Spec { lw, n, max: Some(m.clone()), min_bits: 0 }, Spec { lw, n, max: Some(m.clone()), min_bits: 0 }, true);
            }
            carry_jobs::<$f>(&mut jobs, Spec { lw, n: 2, max: Some(m.clone()), min_bits: 0 }, Spec { lw, n: 1, max: Some(m.clone()), min_bits: 0 }, true);
            carry_jobs::<$f>(&mut jobs, Spec { lw, n: 1, max: Some(m.clone()), min_bits: 0 }, Spec { lw, n: 2, max: Some(m.clone()), min_bits: 0 }, true);
        } )* };
    }
    b!(Fr, Pallas);
    jobs.run(ctx);
}

// ------------------------------------------------------------------ C11 product
fn mult_job<F: XField>(jobs: &mut Jobs, a: Spec, b: Spec, corner: bool) {
    let m = a.max_word() * b.max_word() * a.n.min(b.n);
    if !carriable::<F>(&m.max(pow2(a.lw) - 1), a.lw) {
        return;
    }
    let key = format!("mult/{}/{}/{}", F::name(), a.tag(), b.tag());
    jobs.add(key, move |ctx, k| {
        let g = Gad { op: Op::Mult, bits: 0, ins: vec![a.clone(), b.clone()] };
        let dom = |i: usize, _: usize| {
            let s = if i == 0 { &a } else { &b };
            if corner {
                corners::<F>(s.lw, &s.max_word())
            } else {
                full::<F>(&s.max_word())
            }
        };
        let (lw, n) = (a.lw, a.n + b.n);
        drive::<F>(ctx, k, &g, &dom, &move |c| limbs_out(&(&c.v[0] * &c.v[1]), lw, n), &|e, _| !corner && all(e, 0));
    });
}
fn c11(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    mixed(&mut jobs, &[(Op::Mult, 0, 2)]);
    let lim = ctx.pick(300u64, 5_000);
    macro_rules! t {
        ($($p:literal),*) => { $(
            for lw in 1..=4usize { for na in 1..=3usize { for nb in 1..=3usize {
                for (wa, wb) in [(0, 0), (1, 0), (0, 1)] {
                    let (ma, mb) = ((1u64 << lw) - 1 + wa, (1u64 << lw) - 1 + wb);
                    if (ma + 1).pow(na as u32) * (mb + 1).pow(nb as u32) > lim { continue; }
                    mult_job::<Fp<$p>>(&mut jobs, Spec::wide(lw, na, ma), Spec::wide(lw, nb, mb), false);
                }
            } } }
        )* };
    }
    t!(61, 257, 1021);
    if ctx.thorough {
        t!(31, 127, 65537);
    }
    macro_rules! b {
        ($($f:ty),*) => { $( for lw in [8usize, 32, 64, 100, 120] { for (na, nb) in [(1usize, 1usize), (2, 1), (1, 2), (2, 2), (3, 2)] {
            mult_job::<$f>(&mut jobs, Spec::new(lw, na), Spec::new(lw, nb), true);
        } } )* };
    }
    b!(Fr, Pallas);
    jobs.run(ctx);
}

// ------------------------------------------------------------------ C12 reduction
fn mm_ok<F: XField>(a: &Spec, b: Option<&Spec>, m: &Spec) -> bool {
    let left = match b {
        Some(b) => a.max_word() * b.max_word() * a.n.min(b.n),
        None => a.max_word(),
    };
    let right = (pow2(a.lw) - 1) * m.max_word() * m.n + (pow2(a.lw) - 1);
    carriable::<F>(&left.max(right), a.lw)
}
fn modop_job<F: XField>(jobs: &mut Jobs, op: Op, ins: Vec<Spec>, corner: bool) {
    let (a, m) = (&ins[0], &ins[if op == Op::RedMod { 1 } else { 2 }]);
    if !mm_ok::<F>(a, if op == Op::RedMod { None } else { Some(&ins[1]) }, m) {
        return;
    }
    let key = format!("{:?}/{}/{}", op, F::name(), ins.iter().map(|s| s.tag()).collect::<Vec<_>>().join("/"));
    jobs.add(key, move |ctx, k| {
        let g = Gad { op, bits: 0, ins: ins.clone() };
        let dom = |i: usize, _: usize| {
            let s = &ins[i];
            if corner {
                corners::<F>(s.lw, &s.max_word())
            } else {
                full::<F>(&s.max_word())
            }
        };
        let lw = ins[0].lw;
        let (mn, an) = (if op == Op::RedMod { ins[1].n } else { ins[2].n }, ins[0].n);
        let bn = if op == Op::RedMod { 0 } else { ins[1].n };
        // how many quotient limbs there are is the gadget's business
        let nq_of = |ins: &Vec<Spec>| -> usize {
            let g = Gad { op, bits: 0, ins: ins.clone() };
            for v in 1..4u64 {
                let w: Vec<F> = ins.iter().enumerate().flat_map(|(i, s)| (0..s.n).map(move |l| if i + 1 < 4 && l + 1 == s.n && s.min_bits > 0 { F::from_nat(&s.max_word()) } else if l == 0 && i < 3 { F::from(v) } else { F::ZERO })).collect();
                if let Out::Ok(r) = run(&g, Some(&w), false) {
                    return r.outs.len() - mn;
                }
            }
            0
        };
        let ins2 = ins.clone();
        let _ = (an, bn);
        let nq = if op == Op::MultMod { nq_of(&ins2) } else { 0 };
        drive::<F>(
            ctx,
            k,
            &g,
            &dom,
            &move |c| match op {
                Op::MultMod => {
                    let ab = &c.v[0] * &c.v[1];
                    if c.v[2].is_zero() {
                        return Exp::Reject;
                    }
                    let (q, r) = (&ab / &c.v[2], &ab % &c.v[2]);
                    let mut o = limbs_of::<F>(&q, lw, nq);
                    o.extend(limbs_of::<F>(&r, lw, mn));
                    outs(o)
                }
                Op::RedMod => {
                    if c.v[1].is_zero() {
                        return Exp::Reject;
                    }
                    outs(limbs_of(&(&c.v[0] % &c.v[1]), lw, mn))
                }
                _ => {
                    // product_mod: a * b = q * m + r for the remainder given
                    let ab = &c.v[0] * &c.v[1];
                    let n = an + bn;
                    if c.v[2].is_zero() {
                        return if ab == c.v[3] { Exp::AtMost(vec![None; n]) } else { Exp::Reject };
                    }
                    if c.v[3] > ab || !((&ab - &c.v[3]) % &c.v[2]).is_zero() {
                        return Exp::Reject;
                    }
                    let q = (&ab - &c.v[3]) / &c.v[2];
                    let o: Vec<Option<F>> = limbs_of::<F>(&q, lw, n).into_iter().map(Some).collect();
                    if c.v[3] < c.v[2] {
                        Exp::Outs(o)
                    } else {
                        Exp::AtMost(o)
                    }
                }
            },
            &|e, _| !corner && all(e, 0),
        );
    });
}
fn c12(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    mixed(&mut jobs, &[(Op::MultMod, 0, 3), (Op::RedMod, 0, 2), (Op::ProductMod, 0, 4)]);
    let lim = ctx.pick(600u64, 8_000);
    macro_rules! t {
        ($($p:literal),*) => { $(
            for lw in 1..=3usize { let w = 1u64 << lw;
                for na in 1..=3usize { for nm in 1..=2usize {
                    for mb in 0..=lw * nm {
                        if w.pow((na + nm) as u32) <= lim {
                            modop_job::<Fp<$p>>(&mut jobs, Op::RedMod, vec![Spec::new(lw, na), Spec::new(lw, nm).at_least(mb)], false);
                            if mb == 0 && (w + 3).pow(na as u32) * w.pow(nm as u32) <= lim { modop_job::<Fp<$p>>(&mut jobs, Op::RedMod, vec![Spec::wide(lw, na, w + 2), Spec::new(lw, nm)], false); }
                        }
                        for nb in 1..=2usize {
                            if w.pow((na + nb + nm) as u32) <= lim {
                                modop_job::<Fp<$p>>(&mut jobs, Op::MultMod, vec![Spec::new(lw, na), Spec::new(lw, nb), Spec::new(lw, nm).at_least(mb)], false);
                            }
                            if mb == 0 && w.pow((na + nb + 2 * nm) as u32) <= lim {
                                modop_job::<Fp<$p>>(&mut jobs, Op::ProductMod, vec![Spec::new(lw, na), Spec::new(lw, nb), Spec::new(lw, nm), Spec::new(lw, nm)], false);
                            }
                        }
                    }
                } }
            }
        )* };
    }
    t!(257);
    if ctx.thorough {
        t!(61, 1021);
    }
    macro_rules! b {
        ($($f:ty),*) => { $( for lw in [32usize, 64] { for (na, nb, nm) in [(1usize, 1usize, 1usize), (2, 1, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2)] {
            for mb in [0, lw * (nm - 1) + 1, lw * nm] {
                modop_job::<$f>(&mut jobs, Op::MultMod, vec![Spec::new(lw, na), Spec::new(lw, nb), Spec::new(lw, nm).at_least(mb)], true);
                modop_job::<$f>(&mut jobs, Op::RedMod, vec![Spec::new(lw, na + nb), Spec::new(lw, nm).at_least(mb)], true);
            }
            if na + nb + nm < 4 { modop_job::<$f>(&mut jobs, Op::ProductMod, vec![Spec::new(lw, na), Spec::new(lw, nb), Spec::new(lw, nm), Spec::new(lw, nm)], true); }
        } } )* };
    }
    b!(Fr, Pallas);
    jobs.run(ctx);
}

// ------------------------------------------------------------------ C13 divisibility
fn divides_job<F: XField>(jobs: &mut Jobs, a: Spec, b: Spec, corner: bool) {
    let m: BigInt = a.max_word() * (pow2(a.lw) - 1) * a.n.min(b.n);
    if !carriable::<F>(&m.max(b.max_word()), a.lw) {
        return;
    }
    let key = format!("divides/{}/{}/{}", F::name(), a.tag(), b.tag());
    jobs.add(key, move |ctx, k| {
        let g = Gad { op: Op::Divides, bits: 0, ins: vec![a.clone(), b.clone()] };
        let dom = |i: usize, _: usize| {
            let s = if i == 0 { &a } else { &b };
            if corner {
                corners::<F>(s.lw, &s.max_word())
            } else {
                full::<F>(&s.max_word())
            }
        };
        drive::<F>(
            ctx,
            k,
            &g,
            &dom,
            &|c| {
                if c.v[0].is_zero() {
                    // zero divides zero: the honest prover may decline
                    return if c.v[1].is_zero() { Exp::AtMost(vec![]) } else { Exp::Reject };
                }
                yes_no((&c.v[1] % &c.v[0]).is_zero())
            },
            &|e, _| !corner && all(e, 0),
        );
    });
}
fn c13(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    mixed(&mut jobs, &[(Op::Divides, 0, 2)]);
    let lim = ctx.pick(300u64, 5_000);
    macro_rules! t {
        ($($p:literal),*) => { $( for lw in 1..=4usize { for na in 1..=3usize { for nb in 1..=3usize {
            if (1u64 << lw).pow((na + nb) as u32) <= lim { divides_job::<Fp<$p>>(&mut jobs, Spec::new(lw, na), Spec::new(lw, nb), false); }
        } } } )* };
    }
    t!(61, 257);
    if ctx.thorough {
        t!(127, 1021);
    }
    macro_rules! b {
        ($($f:ty),*) => { $( for lw in [32usize, 64] { for (a, b) in [(1usize, 1usize), (1, 2), (2, 2), (2, 1), (2, 3)] {
            divides_job::<$f>(&mut jobs, Spec::new(lw, a), Spec::new(lw, b), true);
        } } )* };
    }
    b!(Fr, Pallas);
    jobs.run(ctx);
}

// ------------------------------------------------------------------ C14 difference, minimum
fn pair_job<F: XField>(jobs: &mut Jobs, op: Op, a: Spec, b: Spec, corner: bool) {
    let m = match op {
        // other + diff is carried against self; for min either may be either
        Op::Sub => a.max_word().max(b.max_word() + pow2(a.lw) - 1),
        _ => a.max_word().max(b.max_word()) + pow2(a.lw) - 1,
    };
    if !carriable::<F>(&m, a.lw) {
        return;
    }
    let key = format!("{:?}/{}/{}/{}", op, F::name(), a.tag(), b.tag());
    jobs.add(key, move |ctx, k| {
        let g = Gad { op, bits: 0, ins: vec![a.clone(), b.clone()] };
        let dom = |i: usize, _: usize| {
            let s = if i == 0 { &a } else { &b };
            if corner {
                corners::<F>(s.lw, &s.max_word())
            } else {
                full::<F>(&s.max_word())
            }
        };
        let lw = a.lw;
        let n = a.n.max(b.n);
        // limbs of the difference
        let nd = {
            let mut w = vec![F::ZERO; a.n + b.n];
            w[0] = F::ONE;
            match run(&g, Some(&w), false) {
                Out::Ok(r) => r.outs.len(),
                _ => 0,
            }
        };
        drive::<F>(
            ctx,
            k,
            &g,
            &dom,
            &move |c| match op {
                Op::Sub => {
                    if c.v[0] < c.v[1] {
                        Exp::Reject
                    } else {
                        outs(limbs_of(&(&c.v[0] - &c.v[1]), lw, nd))
                    }
                }
                _ => {
                    // the limbs of the lesser; of two numbers with equal value either may be taken
                    let mut x: Vec<F> = vec![];
                    let which = if c.v[0] <= c.v[1] { 0 } else { 1 };
                    for i in 0..n {
                        x.push(F::from_nat(&c.limbs[which].get(i).cloned().unwrap_or_default()));
                    }
                    if c.v[0] == c.v[1] && !pair_eq(c) {
                        Exp::Skip
                    } else {
                        outs(x)
                    }
                }
            },
            &|e, _| !corner && all(e, 0),
        );
    });
}
fn c14(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    mixed(&mut jobs, &[(Op::Sub, 0, 2), (Op::Min, 0, 2)]);
    let lim = ctx.pick(300u64, 5_000);
    macro_rules! t {
        ($($p:literal),*) => { $( for lw in 1..=4usize { for na in 1..=3usize { for nb in 1..=3usize { for (wa, wb) in [(0, 0), (2, 0), (0, 2), (3, 3)] {
            let (ma, mb) = ((1u64 << lw) - 1 + wa, (1u64 << lw) - 1 + wb);
            if (ma + 1).pow(na as u32) * (mb + 1).pow(nb as u32) > lim { continue; }
            for op in [Op::Sub, Op::Min] { pair_job::<Fp<$p>>(&mut jobs, op, Spec::wide(lw, na, ma), Spec::wide(lw, nb, mb), false); }
        } } } } )* };
    }
    t!(61, 257);
    if ctx.thorough {
        t!(31, 127, 1021);
    }
    macro_rules! b {
        ($($f:ty),*) => { $( for lw in [32usize, 64, 120] { for (na, nb) in [(1usize, 1usize), (2, 2), (2, 1), (1, 2), (3, 2)] { for op in [Op::Sub, Op::Min] {
            pair_job::<$f>(&mut jobs, op, Spec::new(lw, na), Spec::new(lw, nb), true);
        } } } )* };
    }
    b!(Fr, Pallas);
    jobs.run(ctx);
}

// ------------------------------------------------------------------ C15 lower bounds
fn bits_job<F: XField>(jobs: &mut Jobs, op: Op, s: Spec, corner: bool) {
    let key = format!("{:?}/{}/{}", op, F::name(), s.tag());
    jobs.add(key, move |ctx, k| {
        let g = Gad { op, bits: 0, ins: vec![Spec { max: Some(F::modulus() - 1), ..s.clone() }] };
        let m = pow2(s.lw) - 1;
        let dom = |_: usize, _: usize| {
            if corner {
                let mut v = corners::<F>(s.lw, &m);
                for i in (0..s.lw).step_by(7) {
                    v.push(pow2(i));
                }
                v
            } else {
                // limbs past their width too: they cannot be decomposed
                let mut v = full::<F>(&(&m + 2));
                v.truncate(40);
                v
            }
        };
        let s2 = s.clone();
        let m2 = m.clone();
        drive::<F>(
            ctx,
            k,
            &g,
            &dom,
            &move |c| {
                let keep = outs(c.limbs[0].iter().map(|x| F::from_nat(x)).collect());
                match op {
                    Op::MinBits(b) => {
                        if c.limbs[0].iter().any(|x| *x > m2) {
                            return Exp::Reject;
                        }
                        if c.v[0] >= pow2(b - 1) {
                            keep
                        } else {
                            Exp::Reject
                        }
                    }
                    _ => {
                        let top = c.limbs[0].last().unwrap();
                        if c.limbs[0].iter().take(s2.n - 1).any(|x| *x > m2) {
                            return Exp::Skip;
                        }
                        if *top <= m2 && *top >= pow2(s2.lw - 1) {
                            keep
                        } else {
                            Exp::Reject
                        }
                    }
                }
            },
            &|_, n| !corner || n % 5 == 0,
        );
    });
}
fn c15(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    let lim = ctx.pick(600u64, 20_000);
    macro_rules! t {
        ($($p:literal),*) => { $( for lw in 1..=4usize { if (1u64 << lw) < $p { for n in 1..=4usize {
            if ((1u64 << lw) + 2).pow(n as u32) > lim { continue; }
            bits_job::<Fp<$p>>(&mut jobs, Op::FullBits, Spec::new(lw, n), false);
            // as many upper bits as the field has elements would sum to zero: outside the contract
            for b in 1..=lw * n { if lw * n - b + 1 < $p { bits_job::<Fp<$p>>(&mut jobs, Op::MinBits(b), Spec::new(lw, n), false); } }
        } } } )* };
    }
    t!(11, 17, 61);
    if ctx.thorough {
        t!(31, 127, 257);
    }
    macro_rules! b {
        ($($f:ty),*) => { $( for (lw, n) in [(8usize, 2usize), (32, 2), (64, 2), (120, 1)] {
            bits_job::<$f>(&mut jobs, Op::FullBits, Spec::new(lw, n), true);
            for b in [1, 2, lw - 1, lw, lw * n - 1, lw * n] { bits_job::<$f>(&mut jobs, Op::MinBits(b), Spec::new(lw, n), true); }
        } )* };
    }
    b!(Fr, Pallas);
    jobs.run(ctx);
}

// ------------------------------------------------------------------ C16 selection
fn sel_job<F: XField>(jobs: &mut Jobs, op: Op, bits: usize, ins: Vec<Spec>, alphabet: Vec<u64>) {
    let key = format!("{:?}/{}/{}/{}", op, F::name(), bits, ins.iter().map(|s| s.tag()).collect::<Vec<_>>().join("/"));
    jobs.add(key, move |ctx, k| {
        let g = Gad { op, bits, ins: ins.clone() };
        let dom = |i: usize, _: usize| {
            let mut v: Vec<BigInt> = alphabet.iter().map(|x| (*x).into()).filter(|x| *x <= ins[i].max_word()).collect();
            if F::TINY.is_none() {
                v.push(ins[i].max_word());
            }
            v.dedup();
            v
        };
        let n = ins.iter().map(|s| s.n).max().unwrap();
        drive::<F>(
            ctx,
            k,
            &g,
            &dom,
            &move |c| {
                let pad = |i: usize| -> Vec<F> { (0..n).map(|l| F::from_nat(&c.limbs[i].get(l).cloned().unwrap_or_default())).collect() };
                match op {
                    Op::Mux => outs(pad(c.sel[0] as usize)),
                    Op::Switch => {
                        let mut o = pad(c.sel[0] as usize);
                        o.extend(pad(!c.sel[0] as usize));
                        outs(o)
                    }
                    _ => {
                        // the first bit is the highest-order one
                        let i = c.sel.iter().fold(0, |a, b| 2 * a + *b as usize);
                        outs(pad(i))
                    }
                }
            },
            &all,
        );
    });
}
/// what the trait gives a type of the caller's own
fn own_jobs<F: XField>(jobs: &mut Jobs, op: OwnOp, bits: usize, ins: Vec<usize>, k: usize) {
    let key = format!("own/{:?}/{}/{}/{}", op, F::name(), bits, ins.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("/"));
    jobs.add(key, move |ctx, key| {
        let c = Own { op, bits, ins: ins.clone() };
        let mut axes = vec![vec![F::ZERO, F::ONE]; bits];
        axes.extend(vec![small::<F>(k); ins.iter().sum()]);
        over(ctx, key, &c, &axes, &|w| {
            let mut at = bits;
            let v: Vec<&[F]> = ins
                .iter()
                .map(|n| {
                    at += n;
                    &w[at - n..at]
                })
                .collect();
            let i = w[..bits].iter().fold(0, |a, b| 2 * a + (*b == F::ONE) as usize);
            match op {
                OwnOp::Mux | OwnOp::Tree => outs(v[i].to_vec()),
                OwnOp::Switch => outs([v[i], v[1 - i]].concat()),
                OwnOp::AssertEqual => yes_no(v[0] == v[1]),
                OwnOp::AsNums => outs(v[0].to_vec()),
            }
        });
    });
}
fn own_select<F: XField>(jobs: &mut Jobs, k: usize) {
    for n in 1..=2usize {
        own_jobs::<F>(jobs, OwnOp::Mux, 1, vec![n, n], k);
        own_jobs::<F>(jobs, OwnOp::Switch, 1, vec![n, n], k);
    }
    for bits in 0..=3usize {
        own_jobs::<F>(jobs, OwnOp::Tree, bits, vec![1; 1 << bits], if bits == 3 { 2 } else { k });
    }
    own_jobs::<F>(jobs, OwnOp::Tree, 1, vec![2; 2], k);
}
fn c16(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    mixed(&mut jobs, &[(Op::Mux, 1, 2), (Op::Switch, 1, 2), (Op::Tree, 1, 2), (Op::Tree, 2, 4)]);
    own_select::<Fp<5>>(&mut jobs, 5);
    own_select::<Fp<17>>(&mut jobs, 4);
    own_select::<Fr>(&mut jobs, 4);
    for (op, ins) in [(OwnOp::Mux, vec![1, 2]), (OwnOp::Mux, vec![2, 1]), (OwnOp::Switch, vec![2, 1]), (OwnOp::Tree, vec![1, 2])] {
        jobs.add(format!("own-refuses/{:?}/{:?}", op, ins), move |ctx, k| {
            let c = Own { op, bits: 1, ins: ins.clone() };
            for s in [0, 1] {
                let r = accept::<Fp<17>>(&c, &[Fp(s), Fp(1), Fp(1), Fp(1)]);
                ctx.eval(if r.is_ok() { "accepted" } else { "refused" });
                if r.is_ok() {
                    ctx.fail(k, || "values of different lengths selected among".to_string());
                }
            }
        });
    }
    macro_rules! t {
        ($f:ty, $lw:expr, $a:expr) => {
            for op in [Op::Mux, Op::Switch] {
                for na in 1..=2usize {
                    for nb in 1..=2usize {
                        sel_job::<$f>(&mut jobs, op, 1, vec![Spec::new($lw, na), Spec::new($lw, nb)], $a.to_vec());
                        sel_job::<$f>(&mut jobs, op, 1, vec![Spec::wide($lw, na, 9), Spec::wide($lw, nb, 6)], $a.to_vec());
                    }
                }
            }
            for bits in 0..=3usize {
                let al: Vec<u64> = if bits == 3 { vec![0, 1] } else { $a.to_vec() };
                sel_job::<$f>(&mut jobs, Op::Tree, bits, vec![Spec::new($lw, 1); 1 << bits], al);
            }
            sel_job::<$f>(&mut jobs, Op::Tree, 2, vec![Spec::new($lw, 1), Spec::new($lw, 2), Spec::wide($lw, 1, 9), Spec::new($lw, 1)], vec![0, 1, 3]);
        };
    }
    t!(Fp<11>, 2, [0u64, 1, 2, 3, 6, 9]);
    t!(Fp<17>, 3, [0u64, 1, 5, 7, 9]);
    t!(Fp<61>, 2, [0u64, 1, 2, 3, 5]);
    t!(Fr, 64, [0u64, 1, u64::MAX]);
    t!(Pallas, 32, [0u64, 1, u32::MAX as u64]);
    // the number of inputs and of selector bits must agree
    for bits in 0..=3usize {
        for n in 1..=9usize {
            if n == 1 << bits {
                continue;
            }
            jobs.add(format!("tree-refuses/bits={}/inputs={}", bits, n), move |ctx, k| {
                let g = Gad { op: Op::Tree, bits, ins: vec![Spec::new(2, 1); n] };
                let w = vec![Fp::<11>(1); bits + n];
                let r = run(&g, Some(&w), false);
                ctx.eval(if r.is_ok() { "accepted" } else { "refused" });
                if r.is_ok() {
                    ctx.fail(k, || format!("{} inputs selected among by {} bits", n, bits));
                }
            });
        }
    }
    jobs.run(ctx);
}

// ------------------------------------------------------------------ C17 polynomials
fn poly_job<F: XField>(jobs: &mut Jobs, op: Op, na: usize, nb: usize, dom: Vec<BigInt>) {
    let key = format!("{:?}/{}/{}/{}", op, F::name(), na, nb);
    jobs.add(key, move |ctx, k| {
        let s = |n| Spec { lw: 1, n, max: Some(F::modulus() - 1), min_bits: 0 };
        let g = Gad { op, bits: 0, ins: vec![s(na), s(nb)] };
        drive::<F>(
            ctx,
            k,
            &g,
            &|_, _| dom.clone(),
            &move |c| {
                let f = |i: usize| -> Vec<F> { c.limbs[i].iter().map(|x| F::from_nat(x)).collect() };
                let (a, b) = (f(0), f(1));
                if op == Op::PolySum {
                    outs((0..na.max(nb)).map(|i| a.get(i).cloned().unwrap_or(F::ZERO) + b.get(i).cloned().unwrap_or(F::ZERO)).collect())
                } else {
                    let mut o = vec![F::ZERO; na + nb - 1];
                    for i in 0..na {
                        for j in 0..nb {
                            o[i + j] += a[i] * b[j];
                        }
                    }
                    outs(o)
                }
            },
            &all,
        );
    });
}
fn c17(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    let lim = ctx.pick(3_000u64, 50_000);
    macro_rules! t {
        ($($p:literal),*) => { $( for na in 1..=4usize { for nb in 1..=4usize {
            // evaluation points are distinct only below the characteristic
            if (na + nb) as u64 > $p || ($p as u64).pow((na + nb) as u32) > lim { continue; }
            for op in [Op::PolySum, Op::PolyProduct] { poly_job::<Fp<$p>>(&mut jobs, op, na, nb, full::<Fp<$p>>(&$p.into())); }
        } } )* };
    }
    t!(3, 5, 7, 11, 13, 17, 31);
    macro_rules! b {
        ($($f:ty),*) => { $( for na in 1..=4usize { for nb in 1..=4usize { for op in [Op::PolySum, Op::PolyProduct] {
            let d: Vec<BigInt> = if na + nb <= 4 { vec![0.into(), 1.into(), <$f>::modulus() - 1, pow2(127)] } else { vec![1.into(), <$f>::modulus() / 3] };
            poly_job::<$f>(&mut jobs, op, na, nb, d);
        } } } )* };
    }
    b!(Fr, Pallas);
    if ctx.thorough {
        b!(Vesta, Bn, Secp);
    }
    jobs.run(ctx);
}

fn main() {
    main_with(&[
        Check { id: "C06", level: "model_checking", rule: "each (field, limb width, limb count, number or limbs)", assumptions: &[], f: c06 },
        Check { id: "C07", level: "model_checking", rule: "each (field, limb width, limb count, number) under the honest prover and every prover", assumptions: &[], f: c07 },
        Check { id: "C08", level: "model_checking", rule: "every history of operations up to the depth from each starting number", assumptions: &[], f: c08 },
        Check { id: "C09", level: "model_checking", rule: "each (field, shape, limbs) under the honest prover and every prover", assumptions: &[], f: c09 },
        Check { id: "C10", level: "model_checking", rule: "each (field, shape, limbs) under the honest prover and every prover", assumptions: &[], f: c10 },
        Check { id: "C11", level: "model_checking", rule: "each (field, shape, limbs) under the honest prover and every prover", assumptions: &[], f: c11 },
        Check { id: "C12", level: "model_checking", rule: "each (field, shape, limbs) under the honest prover and every prover", assumptions: &[], f: c12 },
        Check { id: "C13", level: "model_checking", rule: "each (field, shape, limbs) under the honest prover and every prover", assumptions: &[], f: c13 },
        Check { id: "C14", level: "model_checking", rule: "each (field, shape, limbs) under the honest prover and every prover", assumptions: &[], f: c14 },
        Check { id: "C15", level: "model_checking", rule: "each (field, shape, limbs) under the honest prover and every prover", assumptions: &[], f: c15 },
        Check { id: "C16", level: "model_checking", rule: "each (field, shape, selectors, limbs) under the honest prover and every prover", assumptions: &[], f: c16 },
        Check { id: "C17", level: "model_checking", rule: "each (field, degrees, coefficients) under the honest prover and every prover", assumptions: &[], f: c17 },
    ])
}
