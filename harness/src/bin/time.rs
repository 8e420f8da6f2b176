//! C18-C23: comparisons, the median of timestamps, difficulty updates
use bellpepper_core::ConstraintSystem;
use harness::{TG as G, TOp as Op, *};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use validate_btc_header::btc_validation::difficulty_update::*;
use validate_btc_header::btc_validation::median::*;

/// 2^36 - 5
type F36 = Fp<68719476731>;
/// 2^61 - 1
type F61 = Fp<2305843009213693951>;


// ---------------------------------------------------------------- comparisons
/// every pair of operands below 2^n, or the boundary ones
fn cmp_jobs<F: XField>(jobs: &mut Jobs, n: usize, all: bool, honest: bool) {
    if n + 2 > F::CAPACITY as usize {
        return;
    }
    for op in [Op::Lt(n), Op::Leq(n), Op::LtSelf(n), Op::LeqSelf(n)] {
        jobs.add(format!("{}/{:?}", F::name(), op), move |ctx, key| {
            let top = pow2(n);
            let mut v: Vec<BigInt> = vec![];
            if all {
                let mut i = BigInt::zero();
                while i < top {
                    v.push(i.clone());
                    i += 1;
                }
            } else {
                let h = pow2(n - 1);
                for b in [BigInt::zero(), h.clone(), top.clone(), pow2(n / 2), pow2(n.min(32)), pow2(n.min(64)), pow2(n.min(127)), &top / 3 * 2] {
                    for d in -2..3 {
                        v.push(&b + d);
                    }
                }
                v.retain(|x| *x >= BigInt::zero() && *x < top);
                v.sort();
                v.dedup();
            }
            let g = G { op };
            let base: Vec<F> = vec![F::ZERO; Circuit::<F>::n_in(&g)];
            let mut j = match Judge::new(ctx, key, &g, &base) {
                Some(j) => j,
                None => return,
            };
            for a in &v {
                let pairs: Vec<(BigInt, bool)> = match op {
                    Op::Lt(_) => v.iter().map(|b| (b.clone(), a < b)).collect(),
                    Op::Leq(_) => v.iter().map(|b| (b.clone(), a <= b)).collect(),
                    Op::LtSelf(_) => vec![(a.clone(), false)],
                    _ => vec![(a.clone(), true)],
                };
                for (b, r) in pairs {
                    let mut w = vec![F::from_nat(a), F::from_nat(&b)];
                    w.truncate(base.len());
                    let e = outs(vec![b2f::<F>(r)]);
                    if honest {
                        j.honest(&w, &e);
                    } else {
                        j.attack(&w, &e);
                    }
                }
            }
            j.done();
        });
    }
}
fn comparisons(ctx: &Ctx, honest: bool) {
    let mut jobs = Jobs::new();
    for n in 0..=20 {
        if n > 0 {
            cmp_jobs::<Fp<17>>(&mut jobs, n, true, honest);
            cmp_jobs::<Fp<61>>(&mut jobs, n, true, honest);
            cmp_jobs::<Fp<257>>(&mut jobs, n, true, honest);
            cmp_jobs::<Fp<1021>>(&mut jobs, n, honest || n < 6 || ctx.thorough, honest);
            cmp_jobs::<Fp<65537>>(&mut jobs, n, n < ctx.pick(6, 9), honest);
        }
    }
    for n in 1..=252 {
        let main = [1, 2, 5, 8, 31, 32, 33, 63, 64, 65, 125, 126, 127, 128, 129, 224, 225, 250, 251, 252].contains(&n);
        if main || ctx.thorough {
            cmp_jobs::<Pallas>(&mut jobs, n, false, honest);
            cmp_jobs::<Fr>(&mut jobs, n, false, honest);
        }
        if ctx.thorough {
            cmp_jobs::<Bn>(&mut jobs, n, false, honest);
            cmp_jobs::<Secp>(&mut jobs, n, false, honest);
        }
        if n <= 60 {
            cmp_jobs::<F61>(&mut jobs, n, false, honest);
        }
    }
    jobs.run(ctx);
}
fn c18(ctx: &Ctx) {
    comparisons(ctx, true)
}
fn c19(ctx: &Ctx) {
    comparisons(ctx, false)
}

// ---------------------------------------------------------------- median
/// values the ranks 0.. of a list stand for
const SCALES: [&[u32]; 4] = [
    &[7, 8, 9, 10, 11, 12],
    &[0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff],
    &[0, 0x10000, 0x80000000, 0xffff0000, 0xfffffffe, 0xffffffff],
    &[1231006505, 1231469665, 1231469744, 1305998791, 1500000000, 1700000000],
];
/// lists of `n` ranks below `k`
fn lists(n: usize, k: usize) -> Vec<Vec<usize>> {
    product(&(0..k).collect::<Vec<_>>(), n)
}
/// the sorted lists of `n` ranks below `k`, each also reversed, rotated and interleaved
fn arrangements(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    fn rec(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for x in from..k {
            cur.push(x);
            rec(n, k, x, cur, out);
            cur.pop();
        }
    }
    rec(n, k, 0, &mut vec![], &mut out);
    let mut all = vec![];
    for l in out {
        let mut r = l.clone();
        r.reverse();
        let mut rot = l.clone();
        rot.rotate_left(n / 2);
        let inter: Vec<usize> = (0..n).map(|i| l[if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }]).collect();
        all.extend([l, r, rot, inter]);
    }
    all.sort();
    all.dedup();
    all
}
/// claimed medians about a list: its values and their neighbours
fn claims_about(l: &[u32]) -> Vec<u32> {
    let mut c: Vec<u32> = vec![0, 1, u32::MAX];
    for x in l {
        c.extend([x.wrapping_sub(1), *x, x.wrapping_add(1)]);
    }
    let s: u64 = l.iter().map(|x| *x as u64).sum();
    c.push((s / l.len() as u64) as u32);
    c.sort();
    c.dedup();
    c
}
fn mid(l: &[u32]) -> u32 {
    let mut s = l.to_vec();
    s.sort_unstable();
    s[s.len() / 2]
}
fn median_lists(ctx: &Ctx, honest: bool) -> Vec<(usize, usize, Vec<Vec<usize>>)> {
    let mut v = vec![(1, 3, lists(1, 3)), (3, 4, lists(3, 4))];
    if honest || ctx.thorough {
        v.push((5, 4, lists(5, 4)));
        v.push((7, 3, lists(7, ctx.pick(2, 3))));
        v.push((11, 2, lists(11, 2)));
        v.push((11, ctx.pick(3, 5), arrangements(11, ctx.pick(3, 5))));
    } else {
        v.push((5, 3, lists(5, 3)));
        v.push((7, 2, lists(7, 2)));
        v.push((11, 3, arrangements(11, 3)));
        v.push((11, 2, lists(11, 2)));
    }
    v
}
/// `f(length, list, claim)`
fn over_medians<F: XField>(
    jobs: &mut Jobs,
    ctx: &Ctx,
    honest: bool,
    scales: &[usize],
    f: fn(&Ctx, &str, usize, &[(Vec<u32>, Vec<u32>)]),
) {
    for (n, k, ls) in median_lists(ctx, honest) {
        for &s in scales {
            let scaled: Vec<(Vec<u32>, Vec<u32>)> = ls
                .iter()
                .map(|l| {
                    let l: Vec<u32> = l.iter().map(|r| SCALES[s][*r]).collect();
                    let c = claims_about(&l);
                    (l, c)
                })
                .collect();
            for (i, c) in scaled.chunks(scaled.len().div_ceil(16).max(1)).enumerate() {
                let c = c.to_vec();
                jobs.add(format!("{}/median{}of{}/scale{}/part{}", F::name(), n, k, s, i), move |ctx, key| f(ctx, key, n, &c));
            }
        }
    }
}
/// Long lists: so many below, equal to and above the claimed value, every way to share out the list.
fn long_lists<F: XField>(jobs: &mut Jobs, lens: &[usize], step: usize, f: fn(&Ctx, &str, usize, &[(Vec<u32>, Vec<u32>)])) {
    for &n in lens {
        let mut ls: Vec<(Vec<u32>, Vec<u32>)> = vec![];
        for below in (0..=n).step_by(step) {
            for equal in (0..=n - below).step_by(step) {
                let mut l: Vec<u32> = vec![];
                l.extend((0..below).map(|i| 1000 - (i % 3) as u32));
                l.extend(vec![2000; equal]);
                l.extend((0..n - below - equal).map(|i| 3000 + (i % 3) as u32));
                l.rotate_left((7 * below + 3 * equal) % n);
                ls.push((l, vec![2000]));
            }
        }
        // around one half on either side, where a list of this length has its median
        let h = n / 2;
        for (below, equal) in [(h, 1), (h, 2), (h + 1, 1), (h - 1, 1), (h - 1, 2), (h - 1, 3), (h, h + 1), (0, h + 1), (0, h)] {
            let mut l = vec![7; below];
            l.extend(vec![8; equal]);
            l.extend(vec![u32::MAX; n - below - equal]);
            ls.push((l, vec![7, 8, u32::MAX]));
        }
        for (i, c) in ls.chunks(ls.len().div_ceil(16)).enumerate() {
            let c = c.to_vec();
            jobs.add(format!("{}/long{}/part{}", F::name(), n, i), move |ctx, key| f(ctx, key, n, &c));
        }
    }
}
fn key_of(l: &[u32], c: u32) -> String {
    format!("{}/claim={}", l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), c)
}
fn honest_medians<F: XField>(ctx: &Ctx, _: &str, _: usize, ls: &[(Vec<u32>, Vec<u32>)]) {
    let mut loc = Local::default();
    for (l, claims) in ls {
        let m = mid(l);
        let case = format!("{}/{}", F::name(), key_of(l, m));
        match guardp(|| compute_median_timestamp(&mut l.clone())) {
            Out::Ok(x) if x == m => {}
            o => ctx.fail(&format!("compute/{}", key_of(l, m)), || format!("median of {:?} computed as {:?}, is {}", l, o, m)),
        }
        for c in claims {
            let want = *c == m;
            let mut rec = Rec::<F>::prover();
            let r = guard(|| verify_median_timestamp(&mut rec, &mut l.clone(), *c));
            loc.st.states += 1;
            loc.st.transitions += 1;
            match r {
                Out::Ok(b) => {
                    loc.eval(if want { "accepted" } else { "rejected" });
                    if b.get_value() != Some(want) {
                        ctx.fail(&format!("verify/{}/claim={}", case, c), || {
                            format!("the check of {:?} answers {:?} for {}, the median is {}", l, b.get_value(), c, m)
                        });
                    }
                    if rec.eval(&rec.lin(&b.lc(<Rec<F> as ConstraintSystem<F>>::one(), F::ONE))) != Some(b2f(want)) {
                        ctx.fail(&format!("verify/{}/claim={}/wire", case, c), || format!("the answer's wire differs from its value for {:?} {}", l, c));
                    }
                    if let Some(i) = rec.first_unsat() {
                        ctx.fail(&format!("verify/{}/claim={}/unsat", case, c), || {
                            format!("the honest prover's constraint {} is unsatisfied for {:?} and claim {}", i, l, c)
                        });
                    }
                }
                o => ctx.fail(&format!("verify/{}/claim={}/failed", case, c), || format!("{:?} claim {}: {}", l, c, o.why())),
            }
        }
    }
    ctx.sample(&format!("{}", F::name()), || format!("{:?} median {} claims {:?}", ls[0].0, mid(&ls[0].0), ls[0].1));
    ctx.merge(loc);
}
fn allocated_medians<F: XField>(ctx: &Ctx, key: &str, n: usize, ls: &[(Vec<u32>, Vec<u32>)]) {
    judge_medians::<F>(ctx, key, n, ls, true)
}
fn attack_medians<F: XField>(ctx: &Ctx, key: &str, n: usize, ls: &[(Vec<u32>, Vec<u32>)]) {
    judge_medians::<F>(ctx, key, n, ls, false)
}
fn judge_medians<F: XField>(ctx: &Ctx, key: &str, n: usize, ls: &[(Vec<u32>, Vec<u32>)], honest: bool) {
    let g = G { op: Op::Median(n) };
    let _ = key;
    let k = format!("{}/allocated{}", F::name(), n);
    let mut j = match Judge::new(ctx, &k, &g, &vec![F::from(3); n + 1]) {
        Some(j) => j,
        None => return,
    };
    for (l, claims) in ls {
        let m = mid(l);
        for c in claims {
            let w: Vec<F> = l.iter().chain([c]).map(|x| F::from(*x as u64)).collect();
            let e = outs(vec![b2f::<F>(*c == m)]);
            if honest {
                j.honest(&w, &e);
            } else {
                j.attack(&w, &e);
            }
        }
    }
    j.done();
}
fn c20(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    over_medians::<Pallas>(&mut jobs, ctx, true, if ctx.thorough { &[0, 1, 2, 3] } else { &[1] }, honest_medians::<Pallas>);
    over_medians::<F36>(&mut jobs, ctx, true, &[0, 2], honest_medians::<F36>);
    over_medians::<F61>(&mut jobs, ctx, true, if ctx.thorough { &[0, 1, 2, 3] } else { &[1] }, allocated_medians::<F61>);
    long_lists::<Pallas>(&mut jobs, &[9, 13, 17, 33], 1, honest_medians::<Pallas>);
    long_lists::<Pallas>(&mut jobs, &[65, 129, 257], ctx.pick(16, 4), honest_medians::<Pallas>);
    long_lists::<F61>(&mut jobs, &[17, 33], 1, allocated_medians::<F61>);
    long_lists::<F61>(&mut jobs, &[65, 129, 257], ctx.pick(16, 4), allocated_medians::<F61>);
    jobs.run(ctx);
}
fn c21(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    over_medians::<F61>(&mut jobs, ctx, false, if ctx.thorough { &[0, 1, 2, 3] } else { &[0, 1] }, attack_medians::<F61>);
    over_medians::<F36>(&mut jobs, ctx, false, &[1], attack_medians::<F36>);
    long_lists::<F61>(&mut jobs, &[17, 33], ctx.pick(3, 1), attack_medians::<F61>);
    long_lists::<F61>(&mut jobs, &[65], ctx.pick(16, 4), attack_medians::<F61>);
    if ctx.thorough {
        over_medians::<Pallas>(&mut jobs, ctx, false, &[1], attack_medians::<Pallas>);
    }
    // the production field, where every list is short
    for s in 0..4 {
        jobs.add(format!("Pallas/short/scale{}", s), move |ctx, key| {
            let ls: Vec<(Vec<u32>, Vec<u32>)> = lists(3, 3)
                .iter()
                .map(|l| {
                    let l: Vec<u32> = l.iter().map(|r| SCALES[s][*r * 2 + 1]).collect();
                    let c = claims_about(&l);
                    (l, c)
                })
                .collect();
            attack_medians::<Pallas>(ctx, key, 3, &ls);
        });
    }
    jobs.run(ctx);
}

// ---------------------------------------------------------------- difficulty
const TWO_WEEKS: u64 = 1209600;
fn in_range(t: &BigInt) -> bool {
    *t > BigInt::from(302400) && *t < BigInt::from(4838400)
}
fn updated(prev: &BigInt, t: &BigInt) -> BigInt {
    prev * t / BigInt::from(TWO_WEEKS)
}
fn times(thorough: bool) -> Vec<u64> {
    let mut v = vec![
        0, 1, 302399, 302400, 302401, 302402, 604800, 1209599, 1209600, 1209601, 2419200, 4838398, 4838399, 4838400, 4838401,
        1 << 31, u32::MAX as u64, 1137546,
    ];
    if thorough {
        // at the powers of two within the range the search for other products runs out of bounds
        v.extend([(1 << 21) - 1, (1 << 21) + 1, (1 << 22) - 1, (1 << 22) + 1]);
        for b in [1u64 << 23, 1 << 24, 1 << 30] {
            v.extend([b - 1, b, b + 1]);
        }
        v.extend((1..48).step_by(4).map(|i| i * 100800));
        v.sort();
        v.dedup();
    }
    v
}
/// `every`: around each so many-th power of two, if not 0
fn targets(every: usize, top: usize) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = vec![];
    for k in [0usize, 20, 32, 63, 64, 65, 127, 128, 129, 191, 192, 193, 208, 223, 224] {
        let b = pow2(k);
        v.extend([&b - 1, b.clone(), &b + 1]);
    }
    for x in [2u64, 3, 4, TWO_WEEKS - 1, TWO_WEEKS, TWO_WEEKS + 1, 0x058ebe] {
        v.push(x.into());
    }
    v.push(BigInt::from(0xffff) << 208);
    v.push(BigInt::from(0x058ebe) << 160);
    v.push(BigInt::from(0x053894) << 160);
    v.push(BigInt::from(0x7fffff) << 200);
    if every > 0 {
        for k in (0..=256).step_by(every) {
            let b = pow2(k);
            v.extend([&b - 1, b.clone(), &b + 1]);
        }
    }
    if top > 224 {
        v.extend([pow2(255), pow2(256) - 1, pow2(254) + 1]);
    }
    v.retain(|x| *x >= BigInt::zero() && *x < pow2(top));
    v.sort();
    v.dedup();
    v
}
/// `calculate_difficulty_update` on every previous target and time
fn calc_jobs<F: XField>(jobs: &mut Jobs, ctx: &Ctx, honest: bool) {
    let p = F::modulus();
    let deep = ctx.thorough;
    let mut prev = targets(if deep && honest { 1 } else if deep { 4 } else { 0 }, 224);
    let mut bad: Vec<BigInt> = vec![pow2(224), pow2(224) + 1, pow2(225), pow2(254) - 1, &p - 1, &p - 2, (&p - 1) / 2, pow2(256) - &p];
    // elements whose second representative in 256 bits is a small number
    bad.extend([BigInt::from(5), pow2(200)].iter().map(|x| &p - x));
    prev.extend(bad);
    prev.retain(|x| *x < p);
    prev.sort();
    prev.dedup();
    let mut ts: Vec<BigInt> = times(deep).into_iter().map(BigInt::from).collect();
    ts.extend([pow2(32), pow2(33), pow2(33) + 604800, pow2(34), pow2(34) + 604800, pow2(64) - 1, pow2(64), pow2(64) + 604800, &p - 1, &p - 604800, &p - pow2(33) + 604800]);
    for (i, c) in prev.chunks(if deep { 8 } else { 3 }).enumerate() {
        let (c, ts) = (c.to_vec(), ts.clone());
        jobs.add(format!("{}/calculate/part{}", F::name(), i), move |ctx, _| {
            let g = G { op: Op::Calc };
            let k = format!("{}/calculate", F::name());
            let mut j = match Judge::new(ctx, &k, &g, &[F::from(1000000), F::from(604800)]) {
                Some(j) => j,
                None => return,
            };
            let n_out = j.base.outs.len();
            for x in &c {
                for t in &ts {
                    let w = [F::from_nat(x), F::from_nat(t)];
                    let e = if in_range(t) && *x < pow2(224) {
                        outs(limbs_of::<F>(&updated(x, t), 64, n_out))
                    } else {
                        Exp::Reject
                    };
                    if honest {
                        j.honest(&w, &e);
                    } else {
                        j.attack(&w, &e);
                    }
                }
            }
            j.done();
        });
    }
}
/// Provers that aim at another quotient: right modulo a power of two, the limb that is left makes up for the rest.
fn calc_aimed_jobs<F: XField>(jobs: &mut Jobs) {
    let d = BigInt::from(TWO_WEEKS);
    for prev in [pow2(40), pow2(64) - 1, pow2(127) + 12345, BigInt::from(0x058ebe) << 160, pow2(223) + 1, BigInt::from(0xffff) << 208] {
        for t in [302401u64, 604800, 1209600, 1300000, 4838399] {
            let (prev, d) = (prev.clone(), d.clone());
            jobs.add(format!("{}/calculate-aimed/prev={}/t={}", F::name(), prev, t), move |ctx, _| {
                let g = G { op: Op::Calc };
                let k = format!("{}/calculate-aimed", F::name());
                let mut j = match Judge::new(ctx, &k, &g, &[F::from(1000000), F::from(604800)]) {
                    Some(j) => j,
                    None => return,
                };
                let n = j.base.outs.len();
                let w = [F::from_nat(&prev), F::from(t)];
                let product = &prev * BigInt::from(t);
                let (u, rest) = (&product / &d, &product % &d);
                let e = outs(limbs_of::<F>(&u, 64, n));
                let mut quotients = vec![&u - 1, &u + 1, u.clone()];
                // product - r is a multiple of 2^8 * 4725 modulo any power of two if r differs from the remainder by a multiple of 2^8
                let all = pow2(64 * n);
                let mut inv = BigInt::one();
                for _ in 0..12 {
                    inv = (((&inv * (BigInt::from(2) - BigInt::from(4725) * &inv)) % &all) + &all) % &all;
                }
                for r in [&rest - 256, &rest + 256, &rest + 4096, &rest % BigInt::from(256)] {
                    if r >= BigInt::zero() && r < d && r != rest {
                        let q: BigInt = (&product - &r) / BigInt::from(256) * &inv;
                        for keep in 1..=n {
                            let m = pow2(64 * keep);
                            quotients.push(((&q % &m) + &m) % &m);
                        }
                    }
                }
                for q in &quotients {
                    if *q < BigInt::zero() {
                        continue;
                    }
                    let l = limbs_of::<F>(q, 64, n);
                    for free in 0..n {
                        let aim: Vec<(usize, F)> = (0..n).filter(|i| *i != free).map(|i| (i, l[i])).collect();
                        j.attack_with(&w, &aim, &e);
                    }
                }
                j.done();
            });
        }
    }
}
/// the halves of a 256-bit number
fn halves(x: &BigInt) -> (u128, u128) {
    let m = pow2(128);
    let d = |x: BigInt| -> u128 { x.iter_u64_digits().enumerate().map(|(i, w)| (w as u128) << (64 * i)).sum() };
    (d(x >> 128), d(x % m))
}
fn verify<F: XField>(target: &BigInt, prev: &BigInt, t: u32) -> Out<Rec<F>> {
    let mut rec = Rec::<F>::prover();
    let ((cu, cl), (pu, pl)) = (halves(target), halves(prev));
    match guardp(|| verify_difficulty_update::<F, _>(&mut rec, cu, cl, pu, pl, t)) {
        Out::Ok(_) => Out::Ok(rec),
        Out::Err(e) => Out::Err(e),
        Out::Panic(e) => Out::Panic(e),
    }
}
/// claimed updates of a target
fn claimed(prev: &BigInt, t: u64) -> Vec<BigInt> {
    let u = updated(prev, &t.into());
    let mut v = vec![
        u.clone(),
        &u + 1,
        &u - 1,
        prev.clone(),
        &u + pow2(64),
        &u - pow2(64),
        &u + pow2(128),
        &u - pow2(128),
        &u * 2,
        BigInt::zero(),
        updated(&pow2(224), &t.into()),
    ];
    v.retain(|x| *x >= BigInt::zero() && *x < pow2(256));
    v.sort();
    v.dedup();
    v
}
fn verify_jobs<F: XField>(jobs: &mut Jobs, ctx: &Ctx) {
    for (i, c) in targets(if ctx.thorough { 8 } else { 0 }, 256).chunks(4).enumerate() {
        let c = c.to_vec();
        jobs.add(format!("{}/verify/part{}", F::name(), i), move |ctx, _| {
            let mut loc = Local::default();
            for prev in &c {
                for t in times(ctx.thorough) {
                    for target in claimed(prev, t) {
                        let want = in_range(&t.into()) && target == updated(prev, &t.into());
                        let r = verify::<F>(&target, prev, t as u32);
                        loc.st.states += 1;
                        loc.st.transitions += 1;
                        let (got, why) = match &r {
                            Out::Ok(r) => (r.satisfied(), format!("constraint {:?}", r.first_unsat())),
                            o => (false, o.why()),
                        };
                        loc.eval(if got { "accepted" } else { "rejected" });
                        if got != want {
                            ctx.fail(&format!("{}/verify/prev={}/t={}/target={}", F::name(), prev, t, target), || {
                                format!(
                                    "the update of {} after {} s to {} is {} ({}), the right one is {}",
                                    prev, t, target, if got { "accepted" } else { "rejected" }, why, updated(prev, &t.into())
                                )
                            });
                        }
                    }
                }
            }
            ctx.merge(loc);
        });
    }
}
/// `verify_difficulty_update` allocates its own inputs: they are the first variables with their values
fn verify_attack_jobs<F: XField>(jobs: &mut Jobs, ctx: &Ctx) {
    for (i, c) in targets(if ctx.thorough { 8 } else { 0 }, 256).chunks(3).enumerate() {
        let c = c.to_vec();
        jobs.add(format!("{}/verify-any-prover/part{}", F::name(), i), move |ctx, _| {
            // a run whose five inputs have values of their own
            let prev = BigInt::parse_bytes(b"00000000058ebe1234567890abcdef1357924680fedcba98765432100f1e2d3c", 16).unwrap();
            let t = 1137546u32;
            let target = updated(&prev, &t.into());
            let base = match verify::<F>(&target, &prev, t) {
                Out::Ok(r) if r.satisfied() => r,
                o => {
                    ctx.fail(&format!("{}/verify-any-prover/base", F::name()), || format!("update of {} after {} to {} refused: {}", prev, t, target, o.why_or()));
                    return;
                }
            };
            let find = |v: BigInt| base.vals.iter().position(|x| x.map(|x| x.nat()) == Some(v.clone()));
            let at: Option<Vec<usize>> = [
                find(&target >> 128),
                find(&target % pow2(128)),
                find(&prev >> 128),
                find(&prev % pow2(128)),
                find(BigInt::from(t)),
            ]
            .into_iter()
            .collect();
            let at = match at {
                Some(a) => a,
                None => {
                    ctx.note("verify_inputs_not_identified", 1);
                    return;
                }
            };
            let sys = Sys::new(&base.cons, base.vals.len());
            let mut loc = Local::default();
            for prev in &c {
                for t in times(ctx.thorough) {
                    for target in claimed(prev, t) {
                        let want = in_range(&t.into()) && target == updated(prev, &t.into());
                        let vals = [&target >> 128, &target % pow2(128), prev >> 128, prev % pow2(128), BigInt::from(t)];
                        let pins: Vec<(u32, F)> = at.iter().zip(&vals).map(|(a, v)| (*a as u32, F::from_nat(v))).collect();
                        let mut s = Search::new(&sys);
                        s.max_states = 200_000;
                        let mut got = None;
                        s.run(&pins, &mut |l| {
                            got = Some(l.clone());
                            false
                        });
                        loc.st.add(&s.stats);
                        loc.eval(if got.is_some() { "accepted" } else { "rejected" });
                        let ok = got.as_ref().map(|l| concretize(&sys, l).is_some());
                        if !want && ok == Some(true) {
                            ctx.fail(&format!("{}/verify-any-prover/prev={}/t={}/target={}", F::name(), prev, t, target), || {
                                format!(
                                    "a prover can have the update of {} after {} s to {} accepted; the right one is {}: assignment {}",
                                    prev, t, target, updated(prev, &t.into()), show(got.as_ref().unwrap())
                                )
                            });
                        }
                    }
                }
            }
            ctx.merge(loc);
        });
    }
}
trait WhyOr {
    fn why_or(&self) -> String;
}
impl<F: XField> WhyOr for Out<Rec<F>> {
    fn why_or(&self) -> String {
        match self {
            Out::Ok(r) => format!("constraint {:?}", r.first_unsat()),
            o => o.why(),
        }
    }
}
fn c22(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    calc_jobs::<Pallas>(&mut jobs, ctx, true);
    calc_jobs::<Fr>(&mut jobs, ctx, true);
    verify_jobs::<Pallas>(&mut jobs, ctx);
    if ctx.thorough {
        calc_jobs::<Bn>(&mut jobs, ctx, true);
        calc_jobs::<Vesta>(&mut jobs, ctx, true);
        verify_jobs::<Fr>(&mut jobs, ctx);
    }
    jobs.run(ctx);
}
fn c23(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    calc_aimed_jobs::<Pallas>(&mut jobs);
    calc_aimed_jobs::<Fr>(&mut jobs);
    calc_jobs::<Pallas>(&mut jobs, ctx, false);
    verify_attack_jobs::<Pallas>(&mut jobs, ctx);
    if ctx.thorough {
        calc_jobs::<Fr>(&mut jobs, ctx, false);
        verify_attack_jobs::<Fr>(&mut jobs, ctx);
    }
    jobs.run(ctx);
}

fn main() {
    let _ = BigInt::one();
    main_with(&[
        Check { id: "C18", level: "model_checking", rule: "each (field, width, comparison, operands) under the honest prover", assumptions: &["operands of the stated width; the field has at least two bits more"], f: c18 },
        Check { id: "C19", level: "model_checking", rule: "each (field, width, comparison, operands) under every prover", assumptions: &["operands of the stated width; the field has at least two bits more"], f: c19 },
        Check { id: "C20", level: "model_checking", rule: "each (list up to order and ties, scale, claimed median) under the honest prover", assumptions: &["odd lengths"], f: c20 },
        Check { id: "C21", level: "model_checking", rule: "each (list up to order and ties, scale, claimed median) under every prover", assumptions: &["odd lengths"], f: c21 },
        Check { id: "C22", level: "model_checking", rule: "each (previous target, time, claimed target) under the honest prover", assumptions: &[], f: c22 },
        Check { id: "C23", level: "model_checking", rule: "each (previous target, time, claimed target) under every prover", assumptions: &[], f: c23 },
    ])
}
