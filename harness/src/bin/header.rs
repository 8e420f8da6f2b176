//! C24-C26: the header step circuit
use bellpepper_core::ConstraintSystem;
use ff::PrimeFieldBits;
use harness::*;
use nova_snark::traits::circuit::StepCircuit;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use std::collections::{BTreeSet, HashMap};
use validate_btc_header::btc_validation::header_step::BlockHeader;

// ---------------------------------------------------------------- the real step, as a circuit


// ---------------------------------------------------------------- the reference

fn sha256(m: &[u8]) -> [u8; 32] {
    // the constants, from their definition: fractional parts of roots of the first primes
    let primes: Vec<u32> = (2u32..).filter(|n| (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0)).take(64).collect();
    let frac = |p: u32, root: u32| -> u32 {
        // floor(2^32 * p^(1/root)) mod 2^32
        let x = BigInt::from(p) << (32 * root as usize);
        let r = if root == 2 { x.sqrt() } else { x.cbrt() };
        (r % (BigInt::one() << 32usize)).to_u32_digits().1.first().copied().unwrap_or(0)
    };
    let k: Vec<u32> = primes.iter().map(|p| frac(*p, 3)).collect();
    let mut h: Vec<u32> = primes[..8].iter().map(|p| frac(*p, 2)).collect();
    let mut b = m.to_vec();
    b.push(0x80);
    while b.len() % 64 != 56 {
        b.push(0);
    }
    b.extend((m.len() as u64 * 8).to_be_bytes());
    for c in b.chunks(64) {
        let mut w: Vec<u32> = c.chunks(4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]])).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v = vec![t1.wrapping_add(s0.wrapping_add(maj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
fn le(b: &[u8]) -> BigInt {
    BigInt::from_bytes_le(num_bigint::Sign::Plus, b)
}

#[derive(Clone)]
struct Hdr {
    name: &'static str,
    bytes: Vec<u8>,
    hash: BigInt,
    prev: BigInt,
    time: u64,
    /// exponent and mantissa, with its sign bit
    exp: usize,
    mant: u64,
}
impl Hdr {
    fn new(name: &'static str, bytes: Vec<u8>) -> Self {
        let hash = le(&sha256(&sha256(&bytes)));
        let u = |i: usize| u32::from_le_bytes([bytes[i], bytes[i + 1], bytes[i + 2], bytes[i + 3]]) as u64;
        Hdr { name, hash, prev: le(&bytes[4..36]), time: u(68), exp: (u(72) >> 24) as usize, mant: u(72) & 0xffffff, bytes }
    }
    fn words(&self) -> [u64; 10] {
        let mut w = [0; 10];
        for i in 0..10 {
            w[i] = u64::from_be_bytes(self.bytes[8 * i..8 * i + 8].try_into().unwrap());
        }
        w
    }
    fn unit(&self) -> usize {
        8 * (self.exp - 3)
    }
    /// The target the header claims, if it is one: positive, of at most 224 bits
    fn target(&self) -> Option<BigInt> {
        if self.exp < 3 || self.exp > 31 || self.mant >> 23 != 0 {
            return None;
        }
        let t = BigInt::from(self.mant) << self.unit();
        (t < pow2(224)).then_some(t)
    }
    /// What does not depend on the state: the hash is below the target, and both hashes have at most 224 bits
    fn valid(&self) -> bool {
        self.hash < pow2(224) && self.prev < pow2(224) && self.target().map(|t| self.hash < t).unwrap_or(false)
    }
}

const TWO_WEEKS: u64 = 14 * 24 * 3600;

/// The step on a state of field elements.  None: the header must be rejected.
fn step(h: &Hdr, z: &[BigInt], p: &BigInt) -> Option<Vec<BigInt>> {
    let t = h.target()?;
    if !h.valid() || h.prev != z[0] {
        return None;
    }
    let mut times: Vec<&BigInt> = z[1..12].iter().collect();
    times.sort();
    if BigInt::from(h.time) <= *times[5] {
        return None;
    }
    let first = z[14].is_zero();
    if first {
        if z[12] >= pow2(224) {
            return None;
        }
        let el = ((&z[11] - &z[13]) % p + p) % p;
        if el <= BigInt::from(TWO_WEEKS / 4) || el >= BigInt::from(TWO_WEEKS * 4) {
            return None;
        }
        let up: BigInt = &z[12] * el / TWO_WEEKS;
        if (up >> h.unit()) << h.unit() != t {
            return None;
        }
    } else if z[12] != t {
        return None;
    }
    let mut o = vec![h.hash.clone()];
    o.extend_from_slice(&z[2..12]);
    o.push(h.time.into());
    o.push(t.clone());
    o.push(if first { h.time.into() } else { z[13].clone() });
    o.push(if z[14] == BigInt::from(2015) { BigInt::zero() } else { (&z[14] + 1) % p });
    o.push((&z[15] + (BigInt::from(0xFFFF) << 208usize) / t) % p);
    Some(o)
}

// ---------------------------------------------------------------- headers

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn headers() -> Vec<Hdr> {
    let l = include_str!("../headers.txt");
    let v: Vec<Hdr> = l
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| {
            let mut w = l.split_whitespace();
            Hdr::new(w.next().unwrap(), hex(w.next().unwrap()))
        })
        .collect();
    let get = |n: &str| v.iter().find(|h| h.name == n).expect("header");
    // the reference itself, against known facts
    let known = BigInt::parse_bytes(b"000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f", 16).unwrap();
    let ok = get("genesis").hash == known
        && get("block1").prev == known
        && get("block2").prev == get("block1").hash
        && v.iter().all(|h| h.valid() != h.name.starts_with('R'));
    if !ok {
        panic!("HARNESS: the reference does not reproduce known hashes");
    }
    v
}

/// Before block 123456
fn z123456() -> Vec<BigInt> {
    let mut z = vec!["18283544428642297129396529020735695233361821945456783020785813".parse().unwrap()];
    for t in [
        1305191152u64, 1305191688, 1305193319, 1305194571, 1305194986, 1305195947, 1305197900, 1305199436, 1305200301, 1305200460,
        1305200584,
    ] {
        z.push(t.into());
    }
    z.push("171262555713783851185422181139260521316022447660158187451973632".parse().unwrap());
    z.push(1304975844u64.into());
    z.push(480.into());
    z.push(0.into());
    z
}

// ---------------------------------------------------------------- scenarios

/// One state for a header: which choices it deviates in, and the state.
struct Scene {
    name: String,
    z: Vec<BigInt>,
}
type Opt<T> = Vec<(String, T)>;
/// How the state's target, epoch start and counter are chosen
#[derive(Clone)]
struct Epoch {
    target: BigInt,
    /// epoch start: an absolute value, or this long before the last timestamp
    start: Result<BigInt, BigInt>,
    counter: BigInt,
}

fn scenes(h: &Hdr, p: &BigInt, deep: bool) -> Vec<Scene> {
    let b = |x: u64| BigInt::from(x);
    let max = b(u32::MAX as u64);
    let mut hash: Opt<BigInt> = vec![("prev".into(), h.prev.clone())];
    for (n, x) in [
        ("prev+1", &h.prev + 1),
        ("prev-1", &h.prev - 1),
        ("prev+2^224", &h.prev + pow2(224)),
        ("prev+2^128", &h.prev + pow2(128)),
        ("prev=0", BigInt::zero()),
        ("prev=own", h.hash.clone()),
    ] {
        let x = ((x % p) + p) % p;
        if hash.iter().all(|o| o.1 != x) {
            hash.push((n.into(), x));
        }
    }
    let mut times: Opt<Vec<BigInt>> = vec![];
    let t = h.time;
    let w = t.saturating_sub(1);
    let mut add = |n: &str, v: Vec<u64>| times.push((n.into(), v.into_iter().map(b).collect()));
    let m = u32::MAX as u64;
    let at = |lo: u64, mid: u64, hi: u64, k: usize| -> Vec<u64> {
        // the middle one at place k, the others alternating
        let mut v: Vec<u64> = (0..10).map(|i| if i % 2 == 0 { lo } else { hi }).collect();
        v.insert(k, mid);
        v
    };
    let ramp = |mid: u64| -> Vec<u64> { (0..11u64).map(|i| (mid + i).saturating_sub(5).min(m)).collect() };
    add("all-1", vec![w; 11]);
    add("spread0", at(0, w, m, 0));
    add("spread5", at(0, w, m, 5));
    add("spread10", at(0, w, m, 10));
    add("ramp", ramp(w.min(m - 5)));
    add("ramp-down", ramp(w.min(m - 5)).into_iter().rev().collect());
    add("low", [vec![0; 6], vec![m; 5]].concat());
    add("zeros", vec![0; 11]);
    add("same", vec![t; 11]);
    add("same-spread", at(0, t, m, 3));
    add("later", vec![(t + 1).min(m); 11]);
    add("high", [vec![0; 5], vec![m; 6]].concat());
    add("high-mixed", at(0, m, m, 7));
    add("tie-low", [vec![w; 6], vec![t; 5]].concat());
    add("tie-high", [vec![t; 6], vec![w; 5]].concat());

    let tg = h.target().unwrap_or_else(|| BigInt::from(0xFFFF) << 208usize);
    let unit = if h.exp >= 3 { pow2(8 * (h.exp.min(31) - 3)) } else { BigInt::one() };
    let mut ep: Opt<Epoch> = vec![];
    let mut e = |n: String, target: &BigInt, start: Result<BigInt, BigInt>, counter: &BigInt| {
        let target = ((target % p) + p) % p;
        ep.push((n, Epoch { target, start, counter: counter.clone() }));
    };
    let start = b(t.saturating_sub(1000));
    for r in [b(1), b(2), b(480), b(2014), b(2015), b(2016), b(1 << 32), p - 1] {
        e(format!("r={}", if r == p - 1 { "-1".into() } else { r.to_string() }), &tg, Ok(start.clone()), &r);
    }
    for (n, s) in [("0", b(0)), ("max", max.clone()), ("-1", p - 1)] {
        e(format!("r=7,start={}", n), &tg, Ok(s), &b(7));
    }
    // within an epoch that has taken two weeks already: its start must stay
    for r in [1u64, 7, 2014, 2015] {
        for d in [1209600u64, 1209601] {
            e(format!("r={},el={}", r, d), &tg, Err(b(d)), &b(r));
        }
    }
    for (n, x) in [("+1", &tg + 1), ("-1", &tg - 1), ("+unit", &tg + &unit), ("*2", &tg * 2), ("=0", BigInt::zero()), ("+2^224", &tg + pow2(224))] {
        e(format!("r=1,target{}", n), &x, Ok(start.clone()), &b(1));
        if deep {
            e(format!("r=2015,target{}", n), &x, Ok(start.clone()), &b(2015));
        }
    }
    let zero = BigInt::zero();
    let up = |n: &BigInt, d: &BigInt| -> BigInt { (n + d - 1) / d };
    for el in [302401u64, 302402, 604800, 806400, 1209599, 1209600, 1209601, 2419200, 4838398, 4838399] {
        let d = b(el);
        // the previous targets whose update rounds to this header's target
        let lo = up(&(&tg * TWO_WEEKS), &d);
        let hi: BigInt = up(&((&tg + &unit) * TWO_WEEKS), &d) - 1;
        for (n, x) in [("lo", lo.clone()), ("hi", hi.clone()), ("lo-1", &lo - 1), ("hi+1", &hi + 1), ("same", tg.clone())] {
            // all of them at some times, the ends of the range at odd ones
            if !(deep || [604800, 1209600, 1209601].contains(&el) || el % 2 == 1 && (n == "lo" || n == "hi")) {
                continue;
            }
            if x < pow2(224) {
                e(format!("r=0,el={},{}", el, n), &x, Err(d.clone()), &zero);
            }
        }
    }
    for (n, d) in [
        ("302400", b(302400)),
        ("4838400", b(4838400)),
        ("4838401", b(4838401)),
        ("0", b(0)),
        ("1", b(1)),
        ("-1", p - 1),
        ("-1209600", p - 1209600u64),
        ("2^32", pow2(32)),
        ("2^23+1209600", b((1 << 23) + 1209600)),
        ("p/2", p / 2),
    ] {
        let x = if d.is_zero() || d > pow2(40) { tg.clone() } else { up(&(&tg * TWO_WEEKS), &d) };
        e(format!("r=0,out={}", n), &if x < pow2(224) { x } else { tg.clone() }, Err(d.clone()), &zero);
        e(format!("r=0,out={},same", n), &tg, Err(d), &zero);
    }
    e("r=0,target+2^224".into(), &(&tg + pow2(224)), Err(b(1209600)), &zero);
    e("r=0,target=-1".into(), &BigInt::from(-1), Err(b(1209600)), &zero);
    // out of range by a whole field: prev * elapsed wraps to the right product
    let inv = |x: u64| -> BigInt { b(x).modpow(&(p - 2), p) };
    e("r=0,target=T*14d/13d".into(), &(&tg * TWO_WEEKS * inv(1123200) % p), Err(b(1123200)), &zero);

    let own = match h.target() {
        Some(t) if !t.is_zero() => (BigInt::from(0xFFFF) << 208usize) / t,
        _ => zero.clone(),
    };
    let work: Opt<BigInt> = vec![
        ("w=0".into(), b(0)),
        ("w=1".into(), b(1)),
        ("w=2^64-1".into(), b(u64::MAX)),
        ("w=2^200".into(), pow2(200)),
        ("w=-1".into(), p - 1),
        ("w=-own".into(), (p - own) % p),
    ];

    let mut out: Vec<Scene> = vec![];
    let mut seen = BTreeSet::new();
    let first0 = ep.iter().position(|e| e.0.starts_with("r=0,el=1209600,lo")).unwrap_or(0);
    let mut push = |i: usize, j: usize, k: usize, l: usize| {
        let (hh, tt, ee, ww) = (&hash[i], &times[j], &ep[k], &work[l]);
        let mut z = vec![hh.1.clone()];
        z.extend(tt.1.iter().cloned());
        z.push(ee.1.target.clone());
        z.push(match &ee.1.start {
            Ok(s) => s.clone(),
            Err(d) => ((&z[11] - d) % p + p) % p,
        });
        z.push(ee.1.counter.clone());
        z.push(ww.1.clone());
        if seen.insert(z.clone()) {
            out.push(Scene { name: format!("{}/{}/{}/{}", hh.0, tt.0, ee.0, ww.0), z });
        }
    };
    // one choice away from either baseline; all pairs of choices when deep
    for k0 in [0, first0] {
        for i in 0..hash.len() {
            push(i, 0, k0, 0);
        }
        for j in 0..times.len() {
            push(0, j, k0, 0);
        }
        for l in 0..work.len() {
            push(0, 0, k0, l);
        }
    }
    for k in 0..ep.len() {
        push(0, 0, k, 0);
        // the last timestamp matters to the update: also with another pattern
        push(0, 3, k, 0);
    }
    if deep {
        for j in 0..times.len() {
            for k in 0..ep.len() {
                push(0, j, k, (j + k) % work.len());
            }
            for i in 1..hash.len() {
                push(i, j, (7 * j + 3 * i) % ep.len(), (i + j) % work.len());
            }
        }
        for i in 1..hash.len() {
            for k in 0..ep.len() {
                push(i, k % times.len(), k, (i + k) % work.len());
            }
        }
    }
    out
}

// ---------------------------------------------------------------- running the step

fn fe<F: XField>(z: &[BigInt]) -> Vec<F> {
    z.iter().map(|x| F::from_nat(x)).collect()
}
struct World<F: XField> {
    base: Run<F>,
    h: Vec<Hdr>,
    p: BigInt,
}
impl<F: XField + PrimeFieldBits> World<F> {
    fn new(ctx: &Ctx) -> Option<Self> {
        let h = headers();
        let b = h.iter().find(|h| h.name == "123456").unwrap();
        match run::<F>(&Step { words: b.words() }, Some(&fe(&z123456())), false) {
            Out::Ok(base) => Some(World { base, h, p: F::modulus() }),
            o => {
                ctx.fail(&format!("{}/123456/base", F::name()), || format!("the honest prover cannot process block 123456: {}", o.why()));
                None
            }
        }
    }
    /// The honest prover
    fn honest(&self, ctx: &Ctx, h: &Hdr, key: &str, z: &[BigInt], want: &Option<Vec<BigInt>>) {
        let r = run::<F>(&Step { words: h.words() }, Some(&fe(z)), false);
        ctx.visited(1, 1);
        ctx.validated(1);
        let zs = || z.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        match (r, want) {
            (Out::Ok(r), want) => {
                let sat = r.rec.first_unsat().is_none();
                let same = r.rec.vals.len() == self.base.rec.vals.len() && r.rec.cons == self.base.rec.cons;
                let sat = sat && same;
                ctx.eval(if sat { "accepted" } else { "rejected" });
                match want {
                    None if sat => ctx.fail(&format!("{}/accepted", key), || {
                        format!("header {} is accepted by the honest prover, though it must be rejected; state [{}]", h.name, zs())
                    }),
                    None => {}
                    Some(_) if !sat => ctx.fail(&format!("{}/refused", key), || {
                        format!("valid header {} is rejected (constraint {:?}, circuit as for block 123456: {}); state [{}]", h.name, r.rec.first_unsat(), same, zs())
                    }),
                    Some(w) => {
                        let got: Vec<Option<BigInt>> = r.outs.iter().map(|o| o.1.map(|x| x.nat())).collect();
                        if got.len() != 16 || got.iter().zip(w).any(|(a, b)| a.as_ref() != Some(b)) {
                            ctx.fail(&format!("{}/output", key), || {
                                format!("header {}: the next state is {:?}, expected [{}]; state [{}]", h.name, got, w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), zs())
                            });
                        }
                        if !r.outs_consistent() {
                            ctx.fail(&format!("{}/values", key), || format!("header {}: a reported value is not that of the circuit; state [{}]", h.name, zs()));
                        }
                    }
                }
            }
            (o, Some(_)) => {
                ctx.eval("failed");
                ctx.fail(&format!("{}/refused", key), || format!("the honest prover cannot process the valid header {}: {}; state [{}]", h.name, o.why(), zs()));
            }
            _ => ctx.eval("refused"),
        }
    }
    /// The variables that hold the bits of the header, by what they do on arbitrary headers
    fn bit_vars(&self) -> Vec<Option<u32>> {
        let n = 96;
        let mut seed = 0x1234567u64;
        let mut rnd = move || {
            seed = seed.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = seed;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            (x ^ (x >> 31)) as u8
        };
        let z = fe::<F>(&z123456());
        let (mut bits, mut sig): (Vec<u128>, Vec<Option<u128>>) = (vec![0; 640], vec![]);
        for k in 0..n {
            let bytes: Vec<u8> = (0..80).map(|_| rnd()).collect();
            for (j, x) in bits.iter_mut().enumerate() {
                *x |= ((bytes[j / 8] >> (7 - j % 8) & 1) as u128) << k;
            }
            let mut rec = Rec::<F>::mk(true, false);
            let st = Step { words: Hdr::new("", bytes).words() };
            // what was assigned until the prover gave up counts too
            let d: &dyn DynCircuit<F> = &st;
            let _ = d.rec(&mut rec, Some(&z));
            if k == 0 {
                sig = vec![Some(0); rec.vals.len()];
            }
            sig.truncate(rec.vals.len());
            for (i, s) in sig.iter_mut().enumerate() {
                let v = rec.vals[i];
                *s = match s {
                    Some(s) if v == Some(F::ZERO) => Some(*s),
                    Some(s) if v == Some(F::ONE) => Some(*s | 1 << k),
                    _ => None,
                };
            }
        }
        let mut first: HashMap<u128, u32> = HashMap::new();
        for (i, s) in sig.iter().enumerate().rev() {
            if let Some(s) = s {
                first.insert(*s, i as u32);
            }
        }
        bits.iter().map(|b| first.get(b).copied()).collect()
    }
}

fn extended<F: XField>(r: &Run<F>) -> Sys<F> {
    let mut cons = r.rec.cons.clone();
    let n = r.rec.vals.len();
    for (i, (l, _)) in r.outs.iter().enumerate() {
        let mut t = l.t.clone();
        t.push(((n + i) as u32, -F::ONE));
        cons.push(Con { a: Lin { t: vec![] }, b: Lin { t: vec![] }, c: Lin { t } });
    }
    Sys::new(&cons, n + r.outs.len())
}

/// Everything a prover can do with a fixed header.
struct Attack<'a, F: XField> {
    w: &'a World<F>,
    sys: &'a Sys<F>,
    h: &'a Hdr,
    red: Option<Reduced<F>>,
}
impl<'a, F: XField + PrimeFieldBits> Attack<'a, F> {
    fn new(ctx: &Ctx, w: &'a World<F>, sys: &'a Sys<F>, vars: &[Option<u32>], h: &'a Hdr) -> Self {
        let pins: Vec<(u32, F)> = vars
            .iter()
            .enumerate()
            .filter_map(|(j, v)| v.map(|v| (v, F::from((h.bytes[j / 8] >> (7 - j % 8) & 1) as u64))))
            .collect();
        let red = Reduced::new(sys, &pins);
        if let Some(r) = &red {
            ctx.stats(&r.stats);
        }
        Attack { w, sys, h, red }
    }
    fn go(&self, ctx: &Ctx, key: &str, z: &[BigInt], want: &Option<Vec<BigInt>>) {
        let Some(red) = &self.red else {
            ctx.visited(1, 1);
            return self.verdict(ctx, key, z, want, None, true);
        };
        let w = self.w;
        let n = w.base.rec.vals.len();
        let zp = match red.pins(&pins(&fe::<F>(z))) {
            Some(p) => p,
            None => {
                ctx.visited(1, 1);
                return self.verdict(ctx, key, z, want, None, true);
            }
        };
        let mut se = Search::new(&red.sys);
        se.max_states = 60_000;
        // rejection: is there any solution; else: what can the outputs be
        se.project = Some(if want.is_none() {
            vec![]
        } else {
            (0..w.base.outs.len()).filter_map(|i| red.of.binary_search(&((n + i) as u32)).ok()).map(|x| x as u32).collect()
        });
        let wf: Option<Vec<F>> = want.as_ref().map(|w| fe(w));
        let mut bad = None;
        let mut any = None;
        se.run(&zp, &mut |l| {
            let l = red.leaf(l);
            let ok = wf.as_ref().map(|w| w.iter().enumerate().all(|(i, x)| l[n + i] == Some(*x))).unwrap_or(false);
            if !ok {
                bad = Some(l.clone());
            }
            any = any.take().or(Some(l));
            ok
        });
        ctx.stats(&se.stats);
        if std::env::var("VERIF_SLOW").is_ok() && (se.stats.states > 1000 || se.stats.capped || se.stats.stuck) {
            println!("slow: {} {:?}", key, se.stats);
        }
        let sure = !se.stats.capped && !se.stats.stuck;
        if let Some(b) = bad {
            // an output that is left open can be another than the right one
            let mut other = None;
            for (i, x) in wf.iter().flatten().enumerate() {
                if other.is_none() && b[n + i].is_none() {
                    let mut l = b.clone();
                    l[n + i] = Some(*x + F::ONE);
                    other = concretize(self.sys, &l);
                }
            }
            match other.or_else(|| concretize(self.sys, &b)) {
                Some(a) => {
                    let a: Vec<Option<F>> = a.into_iter().map(Some).collect();
                    return self.verdict(ctx, key, z, want, Some(a), sure);
                }
                None if sure => panic!("HARNESS: no assignment for a solution of {}", key),
                None => return,
            }
        }
        self.verdict(ctx, key, z, want, any, sure)
    }
    fn verdict(&self, ctx: &Ctx, key: &str, z: &[BigInt], want: &Option<Vec<BigInt>>, got: Option<Leaf<F>>, sure: bool) {
        let n = self.w.base.rec.vals.len();
        let zs = || z.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        ctx.eval(if got.is_some() { "satisfiable" } else { "unsatisfiable" });
        match (got, want) {
            (Some(_), None) => ctx.fail(&format!("{}/forged", key), || {
                format!("a prover can satisfy the step for header {}, which must be rejected; state [{}]", self.h.name, zs())
            }),
            (Some(l), Some(w)) => {
                let o: Vec<Option<BigInt>> = (0..w.len()).map(|i| l[n + i].map(|x| x.nat())).collect();
                if o.iter().zip(w).any(|(a, b)| a.as_ref() != Some(b)) {
                    ctx.fail(&format!("{}/unbound", key), || {
                        format!("a prover can obtain the next state {:?} for header {}, where only [{}] is right; state [{}]", o, self.h.name, w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), zs())
                    });
                }
            }
            (None, Some(_)) if sure => {
                // whether the honest prover is accepted is decided elsewhere; here only a lost solution matters
                if let Out::Ok(r) = run::<F>(&Step { words: self.h.words() }, Some(&fe(z)), false) {
                    if r.rec.vals.len() == n && first_unsat(&self.w.base.rec.cons, &r.rec.vals).is_none() {
                        panic!("HARNESS: the explorer lost the honest solution of {}", key);
                    }
                }
            }
            _ => {}
        }
    }
}

fn known_vectors<F: XField + PrimeFieldBits>(ctx: &Ctx) {
    let z: Vec<BigInt> = BlockHeader::<F>::initial_z_i_scalars().iter().map(|x| x.nat()).collect();
    if z != z123456() {
        ctx.fail(&format!("{}/initial", F::name()), || format!("the initial state is {:?}, not that before block 123456", z));
    }
    let a = BlockHeader::<F>::new_blocks(vec![[1; 10], [2; 10], [3; 10]]).len();
    let ar = StepCircuit::<F>::arity(&BlockHeader::<F>::default());
    if a != 3 || ar != 16 {
        ctx.fail(&format!("{}/arity", F::name()), || format!("3 blocks give {} steps, of {} state elements", a, ar));
    }
}

/// every header from every state, on from the outputs, until nothing follows
fn chains<F: XField + PrimeFieldBits>(ctx: &Ctx, w: &World<F>) {
    let by = |n: &str| w.h.iter().find(|h| h.name == n).unwrap();
    let (g, b1, b2) = (by("genesis").time, by("block1").time, by("block2").time);
    let t0 = BigInt::from(0xFFFF) << 208usize;
    let mk = |last: u64, start: u64, r: u64| -> Vec<BigInt> {
        let mut z = vec![BigInt::zero()];
        z.extend((0..11u64).map(|i| BigInt::from(last.saturating_sub(600 * (10 - i)))));
        z.extend([t0.clone(), start.into(), r.into(), BigInt::zero()]);
        z
    };
    let mut starts: Vec<(String, Vec<BigInt>)> = vec![];
    for r in [0u64, 1, 2011, 2012, 2013, 2014, 2015] {
        for (n, s) in [("2w", g - 600 - TWO_WEEKS), ("half", b2 - TWO_WEEKS / 2), ("half1", b1 - 811852), ("2w1", b1 - TWO_WEEKS), ("2w2", b2 - TWO_WEEKS - 1)] {
            starts.push((format!("r={},start={}", r, n), mk(g - 600, s, r)));
        }
    }
    if !ctx.thorough {
        // each retarget position once, with the start that allows it
        starts.retain(|s| ["r=0,start=2w", "r=1,start=2w", "r=2013,start=half", "r=2013,start=2w2", "r=2014,start=half1", "r=2014,start=2w1", "r=2015,start=half", "r=2012,start=half"].contains(&s.0.as_str()));
    }
    let mut edges: Vec<(String, Hdr, Vec<BigInt>, Option<Vec<BigInt>>)> = vec![];
    let mut seen: BTreeSet<(Vec<BigInt>, &str)> = BTreeSet::new();
    for (n, z) in starts {
        let mut todo = vec![(n, z)];
        while let Some((path, z)) = todo.pop() {
            for h in &w.h {
                // headers that do not link are covered by the scenes
                if h.prev != z[0] || !seen.insert((z.clone(), h.name)) {
                    continue;
                }
                let next = step(h, &z, &w.p);
                let q = format!("{}>{}", path, h.name);
                if let Some(n) = &next {
                    todo.push((q.clone(), n.clone()));
                }
                edges.push((q, h.clone(), z.clone(), next));
            }
        }
    }
    let longest = edges.iter().filter(|e| e.3.is_some()).map(|e| e.0.matches('>').count()).max().unwrap_or(0);
    if longest < 6 {
        panic!("HARNESS: the chains are only {} headers long", longest);
    }
    ctx.note("chain_steps", edges.len() as u64);
    ctx.note("longest_chain", longest as u64);
    par_for(ctx, &edges, |e| e.0.clone(), |e| w.honest(ctx, &e.1, &format!("{}/chain/{}", F::name(), e.0), &e.2, &e.3));
}

fn honest_field<F: XField + PrimeFieldBits>(ctx: &Ctx, every: usize) {
    let Some(w) = World::<F>::new(ctx) else { return };
    known_vectors::<F>(ctx);
    let mut jobs = vec![];
    for h in w.h.iter().filter(|h| h.valid()) {
        for (i, s) in scenes(h, &w.p, ctx.thorough).into_iter().filter_map(|s| step(h, &s.z, &w.p).map(|o| (s, o))).enumerate() {
            if i % every == 0 {
                jobs.push((h, s.0, s.1));
            }
        }
    }
    let (_h, s, o) = &jobs[0];
    ctx.sample(&format!("{}/scene", F::name()), || format!("{}: state {:?} next {:?}", s.name, s.z, o));
    par_for(ctx, &jobs, |j| j.1.name.clone(), |(h, s, o)| {
        w.honest(ctx, h, &format!("{}/{}/{}", F::name(), h.name, s.name), &s.z, &Some(o.clone()))
    });
    if every == 1 {
        chains::<F>(ctx, &w);
    }
}
fn c24(ctx: &Ctx) {
    honest_field::<Pallas>(ctx, 1);
    honest_field::<Vesta>(ctx, ctx.pick(40, 6));
    honest_field::<Bn>(ctx, ctx.pick(40, 6));
}

fn attack_field<F: XField + PrimeFieldBits>(ctx: &Ctx, reject: bool, every: usize) {
    let Some(w) = World::<F>::new(ctx) else { return };
    let vars = w.bit_vars();
    let known = vars.iter().filter(|v| v.is_some()).count();
    ctx.note("header_bits_identified", known as u64);
    if known < 640 {
        // the circuit holds the header in some other form: what a prover can do with a fixed header
        // cannot be asked this way
        ctx.note("header_not_identified", 1);
    }
    let sys = extended(&w.base);
    let mut hs: Vec<(&Hdr, Vec<Scene>)> = vec![];
    for (hi, h) in w.h.iter().enumerate() {
        if !reject && !h.valid() {
            continue;
        }
        let v: Vec<Scene> = scenes(h, &w.p, ctx.thorough)
            .into_iter()
            .filter(|s| step(h, &s.z, &w.p).is_none() == reject)
            .enumerate()
            .filter(|(i, _)| (i + hi) % every == 0 || !h.valid() && *i == 0)
            .map(|x| x.1)
            .collect();
        hs.push((h, v));
    }
    let atts: std::sync::Mutex<HashMap<usize, std::sync::Arc<Attack<F>>>> = Default::default();
    let ix: Vec<usize> = (0..hs.len()).collect();
    if known == 640 {
        par_for(ctx, &ix, |i| hs[*i].0.name.into(), |i| {
            let a = Attack::new(ctx, &w, &sys, &vars, hs[*i].0);
            atts.lock().unwrap().insert(*i, std::sync::Arc::new(a));
        });
    }
    let atts = atts.into_inner().unwrap();
    let jobs: Vec<(usize, &Scene)> = hs.iter().enumerate().flat_map(|(i, h)| h.1.iter().map(move |s| (i, s))).collect();
    par_for(ctx, &jobs, |j| j.1.name.clone(), |(i, s)| {
        let h = hs[*i].0;
        let key = format!("{}/{}/{}", F::name(), h.name, s.name);
        if ctx.skips(&key) {
            return;
        }
        let want = step(h, &s.z, &w.p);
        if let Some(a) = atts.get(i) {
            a.go(ctx, &key, &s.z, &want);
        }
        if reject {
            w.honest(ctx, h, &key, &s.z, &want);
        }
    });
    if let Some((i, s)) = jobs.first() {
        let h = hs[*i].0;
        if F::name() == Pallas::name() {
            conform(ctx, &format!("{}/{}/{}", F::name(), h.name, s.name), &Step { words: h.words() }, &fe::<F>(&s.z), &[]);
        }
    }
}
fn c25(ctx: &Ctx) {
    attack_field::<Pallas>(ctx, true, 1);
    if ctx.thorough {
        attack_field::<Vesta>(ctx, true, 7);
        attack_field::<Bn>(ctx, true, 7);
    }
}
fn c26(ctx: &Ctx) {
    attack_field::<Pallas>(ctx, false, 1);
    if ctx.thorough {
        attack_field::<Vesta>(ctx, false, 5);
        attack_field::<Bn>(ctx, false, 5);
    }
}

const RULE: &str = "every header of a list of real and specially mined ones (extreme times, targets, previous hashes; invalid ones with enough work) x every state one choice away from two baselines (all pairs in the thorough tier) over alphabets of previous hashes, timestamp patterns, targets/counters/epoch times at their limits, and accumulated works";
const CHECKS: &[Check] = &[
    Check { id: "C24", level: "model_checking", rule: "the states that must be accepted, of: every header of a list of real and specially mined ones x every state one choice away from two baselines (all pairs in the thorough tier); and every chain of linking headers from several initial states, to its end", assumptions: &["timestamps in the state have 32 bits"], f: c24 },
    Check { id: "C25", level: "model_checking", rule: RULE, assumptions: &["timestamps in the state have 32 bits", "header bits are the first variables that follow the header's bits on 96 arbitrary headers"], f: c25 },
    Check { id: "C26", level: "model_checking", rule: RULE, assumptions: &["timestamps in the state have 32 bits", "header bits are the first variables that follow the header's bits on 96 arbitrary headers"], f: c26 },
];
fn main() {
    main_with(CHECKS)
}
