//! The explorer against unpruned enumeration, on every small random-looking system of a fixed family.
use crate::explore::*;
use crate::rec::*;
use crate::tiny::*;
use std::collections::BTreeSet;

fn sols_explore<F: XField>(cons: &[Con<F>], n: usize, pins: &[(u32, F)], project: Option<&[u32]>) -> BTreeSet<Vec<String>> {
    let sys = Sys::new(cons, n);
    let mut s = Search::new(&sys);
    s.project = project.map(|p| p.to_vec());
    let all: Vec<u32> = (0..n as u32).collect();
    let keep = project.unwrap_or(&all);
    let mut out = BTreeSet::new();
    s.run(pins, &mut |leaf| {
        // expand free variables
        let p = F::TINY.unwrap();
        let free: Vec<usize> = (0..n).filter(|i| leaf[*i].is_none()).collect();
        let tot = p.pow(free.len() as u32);
        for mut k in 0..tot {
            let mut v = leaf.clone();
            for f in &free {
                v[*f] = Some(F::tiny(k % p));
                k /= p;
            }
            if first_unsat(cons, &v).is_none() {
                out.insert(keep.iter().map(|i| v[*i as usize].unwrap().nat().to_string()).collect());
            }
        }
        true
    });
    out
}

pub fn fam<const P: u64>(count: u64) {
    let mut seed: u64 = 0x9E3779B97F4A7C15 ^ P;
    let mut rnd = move |m: u64| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 33) % m
    };
    for _ in 0..count {
        let n = 2 + rnd(if P < 11 { 5 } else { 4 }) as usize; // incl ONE
        let nc = 1 + rnd(5);
        let mut cons = vec![];
        for _ in 0..nc {
            let lin = |r: &mut dyn FnMut(u64) -> u64| {
                let mut t = vec![];
                for v in 0..n as u32 {
                    if r(2) == 0 {
                        let c = r(P);
                        if c != 0 {
                            t.push((v, Fp::<P>(c)));
                        }
                    }
                }
                Lin { t }
            };
            let k = rnd(4);
            let (mut a, mut b, mut c) = (lin(&mut rnd), lin(&mut rnd), lin(&mut rnd));
            if k == 0 {
                // boolean-like
                let v = 1 + rnd(n as u64 - 1) as u32;
                a = Lin { t: vec![(v, Fp(1))] };
                b = Lin { t: vec![(0, Fp(1)), (v, Fp(P - 1))] };
                c = Lin { t: vec![] };
            } else if k == 1 {
                a = Lin { t: vec![] };
            }
            cons.push(Con { a, b, c });
        }
        let pins: Vec<(u32, Fp<P>)> = if n > 2 && rnd(2) == 0 { vec![(1, Fp(rnd(P)))] } else { vec![] };
        let all = brute(&cons, n, &pins);
        let e = sols_explore(&cons, n, &pins, None);
        let b: BTreeSet<Vec<String>> =
            all.iter().map(|v| v.iter().map(|x| x.nat().to_string()).collect()).collect();
        // the same, asked only for the values some variables can take
        let proj: Vec<u32> = (1..n as u32).filter(|_| rnd(3) == 0).collect();
        let pe = sols_explore(&cons, n, &pins, Some(&proj));
        let pb: BTreeSet<Vec<String>> =
            all.iter().map(|v| proj.iter().map(|i| v[*i as usize].nat().to_string()).collect()).collect();
        if pe != pb {
            panic!("HARNESS: projected search differs from brute force: {:?} pins {:?} onto {:?}: {} vs {}", cons, pins, proj, pe.len(), pb.len());
        }
        if e != b {
            panic!("HARNESS: explorer differs from brute force: {:?} pins {:?}: {} vs {}", cons, pins, e.len(), b.len());
        }
    }
}

/// Linear relations with large coefficients between bits, over a large field.
pub fn fam_bits<F: XField>(count: u64) {
    let mut seed: u64 = 0xD1B54A32D192ED03;
    let mut rnd = move |m: u64| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 33) % m
    };
    for _ in 0..count {
        let n = 3 + rnd(6) as usize; // incl ONE
        let mut cons = vec![];
        let k = |x: F| Lin { t: if x == F::ZERO { vec![] } else { vec![(0, x)] } };
        for v in 1..n as u32 {
            // x (x - d) = 0
            let d = if rnd(4) == 0 { F::from(1 << rnd(5)) } else { F::ONE };
            cons.push(Con { a: Lin { t: vec![(v, F::ONE)] }, b: Lin { t: vec![(0, -d), (v, F::ONE)] }, c: k(F::ZERO) });
        }
        let plant: Vec<F> = (0..n).map(|i| if i == 0 { F::ONE } else if rnd(2) == 0 { F::ZERO } else { -cons[i - 1].b.t[0].1 }).collect();
        for _ in 0..1 + rnd(2) {
            let base = [0u64, 40, 66, 130][rnd(4) as usize];
            let step = rnd(3);
            let mut t = vec![(0u32, F::ZERO)];
            for v in 1..n as u32 {
                if rnd(5) == 0 {
                    continue;
                }
                let e = base + if step == 0 { rnd(6) } else { step * v as u64 };
                let mut c = F::from(2).pow_vartime([e]) * F::from(1 + rnd(3));
                if rnd(3) == 0 {
                    c = -c;
                }
                t.push((v, c));
            }
            let mut z = F::ZERO;
            for (v, c) in &t[1..] {
                z += *c * plant[*v as usize];
            }
            if rnd(4) == 0 {
                z += F::from(2).pow_vartime([base + rnd(4)]);
            }
            t[0].1 = -z;
            if z == F::ZERO {
                t.remove(0);
            }
            cons.push(Con { a: Lin { t: vec![] }, b: Lin { t: vec![] }, c: Lin { t } });
        }
        let mut want: BTreeSet<Vec<String>> = BTreeSet::new();
        for m in 0..1u32 << (n - 1) {
            let v: Vec<Option<F>> = (0..n)
                .map(|i| Some(if i == 0 { F::ONE } else if m >> (i - 1) & 1 == 0 { F::ZERO } else { -cons[i - 1].b.t[0].1 }))
                .collect();
            if first_unsat(&cons, &v).is_none() {
                want.insert(v.iter().map(|x| x.unwrap().nat().to_string()).collect());
            }
        }
        let sys = Sys::new(&cons, n);
        let mut s = Search::new(&sys);
        let mut got = BTreeSet::new();
        s.run(&[], &mut |l| {
            let free: Vec<usize> = (1..n).filter(|i| l[*i].is_none()).collect();
            for m in 0..1u32 << free.len() {
                let mut v = l.clone();
                for (j, i) in free.iter().enumerate() {
                    v[*i] = Some(if m >> j & 1 == 0 { F::ZERO } else { -cons[*i - 1].b.t[0].1 });
                }
                if first_unsat(&cons, &v).is_none() {
                    got.insert(v.iter().map(|x| x.unwrap().nat().to_string()).collect());
                }
            }
            true
        });
        if got != want {
            panic!("HARNESS: explorer differs from brute force over {}: {:?}: {} vs {}", F::name(), cons, got.len(), want.len());
        }
    }
}

pub fn run() {
    fam_bits::<Pallas>(20000);
    fam_bits::<Fp<1021>>(3000);
    fam_bits::<Fp<65537>>(3000);
    fam::<3>(3000);
    fam::<5>(3000);
    fam::<7>(3000);
    fam::<11>(1500);
    fam::<17>(500);
    println!("selftest ok");
}
/// run before every check: a few hundred systems
pub fn quick() {
    fam_bits::<Pallas>(300);
    fam::<3>(150);
    fam::<7>(150);
    fam::<11>(40);
}
