//! What the demonstrations share: run a gadget honestly, or let an arbitrary prover at it.
#![allow(dead_code)]
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
pub use mc::{Fp, Rec, XField};
use mc::{concretize, Con, Lin, Search, Sys};

pub type Outs<F> = Result<Vec<LinearCombination<F>>, SynthesisError>;

pub struct Made<F: XField> {
    pub rec: Rec<F>,
    pub outs: Vec<Lin<F>>,
}
/// Allocate `w` and build the gadget over it; `None` if the prover cannot go on.
pub fn make<F: XField>(w: &[F], g: &dyn Fn(&mut Rec<F>, &[AllocatedNum<F>]) -> Outs<F>) -> Option<Made<F>> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut rec = Rec::<F>::prover();
        let mut x = vec![];
        for (i, v) in w.iter().enumerate() {
            x.push(AllocatedNum::alloc(rec.namespace(|| format!("in {}", i)), || Ok(*v)).ok()?);
        }
        let o = g(&mut rec, &x).ok()?;
        let outs = o.iter().map(|l| rec.lin(l)).collect();
        Some(Made { rec, outs })
    }));
    let _ = std::panic::take_hook();
    r.ok().flatten()
}
/// The outputs an honest prover gets, if it is accepted.
pub fn honest<F: XField>(w: &[F], g: &dyn Fn(&mut Rec<F>, &[AllocatedNum<F>]) -> Outs<F>) -> Option<Vec<F>> {
    let m = make(w, g)?;
    if !m.rec.satisfied() {
        return None;
    }
    Some(m.outs.iter().map(|l| m.rec.eval(l).unwrap()).collect())
}
/// The circuit made for the input `base`: can a prover, whose input is `w`, satisfy it with outputs that are not `ok`?
pub fn forge<F: XField>(base: &[F], w: &[F], ok: &dyn Fn(&[F]) -> bool, g: &dyn Fn(&mut Rec<F>, &[AllocatedNum<F>]) -> Outs<F>) -> Option<Vec<F>> {
    let m = make(base, g).expect("the gadget handles its base input");
    let n = m.rec.vals.len();
    let mut cons = m.rec.cons.clone();
    for (i, l) in m.outs.iter().enumerate() {
        let mut t = l.t.clone();
        t.push(((n + i) as u32, -F::ONE));
        cons.push(Con { a: Lin { t: vec![] }, b: Lin { t: vec![] }, c: Lin { t } });
    }
    let sys = Sys::new(&cons, n + m.outs.len());
    let mut s = Search::new(&sys);
    let mut found = None;
    s.run(&mc::pins(w), &mut |leaf| {
        // values the circuit leaves open are tried at a few places
        let open: Vec<usize> = (n..leaf.len()).filter(|i| leaf[*i].is_none()).collect();
        let many = open.len();
        for (fill, last) in (0u64..4).flat_map(|f| (0..=2 * many).map(move |k| (f, k))) {
            let mut l = leaf.clone();
            for (k, i) in open.iter().enumerate() {
                // all of them, all but one, or the first few
                if if last <= many { k != last } else { k + many < last } {
                    l[*i] = Some(F::from(fill));
                }
            }
            if let Some(a) = concretize(&sys, &l) {
                if !ok(&a[n..]) {
                    // believe nothing but a complete assignment
                    let full: Vec<Option<F>> = a[..n].iter().map(|x| Some(*x)).collect();
                    assert!(mc::first_unsat(&m.rec.cons, &full).is_none());
                    found = Some(a[n..].to_vec());
                    return false;
                }
            }
        }
        true
    });
    found
}
pub fn lc<F: XField>(n: &AllocatedNum<F>) -> LinearCombination<F> {
    LinearCombination::zero() + n.get_variable()
}
pub fn nums<F: XField>(x: &[AllocatedNum<F>]) -> Vec<validate_btc_header::util::num::Num<F>> {
    x.iter().map(|x| validate_btc_header::util::num::Num::from(x.clone())).collect()
}
pub fn nat<F: XField>(x: &[AllocatedNum<F>], lw: usize) -> validate_btc_header::mp::bignat::BigNat<F> {
    validate_btc_header::mp::bignat::BigNat::from_limbs(nums(x), lw)
}
pub fn fs<F: XField>(v: &[u64]) -> Vec<F> {
    v.iter().map(|x| F::from(*x)).collect()
}
pub fn report(bad: bool, what: &str) -> ! {
    println!("{}: {}", if bad { "BROKEN" } else { "holds" }, what);
    std::process::exit(bad as i32)
}
