//! C27 the circuit does not depend on the witness, C28 numbers made public
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeFieldBits;
use harness::*;
use nova_snark::traits::circuit::StepCircuit;
use num_bigint::BigInt;
use num_traits::Zero;
use validate_btc_header::btc_validation::difficulty_update::*;
use validate_btc_header::btc_validation::header_step::BlockHeader;
use validate_btc_header::btc_validation::median::*;
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::gadget::Gadget;

// ---------------------------------------------------------------- C27
/// what of a run must not depend on the values
#[derive(PartialEq)]
struct Shape<F: XField> {
    vars: usize,
    inputs: Vec<u32>,
    cons: Vec<Con<F>>,
    outs: Vec<Lin<F>>,
}
impl<F: XField> Shape<F> {
    fn of(rec: &Rec<F>, outs: Vec<Lin<F>>) -> Self {
        Shape { vars: rec.vals.len(), inputs: rec.inputs.clone(), cons: rec.cons.clone(), outs }
    }
    fn differs(&self, o: &Shape<F>) -> Option<String> {
        if self == o {
            return None;
        }
        let mut d = vec![];
        if self.vars != o.vars {
            d.push(format!("{} variables instead of {}", o.vars, self.vars));
        }
        if self.inputs != o.inputs {
            d.push(format!("public inputs {:?} instead of {:?}", o.inputs, self.inputs));
        }
        if self.cons.len() != o.cons.len() {
            d.push(format!("{} constraints instead of {}", o.cons.len(), self.cons.len()));
        }
        if let Some(i) = self.cons.iter().zip(&o.cons).position(|(a, b)| a != b) {
            d.push(format!("constraint {} is another", i));
        }
        if self.outs != o.outs {
            d.push("the outputs are other variables".into());
        }
        Some(d.join(", "))
    }
}
/// Synthesize `c` on a system that computes witnesses (or not), with inputs (or not)
fn shape<F: XField>(c: &dyn DynCircuit<F>, prover: bool, w: Option<&[F]>) -> Out<Shape<F>> {
    let mut rec = Rec::<F>::mk(prover, false);
    NO_WITNESS.set(!prover);
    let r = c.rec(&mut rec, w);
    NO_WITNESS.set(false);
    match r {
        Out::Ok(ws) => {
            let outs = ws.iter().map(|w| rec.lin(&w.lc)).collect();
            Out::Ok(Shape::of(&rec, outs))
        }
        Out::Err(e) => Out::Err(e),
        Out::Panic(e) => Out::Panic(e),
    }
}
/// Parameters are made without values; a proof with any of the `inputs` must fit them.
fn constant<F: XField>(ctx: &Ctx, key: &str, c: &dyn DynCircuit<F>, inputs: &[Vec<F>]) {
    let mut loc = Local::default();
    let base = match shape(c, false, None) {
        Out::Ok(s) => s,
        o => {
            ctx.eval("parameters-fail");
            ctx.fail(&format!("{}/parameters", key), || format!("{} {}: no parameters can be generated: {}", F::name(), key, o.why()));
            return;
        }
    };
    loc.eval("parameters");
    let mut proved = 0u64;
    for w in inputs {
        for prover in [true, false] {
            loc.st.states += 1;
            loc.st.transitions += 1;
            match shape(c, prover, Some(w)) {
                Out::Ok(s) => {
                    loc.eval(if prover { "proved" } else { "parameters" });
                    proved += prover as u64;
                    loc.validated += 1;
                    if let Some(d) = base.differs(&s) {
                        let ws: Vec<String> = w.iter().map(|x| x.nat().to_string()).collect();
                        let how = if prover { "a proof" } else { "parameter generation given values" };
                        ctx.fail(&format!("{}/in={}/{}", key, ws.join(","), if prover { "proof" } else { "values" }), || {
                            format!("field {} gadget {} inputs {}: {} has another circuit than parameter generation without values: {}", F::name(), key, showf(w), how, d)
                        });
                    }
                }
                // whether an input is refused is other properties' business
                _ => loc.eval(if prover { "refused" } else { "parameters-refused" }),
            }
        }
    }
    if proved == 0 && !inputs.is_empty() {
        ctx.fail(&format!("{}/none", key), || format!("{} {}: no input can be proved", F::name(), key));
    }
    ctx.sample(&key.split('/').take(2).collect::<Vec<_>>().join("/"), || {
        format!("{} variables, {} constraints, {} inputs compared", base.vars, base.cons.len(), inputs.len())
    });
    ctx.merge(loc);
}
fn grid<T: Clone>(axes: &[Vec<T>], limit: usize) -> Vec<Vec<T>> {
    let total: usize = axes.iter().map(|a| a.len()).product();
    let step = (total / limit.max(1)).max(1);
    // an odd stride visits every residue of every axis
    let step = if step > 1 && step % 2 == 0 { step + 1 } else { step };
    (0..total)
        .step_by(step)
        .map(|mut k| {
            axes.iter()
                .map(|a| {
                    let x = a[k % a.len()].clone();
                    k /= a.len();
                    x
                })
                .collect()
        })
        .collect()
}
fn gad_job<F: XField>(jobs: &mut Jobs, op: Op, bits: usize, ins: Vec<Spec>, limit: usize) {
    let key = format!("{:?}/{}/{}/{}", op, F::name(), bits, ins.iter().map(|s| s.tag()).collect::<Vec<_>>().join("/"));
    jobs.add(key, move |ctx, k| {
        let g = Gad { op, bits, ins: ins.clone() };
        let mut axes = vec![vec![F::ZERO, F::ONE]; bits];
        for s in &ins {
            let c: Vec<F> = corners::<F>(s.lw, &s.max_word()).iter().map(F::from_nat).collect();
            axes.extend(vec![c; s.n]);
        }
        let mut inputs: Vec<Vec<F>> = grid(&axes, limit);
        inputs.retain(|w| {
            let mut at = bits;
            ins.iter().all(|s| {
                at += s.n;
                s.admits(&w[at - s.n..at].iter().map(|x| x.nat()).collect::<Vec<_>>())
            })
        });
        constant(ctx, k, &g, &inputs);
    });
}
fn gads<F: XField>(jobs: &mut Jobs, lw: usize, limit: usize) {
    let cap = F::CAPACITY as usize;
    let s = |n: usize| Spec::new(lw, n);
    let wide = |n: usize| Spec { lw, n, max: Some((pow2(lw) - 1) * 3), min_bits: 0 };
    // products of limbs, summed, and carried, must fit
    let roomy = |n: usize| 2 * lw + 4 + n + carry_width(&((pow2(2 * lw)) * (n + 1)), lw) <= cap;
    for n in 1..=3usize {
        for m in 1..=3usize {
            for op in [Op::Carried, Op::Regroup] {
                for (a, b) in [(s(n), s(m)), (wide(n), s(m)), (wide(n), wide(m))] {
                    if carriable::<F>(&a.max_word().max(b.max_word()), lw) {
                        gad_job::<F>(jobs, op, 0, vec![a, b], limit);
                    }
                }
            }
            for op in [Op::Mux, Op::Switch] {
                gad_job::<F>(jobs, op, 1, vec![s(n), s(m)], limit);
                gad_job::<F>(jobs, op, 1, vec![wide(n), s(m)], limit);
            }
            gad_job::<F>(jobs, Op::Min, 0, vec![s(n), s(m)], limit);
            gad_job::<F>(jobs, Op::Sub, 0, vec![s(n), s(m)], limit);
            gad_job::<F>(jobs, Op::PolySum, 0, vec![s(n), s(m)], limit);
            if roomy(n.max(m)) {
                gad_job::<F>(jobs, Op::Mult, 0, vec![s(n), s(m)], limit);
                gad_job::<F>(jobs, Op::PolyProduct, 0, vec![s(n), s(m)], limit);
                gad_job::<F>(jobs, Op::Divides, 0, vec![s(n), s(m)], limit);
                for b in [1, lw * (m - 1) + 1, lw * m] {
                    let md = s(m).at_least(b);
                    gad_job::<F>(jobs, Op::RedMod, 0, vec![s(n), md.clone()], limit);
                    gad_job::<F>(jobs, Op::MultMod, 0, vec![s(n), s(m), md.clone()], limit);
                    gad_job::<F>(jobs, Op::ProductMod, 0, vec![s(n), s(m), md, s(m)], limit);
                }
            }
        }
        for op in [Op::Equal, Op::AssertEqual, Op::IsEqual] {
            gad_job::<F>(jobs, op, 0, vec![s(n), s(n)], limit);
        }
        for g in [1, 2, lw, lw + 1] {
            if lw * n <= cap {
                gad_job::<F>(jobs, Op::Recompose(g), 0, vec![s(n)], limit);
            }
        }
        for b in [1, lw, lw * n] {
            gad_job::<F>(jobs, Op::MinBits(b), 0, vec![s(n)], limit);
        }
        gad_job::<F>(jobs, Op::FullBits, 0, vec![s(n)], limit);
        gad_job::<F>(jobs, Op::WellFormed, 0, vec![s(n)], limit);
        gad_job::<F>(jobs, Op::AsNums, 0, vec![s(n)], limit);
        gad_job::<F>(jobs, Op::Inputize, 0, vec![s(n), s(n)], limit);
    }
    for bits in 0..=2usize {
        gad_job::<F>(jobs, Op::Tree, bits, vec![s(2); 1 << bits], limit);
    }
}
fn num_jobs<F: XField>(jobs: &mut Jobs, limit: usize) {
    fn job<F: XField, C: Circuit<F> + Send + 'static>(jobs: &mut Jobs, name: String, n: usize, bits: usize, c: C, limit: usize) {
        jobs.add(format!("{}/{}", name, F::name()), move |ctx, k| {
            let mut axes = vec![small::<F>(5); n];
            axes.extend(vec![vec![F::ZERO, F::ONE]; bits]);
            constant(ctx, k, &c, &grid(&axes, limit));
        });
    }
    let cap = F::NUM_BITS as usize;
    for (f, form) in [Form::<F>::var(), Form::mixed()].into_iter().enumerate() {
        let n = form.coef.len();
        for b in (0..=cap.min(6)).chain([cap - 1, cap]) {
            job::<F, _>(jobs, format!("range/{}/{}", f, b), n, 0, Range { form: form.clone(), n: b }, limit);
            job::<F, _>(jobs, format!("decompose/{}/{}", f, b), n, 0, Decomp { form: form.clone(), n: b }, limit);
        }
        for op in [BOp::Id, BOp::Rev, BOp::Trunc(2), BOp::Shr(1), BOp::Shl(1), BOp::Rebuilt, BOp::PopPush, BOp::AppendFirst] {
            job::<F, _>(jobs, format!("is_equal/{}/{:?}", f, op), n, 3, Recomp { form: form.clone(), n: 3, op }, limit);
        }
        for what in 0..=5 {
            job::<F, _>(jobs, format!("single/{}/{}", f, what), n, 0, Single { form: form.clone(), what }, limit);
        }
    }
    for (lw, n) in [(1, 1), (1, 3), (2, 2)] {
        if lw * n < cap {
            job::<F, _>(jobs, format!("limbs/{}/{}", lw, n), n, 0, NatDecomp { lw, n }, limit);
            for form in 0..2 {
                job::<F, _>(jobs, format!("from_num/{}/{}/{}", form, lw, n), 1, 0, FromNum { lw, n, form }, limit);
            }
        }
    }
    job::<F, _>(jobs, "equals".into(), 2, 0, Equals, limit);
    for (op, bits, ins) in [
        (OwnOp::Mux, 1, vec![2, 2]),
        (OwnOp::Switch, 1, vec![2, 2]),
        (OwnOp::Tree, 2, vec![1; 4]),
        (OwnOp::AssertEqual, 0, vec![2, 2]),
        (OwnOp::AsNums, 0, vec![3]),
    ] {
        jobs.add(format!("own/{:?}/{}", op, F::name()), move |ctx, k| {
            let mut axes = vec![vec![F::ZERO, F::ONE]; bits];
            axes.extend(vec![small::<F>(5); ins.iter().sum()]);
            constant(ctx, k, &Own { op, bits, ins: ins.clone() }, &grid(&axes, limit));
        });
    }
}
fn step_jobs<F: XField>(jobs: &mut Jobs, limit: usize) {
    for n in [1usize, 2, 7, 8, 31, 32, 33, 126, 127, 128, 129, 224, 252] {
        if n + 2 > F::CAPACITY as usize {
            continue;
        }
        for op in [TOp::Lt(n), TOp::Leq(n), TOp::LtSelf(n), TOp::LeqSelf(n)] {
            jobs.add(format!("{:?}/{}", op, F::name()), move |ctx, k| {
                let g = TG { op };
                let mut v: Vec<BigInt> = vec![0.into(), 1.into(), pow2(n) - 1, pow2(n - 1), pow2(n - 1) - 1];
                v.retain(|x| *x < pow2(n));
                let axes = vec![v.iter().map(F::from_nat).collect(); Circuit::<F>::n_in(&g)];
                constant(ctx, k, &g, &grid(&axes, limit));
            });
        }
    }
    if F::CAPACITY < 34 {
        return;
    }
    for n in [1usize, 3, 5, 11] {
        jobs.add(format!("median/allocated/{}/{}", n, F::name()), move |ctx, k| {
            let g = TG { op: TOp::Median(n) };
            let v: Vec<F> = [0u64, 1, 1305200584, u32::MAX as u64].iter().map(|x| F::from(*x)).collect();
            constant(ctx, k, &g, &grid(&vec![v; n + 1], limit));
        });
        jobs.add(format!("median/{}/{}", n, F::name()), move |ctx, k| {
            let lists = grid(&vec![vec![0u32, 1, 1305200584, u32::MAX]; n + 1], limit);
            concrete::<F, _>(ctx, k, &lists, |rec: &mut Rec<F>, l: &[u32]| {
                let b = verify_median_timestamp(&mut *rec, &mut l[..n].to_vec(), l[n])?;
                Ok(vec![rec.lin(&b.lc(<Rec<F> as ConstraintSystem<F>>::one(), F::ONE))])
            });
        });
    }
    if F::CAPACITY < 240 {
        return;
    }
    jobs.add(format!("calculate/{}", F::name()), move |ctx, k| {
        let g = TG { op: TOp::Calc };
        let prev: Vec<F> = [BigInt::zero(), 1.into(), pow2(32), pow2(224) - 1, BigInt::from(0xffff) << 208usize].iter().map(F::from_nat).collect();
        let t: Vec<F> = [302401u64, 1209599, 1209600, 1209601, 4838399].iter().map(|x| F::from(*x)).collect();
        constant(ctx, k, &g, &grid(&[prev, t], limit));
    });
    jobs.add(format!("verify/{}", F::name()), move |ctx, k| {
        let hi = vec![0u128, 1, 0xffff << 80, (1 << 96) - 1];
        let lo = vec![0u128, 1, 1 << 64, u128::MAX];
        let t = vec![302400u128, 302401, 1209600, 4838399, 4838400, 0, u32::MAX as u128];
        let mut cases = grid(&[hi.clone(), lo.clone(), hi, lo, t], limit);
        // the right ones
        for (h, l, t) in [(0u128, 0u128, 1209600u128), (0, 1, 1209600), (0xffff << 80, 0, 1209600), (0, 1209600, 400000)] {
            let up = if t == 1209600 { l } else { l * t / 1209600 };
            cases.push(vec![h, up, h, l, t]);
        }
        concrete::<F, _>(ctx, k, &cases, |rec: &mut Rec<F>, c: &[u128]| {
            verify_difficulty_update::<F, _>(&mut *rec, c[0], c[1], c[2], c[3], c[4] as u32);
            Ok(vec![])
        });
    });
}
/// Circuits whose values are given as they are made
fn concrete<F: XField, T: std::fmt::Debug>(ctx: &Ctx, key: &str, cases: &[Vec<T>], f: impl Fn(&mut Rec<F>, &[T]) -> Result<Vec<Lin<F>>, SynthesisError>) {
    let mut base: Option<(Shape<F>, String)> = None;
    let mut loc = Local::default();
    for c in cases {
        for prover in [false, true] {
            let mut rec = Rec::<F>::mk(prover, false);
            loc.st.states += 1;
            loc.st.transitions += 1;
            let s = match guard(|| f(&mut rec, c)) {
                Out::Ok(o) => Shape::of(&rec, o),
                _ => {
                    loc.eval("refused");
                    continue;
                }
            };
            loc.eval(if prover { "proved" } else { "parameters" });
            loc.validated += 1;
            let name: String = format!("{:?}", c).replace(' ', "");
            match &base {
                None => base = Some((s, name)),
                Some((b, of)) => {
                    if let Some(d) = b.differs(&s) {
                        ctx.fail(&format!("{}/in={}/{}", key, name, prover), || format!("{} {}: the circuit of {} differs from that of {}: {}", F::name(), key, name, of, d));
                    }
                }
            }
        }
    }
    if base.is_none() {
        ctx.fail(&format!("{}/none", key), || "nothing can be proved".to_string());
    }
    ctx.merge(loc);
}
struct Step2<F: XField + PrimeFieldBits> {
    block: BlockHeader<F>,
}
impl<F: XField + PrimeFieldBits> Circuit<F> for Step2<F> {
    fn n_in(&self) -> usize {
        16
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let mut z = vec![];
        for i in 0..16 {
            z.push(AllocatedNum::alloc(cs.namespace(|| format!("z{}", i)), || w.map(|w| w[i]).ok_or_else(miss))?);
        }
        let o = self.block.synthesize(&mut cs.namespace(|| "step"), &z)?;
        Ok(o.into_iter().map(|n| wire(LinearCombination::zero() + n.get_variable(), n.get_value())).collect())
    }
}
fn headers() -> Vec<(String, [u64; 10])> {
    include_str!("../headers.txt")
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| {
            let mut it = l.split_whitespace();
            let (n, h) = (it.next().unwrap(), it.next().unwrap());
            let mut w = [0; 10];
            for i in 0..10 {
                w[i] = u64::from_str_radix(&h[16 * i..16 * i + 16], 16).unwrap();
            }
            (n.to_string(), w)
        })
        .collect()
}
fn header_jobs<F: XField + PrimeFieldBits>(ctx: &Ctx, every: usize) {
    let mut blocks: Vec<(String, BlockHeader<F>)> = vec![("default".into(), BlockHeader::default())];
    let mut words = headers();
    words.push(("zeros".into(), [0; 10]));
    words.push(("ones".into(), [u64::MAX; 10]));
    for (n, w) in words {
        blocks.push((n, BlockHeader::new_blocks(vec![w]).remove(0)));
    }
    let z0 = BlockHeader::<F>::initial_z_i_scalars();
    let mut states: Vec<(&str, Option<Vec<F>>)> = vec![("none", None), ("initial", Some(z0.clone())), ("zeros", Some(vec![F::ZERO; 16]))];
    let mut z = z0.clone();
    z[14] = F::ZERO;
    states.push(("first", Some(z.clone())));
    z[14] = F::from(2015);
    states.push(("last", Some(z.clone())));
    z.iter_mut().for_each(|x| *x = -F::ONE);
    states.push(("top", Some(z)));
    let first = Step2 { block: BlockHeader::default() };
    let base = match shape(&first, false, None) {
        Out::Ok(s) => s,
        o => {
            ctx.fail(&format!("step/{}/parameters", F::name()), || format!("no parameters can be generated: {}", o.why()));
            return;
        }
    };
    ctx.sample(&format!("step/{}", F::name()), || format!("{} variables, {} constraints", base.vars, base.cons.len()));
    let mut cases = vec![];
    for (i, (n, b)) in blocks.iter().enumerate() {
        for (j, (m, z)) in states.iter().enumerate() {
            for prover in [false, true] {
                if (i + j) % every == 0 && !(prover && z.is_none()) {
                    cases.push((format!("step/{}/{}/{}/{}", F::name(), n, m, if prover { "proof" } else { "parameters" }), b, z, prover));
                }
            }
        }
    }
    par_for(ctx, &cases, |c| c.0.clone(), |(key, b, z, prover)| {
        if ctx.skips(key) {
            return;
        }
        let c = Step2 { block: (*b).clone() };
        ctx.visited(1, 1);
        match shape(&c, *prover, z.as_deref()) {
            Out::Ok(s) => {
                ctx.eval(if *prover { "proved" } else { "parameters" });
                ctx.validated(1);
                if let Some(d) = base.differs(&s) {
                    ctx.fail(key, || format!("the circuit of {} differs from that of the default header without a state: {}", key, d));
                }
            }
            o => {
                ctx.eval(if *prover { "refused" } else { "parameters-refused" });
                // without a witness nothing can be refused
                if z.is_none() {
                    ctx.fail(key, || format!("no parameters can be generated: {}", o.why()));
                }
            }
        }
    });
}
fn c27(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    let lim = ctx.pick(60, 1200);
    gads::<Fp<257>>(&mut jobs, 1, lim);
    gads::<Fp<65537>>(&mut jobs, 3, lim);
    gads::<Fr>(&mut jobs, 64, lim);
    gads::<Pallas>(&mut jobs, 32, lim);
    gads::<Pallas>(&mut jobs, 7, lim);
    num_jobs::<Fp<17>>(&mut jobs, lim);
    num_jobs::<Fr>(&mut jobs, lim);
    num_jobs::<Pallas>(&mut jobs, lim);
    step_jobs::<Fp<65537>>(&mut jobs, lim);
    step_jobs::<Pallas>(&mut jobs, lim);
    step_jobs::<Vesta>(&mut jobs, lim);
    step_jobs::<Fr>(&mut jobs, lim);
    jobs.run(ctx);
    header_jobs::<Pallas>(ctx, 1);
    header_jobs::<Vesta>(ctx, ctx.pick(7, 1));
    header_jobs::<Bn>(ctx, ctx.pick(7, 1));
}

// ---------------------------------------------------------------- C28
#[derive(Clone, Copy, Debug, PartialEq)]
enum From {
    /// the limbs are variables
    Vars,
    /// they are combinations of variables
    Scaled,
    /// some are constants
    Padded,
    /// a type of the caller's own
    Elems,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Own,
    Trait,
    AsNums,
}
/// A number made public after `before` other public inputs
struct Public {
    from: From,
    how: How,
    lw: usize,
    n: usize,
    before: usize,
}
impl Public {
    /// the largest limb: what is scaled must fit
    fn top<F: XField>(&self) -> BigInt {
        if self.from == From::Scaled {
            pow2(F::CAPACITY as usize - 1)
        } else {
            F::modulus() - 1
        }
    }
}
impl<F: XField> Circuit<F> for Public {
    fn n_in(&self) -> usize {
        self.n
    }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError> {
        let max = Some(self.top::<F>());
        let mut vals: Option<Vec<F>> = w.map(|w| w.to_vec());
        let (num, elems) = if self.from == From::Elems {
            (None, Some(Elems::alloc(cs.namespace(|| "e"), vals.as_ref(), (), &self.n)?))
        } else {
            let x = BigNat::alloc_from_limbs(cs.namespace(|| "b"), || vals.clone().ok_or_else(miss), max, self.lw, self.n)?;
            let x = match self.from {
                From::Scaled => x.scale::<CS>(F::from(2)),
                From::Padded => x.with_n_limbs::<CS>(self.n + 1),
                _ => x,
            };
            (Some(x), None)
        };
        for i in 0..self.before {
            cs.alloc_input(|| format!("before{}", i), || Ok(F::from(i as u64)))?;
        }
        match self.from {
            From::Scaled => vals = vals.map(|v| v.iter().map(|x| x.double()).collect()),
            From::Padded => {
                if let Some(v) = &mut vals {
                    v.push(F::ZERO)
                }
            }
            _ => {}
        }
        let n = self.n + (self.from == From::Padded) as usize;
        let g = cs.namespace(|| "public");
        let nums = match (self.how, &num, &elems) {
            (How::Own, Some(x), _) => {
                x.inputize(g)?;
                None
            }
            (How::Own, _, Some(e)) | (How::Trait, _, Some(e)) => {
                e.inputize(g)?;
                None
            }
            (How::Trait, Some(x), _) => {
                Gadget::inputize(x, g)?;
                None
            }
            (How::AsNums, Some(x), _) => Some(x.as_nums(g)?),
            (How::AsNums, _, Some(e)) => Some(e.as_nums(g)?),
            _ => unreachable!(),
        };
        Ok((0..n)
            .map(|i| {
                let v = vals.as_ref().map(|v| v[i]);
                match &nums {
                    // by position among the public inputs, the value of the limb
                    None => wire(LinearCombination::zero() + Variable::new_unchecked(Index::Input(1 + self.before + i)), v),
                    Some(a) => wire(LinearCombination::zero() + a[i].get_variable(), a[i].get_value()),
                }
            })
            .collect())
    }
}
fn public_jobs<F: XField>(jobs: &mut Jobs, lw: usize, max_n: usize, k: usize) {
    for from in [From::Vars, From::Scaled, From::Padded, From::Elems] {
        for how in [How::Own, How::Trait, How::AsNums] {
            for before in 0..=2usize {
                for n in 1..=max_n {
                    let key = format!("{:?}/{:?}/{}/{}x{}/after={}", how, from, F::name(), n, lw, before);
                    jobs.add(key, move |ctx, key| {
                        let c = Public { from, how, lw, n, before };
                        let want = |w: &[F]| {
                            let mut v: Vec<F> = w.iter().map(|x| if from == From::Scaled { x.double() } else { *x }).collect();
                            if from == From::Padded {
                                v.push(F::ZERO);
                            }
                            outs(v)
                        };
                        let public = |rec: &Rec<F>| rec.inputs.len() == 1 + before + if how == How::AsNums { 0 } else { n + (from == From::Padded) as usize };
                        for w in [Some(vec![F::ONE; n]), None] {
                            match run(&c, w.as_deref(), false) {
                                Out::Ok(r) if public(&r.rec) => {}
                                Out::Ok(r) => ctx.fail(&format!("{}/count", key), || format!("{} limbs, {} public inputs of which {} before", n, r.rec.inputs.len() - 1, before)),
                                o => ctx.fail(&format!("{}/base", key), || format!("cannot synthesize: {}", o.why())),
                            }
                        }
                        let mut v = small::<F>(k);
                        v.push(F::from_nat(&c.top::<F>()));
                        v.retain(|x| x.nat() <= c.top::<F>());
                        over(ctx, key, &c, &vec![v; n], &want);
                    });
                }
            }
        }
    }
}
fn c28(ctx: &Ctx) {
    let mut jobs = Jobs::new();
    public_jobs::<Fp<5>>(&mut jobs, 1, ctx.pick(4, 5), 5);
    public_jobs::<Fp<17>>(&mut jobs, 2, 2, 17);
    public_jobs::<Fp<61>>(&mut jobs, 3, 1, 61);
    public_jobs::<Fr>(&mut jobs, 64, ctx.pick(3, 4), 5);
    public_jobs::<Pallas>(&mut jobs, 32, 2, 5);
    jobs.run(ctx);
}

fn main() {
    main_with(&[
        Check {
            id: "C27",
            level: "model_checking",
            rule: "each (gadget, field, shape, input): the circuit emitted with and without values, by a prover and for parameters, compared",
            assumptions: &[],
            f: c27,
        },
        Check {
            id: "C28",
            level: "model_checking",
            rule: "each (field, shape, limbs, public inputs before) under the honest prover and every prover",
            assumptions: &[],
            f: c28,
        },
    ])
}
