//! Gadgets as circuits with a fixed number of leading input variables, and the two questions asked
//! of them: what does the honest prover obtain, and what can any prover obtain.
use crate::common::*;
use crate::explore::*;
use crate::rec::*;
use crate::tiny::*;
use bellpepper_core::test_cs::TestConstraintSystem;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};

pub struct Wire<F: XField> {
    pub lc: LinearCombination<F>,
    pub val: Option<F>,
}
pub fn wire<F: XField>(lc: LinearCombination<F>, val: Option<F>) -> Wire<F> {
    Wire { lc, val }
}

pub trait Circuit<F: XField>: Sync {
    /// The first `n_in` variables allocated are the gadget's inputs.
    fn n_in(&self) -> usize;
    /// `w`: values of the inputs (None: synthesize without a witness).
    fn synth<CS: ConstraintSystem<F>>(&self, cs: CS, w: Option<&[F]>) -> Result<Vec<Wire<F>>, SynthesisError>;
}

pub struct Run<F: XField> {
    pub rec: Rec<F>,
    pub outs: Vec<(Lin<F>, Option<F>)>,
}
impl<F: XField> Run<F> {
    /// Does the value the gadget claims agree with its linear combination under the honest witness?
    pub fn outs_consistent(&self) -> bool {
        self.outs.iter().all(|(l, v)| self.rec.eval(l) == *v)
    }
}

/// The same, object-safe (keeps the explorer's code independent of the gadget).
pub trait DynCircuit<F: XField>: Sync {
    fn rec(&self, rec: &mut Rec<F>, w: Option<&[F]>) -> Out<Vec<Wire<F>>>;
    fn test(&self, t: &mut TestConstraintSystem<F>, w: &[F]) -> Out<()>;
}
impl<F: XField, C: Circuit<F>> DynCircuit<F> for C {
    fn rec(&self, rec: &mut Rec<F>, w: Option<&[F]>) -> Out<Vec<Wire<F>>> {
        guard(|| self.synth(rec, w))
    }
    fn test(&self, t: &mut TestConstraintSystem<F>, w: &[F]) -> Out<()> {
        guard(|| self.synth(t, Some(w)).map(|_| ()))
    }
}

pub fn run<F: XField>(c: &dyn DynCircuit<F>, w: Option<&[F]>, named: bool) -> Out<Run<F>> {
    let mut rec = Rec::<F>::mk(w.is_some(), named);
    let r = c.rec(&mut rec, w);
    match r {
        Out::Ok(ws) => {
            let outs = ws.into_iter().map(|w| (rec.lin(&w.lc), w.val)).collect();
            Out::Ok(Run { rec, outs })
        }
        Out::Err(e) => Out::Err(e),
        Out::Panic(e) => Out::Panic(e),
    }
}
/// run, reporting the satisfied-ness: Ok(run) only if constraints hold
pub fn accept<F: XField>(c: &dyn DynCircuit<F>, w: &[F]) -> Out<Run<F>> {
    match run(c, Some(w), false) {
        Out::Ok(r) => match r.rec.first_unsat() {
            None => Out::Ok(r),
            Some(i) => Out::Err(format!("constraint #{} of {} unsatisfied", i, r.rec.cons.len())),
        },
        o => o,
    }
}

pub fn pins<F: XField>(w: &[F]) -> Vec<(u32, F)> {
    w.iter().enumerate().map(|(i, x)| (i as u32 + 1, *x)).collect()
}

pub fn show<F: XField>(v: &[Option<F>]) -> String {
    let mut s: Vec<String> = v.iter().take(120).map(|x| x.map(|x| x.nat().to_string()).unwrap_or("*".into())).collect();
    if v.len() > 120 {
        s.push(format!("... ({} variables)", v.len()));
    }
    format!("[{}]", s.join(","))
}
pub fn showf<F: XField>(v: &[F]) -> String {
    format!("[{}]", v.iter().map(|x| x.nat().to_string()).collect::<Vec<_>>().join(","))
}

/// Replay assignments against bellpepper's own constraint system running the same gadget:
/// the recorded constraints and bellpepper must agree on each of them.
pub fn conform<F: XField>(ctx: &Ctx, key: &str, c: &dyn DynCircuit<F>, w: &[F], sols: &[Vec<F>]) {
    let rec = match run(c, Some(w), true) {
        Out::Ok(r) => r.rec,
        _ => return,
    };
    let mut t = TestConstraintSystem::<F>::new();
    match c.test(&mut t, w) {
        Out::Ok(_) => {}
        o => {
            ctx.fail(&format!("{}/testcs", key), || {
                format!("the gadget runs on the recorder but not on bellpepper's test system: {}", o.why())
            });
            return;
        }
    }
    if t.num_constraints() != rec.cons.len() {
        panic!("HARNESS: recorder and test system disagree on the constraint count ({})", key);
    }
    let mut n = 0;
    let honest: Vec<F> = rec.vals.iter().map(|v| v.unwrap()).collect();
    let mut check = |a: &[F], t: &mut TestConstraintSystem<F>| {
        for (i, nm) in rec.names.iter().enumerate().skip(1) {
            t.set(nm, a[i]);
        }
        let av: Vec<Option<F>> = a.iter().map(|x| Some(*x)).collect();
        let mine = first_unsat(&rec.cons, &av).is_none();
        if t.which_is_unsatisfied().is_none() != mine {
            panic!("HARNESS: recorder and bellpepper disagree on an assignment ({})", key);
        }
        n += 1;
    };
    check(&honest, &mut t);
    for s in sols {
        check(s, &mut t);
    }
    // single deviations of the honest assignment
    let nv = honest.len();
    for i in (1..nv).step_by((nv / 24).max(1)) {
        let mut a = honest.clone();
        a[i] += F::ONE;
        check(&a, &mut t);
    }
    ctx.validated(n);
}

/// What is required of a gadget on one input.
#[derive(Clone, Debug)]
pub enum Exp<F> {
    /// no prover may succeed, the honest one included
    Reject,
    /// the honest prover succeeds with these outputs, and no prover can obtain others
    /// (None: that output is unconstrained by the specification)
    Outs(Vec<Option<F>>),
    /// as Outs, but only what a prover can obtain is specified (the honest one may refuse)
    AtMost(Vec<Option<F>>),
    /// outside the gadget's contract
    Skip,
}
pub fn outs<F: Copy>(v: Vec<F>) -> Exp<F> {
    Exp::Outs(v.into_iter().map(Some).collect())
}

pub struct Judge<'a, F: XField> {
    pub ctx: &'a Ctx,
    pub key: String,
    pub circ: &'a dyn DynCircuit<F>,
    pub base: Run<F>,
    pub sys: Sys<F>,
    pub max_states: u64,
    pub loc: Local,
    /// assignments found by the search, kept for replay on bellpepper
    pub keep: Vec<(Vec<F>, Vec<F>)>,
    pub keep_max: usize,
}

impl<'a, F: XField> Judge<'a, F> {
    /// `base`: an input the gadget must handle; the circuit recorded there is *the* circuit.
    pub fn new(ctx: &'a Ctx, key: &str, circ: &'a dyn DynCircuit<F>, base: &[F]) -> Option<Self> {
        match run(circ, Some(base), false) {
            Out::Ok(r) => {
                // one extra variable per output, equal to it: the search then settles outputs that are
                // determined even where the variables behind them are not
                let mut cons = r.rec.cons.clone();
                let n = r.rec.vals.len();
                for (i, (l, _)) in r.outs.iter().enumerate() {
                    let mut t = l.t.clone();
                    t.push(((n + i) as u32, -F::ONE));
                    cons.push(Con { a: Lin { t: vec![] }, b: Lin { t: vec![] }, c: Lin { t } });
                }
                let sys = Sys::new(&cons, n + r.outs.len());
                Some(Judge {
                    ctx,
                    key: key.to_string(),
                    circ,
                    sys,
                    base: r,
                    max_states: 400_000,
                    loc: Local::default(),
                    keep: vec![],
                    keep_max: 2,
                })
            }
            o => {
                ctx.fail(&format!("{}/base", key), || format!("cannot synthesize on {}: {}", showf(base), o.why()));
                None
            }
        }
    }
    fn fail(&self, w: &[F], what: &str, desc: impl FnOnce() -> String) {
        let ws: Vec<String> = w.iter().map(|x| x.nat().to_string()).collect();
        self.ctx.fail(&format!("{}/in={}/{}", self.key, ws.join(","), what), || {
            format!("field {} gadget {} inputs {}: {}", F::name(), self.key, showf(w), desc())
        });
    }
    pub fn honest(&mut self, w: &[F], e: &Exp<F>) {
        let want = match e {
            Exp::Skip => return,
            Exp::Reject => None,
            Exp::Outs(o) => Some((o, true)),
            Exp::AtMost(o) => Some((o, false)),
        };
        let r = run(self.circ, Some(w), false);
        self.loc.st.states += 1;
        self.loc.st.transitions += 1;
        self.loc.validated += 1;
        match (r, want) {
            (Out::Ok(r), want) => {
                let sat = r.rec.vals.len() == self.base.rec.vals.len()
                    && first_unsat(&self.base.rec.cons, &r.rec.vals).is_none()
                    && r.rec.cons == self.base.rec.cons;
                match want {
                    None => {
                        self.loc.eval(if sat { "accepted" } else { "rejected" });
                        if sat {
                            self.fail(w, "accepted", || "the honest prover is accepted, though the claim is false".into());
                        }
                    }
                    Some((o, must)) => {
                        self.loc.eval(if sat { "accepted" } else { "rejected" });
                        if !sat && must {
                            self.fail(w, "refused", || {
                                format!(
                                    "the honest prover's own assignment does not satisfy the circuit (constraint #{:?}, circuit {})",
                                    r.rec.first_unsat(),
                                    if r.rec.cons == self.base.rec.cons { "as for other inputs" } else { "differs from that of other inputs" }
                                )
                            });
                        }
                        if sat {
                            if !r.outs_consistent() {
                                self.fail(w, "values", || {
                                    "a value the gadget reports differs from its linear combination under the witness".into()
                                });
                            }
                            let got: Vec<Option<F>> = r.outs.iter().map(|x| x.1).collect();
                            if got.len() != o.len() || got.iter().zip(o).any(|(g, x)| x.is_some() && g != x) {
                                self.fail(w, "output", || format!("outputs {} expected {}", show(&got), show(o)));
                            }
                        }
                    }
                }
            }
            (o, Some((_, true))) => {
                self.loc.eval("failed");
                self.fail(w, "refused", || format!("the honest prover cannot proceed: {}", o.why()));
            }
            _ => self.loc.eval("refused"),
        }
    }
    /// Explore everything a prover may assign for this input.
    pub fn attack(&mut self, w: &[F], e: &Exp<F>) {
        self.attack_with(w, &[], e)
    }
    /// The same where the prover aims at given outputs (index, value).
    pub fn attack_with(&mut self, w: &[F], aim: &[(usize, F)], e: &Exp<F>) {
        let want: Option<&Vec<Option<F>>> = match e {
            Exp::Skip => return,
            Exp::Reject => None,
            Exp::Outs(o) | Exp::AtMost(o) => Some(o),
        };
        let nv = self.base.rec.vals.len();
        let lins: Vec<Lin<F>> =
            (0..self.base.outs.len()).map(|i| Lin { t: vec![((nv + i) as u32, F::ONE)] }).collect();
        let mut s = Search::new(&self.sys);
        s.max_states = self.max_states;
        let mut bad: Option<Leaf<F>> = None;
        let mut first: Option<Leaf<F>> = None;
        let mut at = pins(w);
        at.extend(aim.iter().map(|(i, x)| ((nv + i) as u32, *x)));
        s.run(&at, &mut |leaf| {
            let ok = match want {
                None => false,
                Some(o) => {
                    lins.len() == o.len()
                        && lins.iter().zip(o).all(|(l, x)| x.is_none() || eval(l, leaf) == *x)
                }
            };
            if first.is_none() {
                first = Some(leaf.clone());
            }
            if !ok {
                bad = Some(leaf.clone());
            }
            ok
        });
        let st = s.stats.clone();
        if std::env::var("VERIF_SLOW").is_ok() && st.states > 200 {
            println!("slow: {} {} {:?} {:?}", self.key, showf(w), st, e);
        }
        self.loc.eval(if first.is_some() { "satisfiable" } else { "unsatisfiable" });
        self.loc.st.add(&st);
        if bad.is_some() && bad.as_ref().and_then(|b| concretize(&self.sys, b)).is_none() {
            // only believe it when a complete assignment checks out
            if !st.stuck && !crate::common::out_of_time() {
                panic!("HARNESS: no assignment for a solution of {} at {}", self.key, showf(w));
            }
            bad = None;
        }
        if let Some(b) = bad {
            let c = concretize(&self.sys, &b);
            let conc: Option<Vec<Option<F>>> = c.map(|v| v.into_iter().map(Some).collect());
            let got: Vec<Option<F>> = lins.iter().map(|l| eval(l, conc.as_ref().unwrap_or(&b))).collect();
            match want {
                None => self.fail(w, "forged", || {
                    format!("a prover can satisfy the circuit, though the claim is false: assignment {}", show(conc.as_ref().unwrap_or(&b)))
                }),
                Some(o) => self.fail(w, "unbound", || {
                    format!("a prover can obtain outputs {} where only {} is right: assignment {}", show(&got), show(o), show(conc.as_ref().unwrap_or(&b)))
                }),
            }
        } else if aim.is_empty() && matches!(e, Exp::Outs(_)) && first.is_none() && !st.capped && !st.stuck {
            // the honest assignment is a solution, if the gadget is complete
            if let Out::Ok(r) = run(self.circ, Some(w), false) {
                if r.rec.vals.len() == self.base.rec.vals.len() && first_unsat(&self.base.rec.cons, &r.rec.vals).is_none() {
                    panic!("HARNESS: the explorer lost the honest solution of {} at {}", self.key, showf(w));
                }
            }
        }
        if let (Some(l), true) = (first, self.keep.len() < self.keep_max) {
            if let Some(c) = concretize(&self.sys, &l) {
                self.keep.push((w.to_vec(), c[..nv].to_vec()));
            }
        }
    }
    pub fn both(&mut self, w: &[F], e: Exp<F>) {
        self.honest(w, &e);
        self.attack(w, &e);
    }
    /// Replay what the search found on bellpepper's own constraint system, flush the statistics.
    pub fn done(mut self) {
        let keep = std::mem::take(&mut self.keep);
        for (w, sol) in &keep {
            conform(self.ctx, &self.key, self.circ, w, std::slice::from_ref(sol));
        }
        if let Some((w, sol)) = keep.first() {
            let ws = w.clone();
            self.ctx.sample(&format!("{}", self.key.split('/').take(2).collect::<Vec<_>>().join("/")), || {
                format!("{} vars, {} constraints; inputs {}; a solution found: {}", sol.len(), self.base.rec.cons.len(), showf(&ws), showf(&sol[..sol.len().min(60)]))
            });
        }
        let l = std::mem::take(&mut self.loc);
        self.ctx.merge(l);
    }
}

pub struct Jobs {
    v: Vec<(String, Box<dyn Fn(&Ctx, &str) + Sync + Send>)>,
}
impl Jobs {
    pub fn new() -> Self {
        Jobs { v: vec![] }
    }
    pub fn add(&mut self, key: String, f: impl Fn(&Ctx, &str) + Sync + Send + 'static) {
        self.v.push((key, Box::new(f)));
    }
    pub fn run(self, ctx: &Ctx) {
        if let Ok(f) = std::env::var("VERIF_TIME") {
            let min: f64 = f.parse().unwrap_or(1.0);
            par_for(ctx, &self.v, |j| j.0.clone(), |j| {
                let t = std::time::Instant::now();
                (j.1)(ctx, &j.0);
                if t.elapsed().as_secs_f64() > min {
                    println!("  {:.1}s {}", t.elapsed().as_secs_f64(), j.0);
                }
            });
            return;
        }
        par_for(ctx, &self.v, |j| j.0.clone(), |j| (j.1)(ctx, &j.0));
    }
}

/// Instantiate the explorer here, once, for the fields every check uses.
pub fn instantiate() -> usize {
    fn one<F: XField>() -> usize {
        Judge::<F>::new as *const () as usize
            ^ Judge::<F>::both as *const () as usize
            ^ Judge::<F>::done as *const () as usize
            ^ conform::<F> as *const () as usize
            ^ accept::<F> as *const () as usize
    }
    one::<Fp<2>>()
        ^ one::<Fp<3>>()
        ^ one::<Fp<5>>()
        ^ one::<Fp<7>>()
        ^ one::<Fp<11>>()
        ^ one::<Fp<13>>()
        ^ one::<Fp<17>>()
        ^ one::<Fp<31>>()
        ^ one::<Fp<61>>()
        ^ one::<Fp<127>>()
        ^ one::<Fp<257>>()
        ^ one::<Fp<1021>>()
        ^ one::<Fp<65537>>()
        ^ one::<Pallas>()
        ^ one::<Vesta>()
        ^ one::<Bn>()
        ^ one::<Secp>()
}
