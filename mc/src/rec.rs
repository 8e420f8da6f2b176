//! A `ConstraintSystem` that records what the real gadgets emit: the variables (with the value
//! the honest prover computes, when there is one) and the rank-1 constraints.
use crate::tiny::XField;
use bellpepper_core::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Lin<F> {
    /// (variable id, coefficient), sorted by id, no zero coefficients, variable 0 is ONE
    pub t: Vec<(u32, F)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Con<F> {
    pub a: Lin<F>,
    pub b: Lin<F>,
    pub c: Lin<F>,
}

#[derive(Clone)]
pub struct Rec<F: XField> {
    /// run closures (honest prover) or not (parameter generation)
    pub witness: bool,
    /// id -> honest value
    pub vals: Vec<Option<F>>,
    pub inputs: Vec<u32>,
    pub aux: Vec<u32>,
    pub cons: Vec<Con<F>>,
    pub named: bool,
    pub ns: Vec<String>,
    pub names: Vec<String>,
    seen: HashMap<String, ()>,
    pub dup: Option<String>,
}

impl<F: XField> Rec<F> {
    pub fn prover() -> Self {
        Self::mk(true, false)
    }
    pub fn shape() -> Self {
        Self::mk(false, false)
    }
    pub fn mk(witness: bool, named: bool) -> Self {
        Rec {
            witness,
            vals: vec![Some(F::ONE)],
            inputs: vec![0],
            aux: vec![],
            cons: vec![],
            named,
            ns: vec![],
            names: vec!["ONE".into()],
            seen: HashMap::new(),
            dup: None,
        }
    }
    pub fn id(&self, v: Variable) -> u32 {
        match v.get_unchecked() {
            Index::Input(i) => self.inputs[i],
            Index::Aux(i) => self.aux[i],
        }
    }
    pub fn lin(&self, lc: &LinearCombination<F>) -> Lin<F> {
        let mut t: Vec<(u32, F)> = lc.iter().map(|(v, c)| (self.id(v), *c)).collect();
        t.sort_by_key(|x| x.0);
        let mut o: Vec<(u32, F)> = Vec::with_capacity(t.len());
        for (i, c) in t {
            match o.last_mut() {
                Some(l) if l.0 == i => l.1 += c,
                _ => o.push((i, c)),
            }
        }
        o.retain(|x| !x.1.is_zero_vartime());
        Lin { t: o }
    }
    /// Number of variables so far: use two marks to delimit what a call allocated.
    pub fn mark(&self) -> u32 {
        self.vals.len() as u32
    }
    pub fn eval(&self, l: &Lin<F>) -> Option<F> {
        eval(l, &self.vals)
    }
    pub fn satisfied(&self) -> bool {
        self.first_unsat().is_none()
    }
    pub fn first_unsat(&self) -> Option<usize> {
        first_unsat(&self.cons, &self.vals)
    }
    fn path(&mut self, this: String) -> String {
        let p = if self.ns.is_empty() { this } else { format!("{}/{}", self.ns.join("/"), this) };
        if self.seen.insert(p.clone(), ()).is_some() && self.dup.is_none() {
            self.dup = Some(p.clone());
        }
        p
    }
    fn add<G: FnOnce() -> Result<F, SynthesisError>>(&mut self, f: G) -> Result<u32, SynthesisError> {
        let id = self.vals.len() as u32;
        let v = if self.witness { Some(f()?) } else { None };
        self.vals.push(v);
        Ok(id)
    }
}

pub fn eval<F: XField>(l: &Lin<F>, vals: &[Option<F>]) -> Option<F> {
    let mut s = F::ZERO;
    for (i, c) in &l.t {
        s += vals[*i as usize]? * c;
    }
    Some(s)
}
pub fn first_unsat<F: XField>(cons: &[Con<F>], vals: &[Option<F>]) -> Option<usize> {
    for (i, c) in cons.iter().enumerate() {
        match (eval(&c.a, vals), eval(&c.b, vals), eval(&c.c, vals)) {
            (Some(a), Some(b), Some(c)) if a * b == c => {}
            _ => return Some(i),
        }
    }
    None
}

impl<F: XField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<G, A, AR>(&mut self, annotation: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let id = self.add(f)?;
        if self.named {
            let p = self.path(annotation().into());
            self.names.push(p);
        }
        self.aux.push(id);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<G, A, AR>(&mut self, annotation: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let id = self.add(f)?;
        if self.named {
            let p = self.path(annotation().into());
            self.names.push(p);
        }
        self.inputs.push(id);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        if self.named {
            self.path(annotation().into());
        }
        let z = LinearCombination::zero;
        let (a, b, c) = (a(z()), b(z()), c(z()));
        let con = Con { a: self.lin(&a), b: self.lin(&b), c: self.lin(&c) };
        self.cons.push(con);
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        if self.named {
            let n: String = name_fn().into();
            self.path(n.clone());
            self.ns.push(n);
        }
    }
    fn pop_namespace(&mut self) {
        if self.named {
            self.ns.pop();
        }
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}
