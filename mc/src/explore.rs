//! Explicit-state exploration of everything a (possibly malicious) prover can do.
//!
//! The transition system is emitted by the implementation: the variables and rank-1 constraints
//! recorded from a run of the real gadget.  A state is a partial assignment of the prover's
//! variables; a transition assigns one more variable.  The search is depth first and complete:
//! at a branching state every value of the chosen variable's domain is tried.  Forced moves
//! (variables whose value the remaining constraints determine) are taken without branching:
//!   * a constraint with one unknown left is solved for it;
//!   * a linear constraint over finite-domain unknowns is checked for values that no choice of
//!     the other unknowns can balance (integer interval reasoning, exact modulo p);
//!   * linear constraints over unknowns without a finite domain are eliminated exactly.
//! All three only remove assignments that violate a constraint, so the set of complete
//! assignments reached is exactly the solution set (`brute` below cross-checks this).
use crate::rec::{eval, Con, Lin};
use crate::tiny::XField;
use num_bigint::BigInt;
use std::sync::Arc as Rc;

#[derive(Clone)]
enum K<F> {
    Lin(Lin<F>),
    Quad(Lin<F>, Lin<F>, Lin<F>),
}

pub struct Sys<F: XField> {
    pub n: usize,
    cons: Vec<K<F>>,
    occ: Vec<Vec<u32>>,
    dom0: Vec<Option<Rc<Vec<F>>>>,
    /// sizes of the coefficients of the linear constraints
    size: Vec<Vec<(f32, u8)>>,
    orig: Vec<Con<F>>,
    orig_n: usize,
    infeasible: bool,
}

/// (constant, non-constant part)
fn split<F: XField>(l: &Lin<F>) -> (F, &[(u32, F)]) {
    if let Some((0, c)) = l.t.first() {
        (*c, &l.t[1..])
    } else {
        (F::ZERO, &l.t[..])
    }
}
/// r with x = r * y (as vectors), if there is one
fn prop<F: XField>(x: &[(u32, F)], y: &[(u32, F)]) -> Option<F> {
    if x.is_empty() {
        return Some(F::ZERO);
    }
    if x.len() != y.len() || x[0].0 != y[0].0 {
        return None;
    }
    let r = x[0].1 * y[0].1.invert().unwrap();
    for (a, b) in x.iter().zip(y) {
        if a.0 != b.0 || a.1 != r * b.1 {
            return None;
        }
    }
    Some(r)
}
/// Roots of q2 x^2 + q1 x + q0 (None: every x)
fn roots<F: XField>(q2: F, q1: F, q0: F) -> Option<Vec<F>> {
    if q2.is_zero_vartime() {
        if q1.is_zero_vartime() {
            return if q0.is_zero_vartime() { None } else { Some(vec![]) };
        }
        return Some(vec![-q0 * q1.invert().unwrap()]);
    }
    if let Some(p) = F::TINY {
        return Some((0..p).map(F::tiny).filter(|x| (q2 * x + q1) * x + q0 == F::ZERO).collect());
    }
    let disc = q1 * q1 - F::from(4) * q2 * q0;
    let s: Option<F> = disc.sqrt().into();
    Some(match s {
        None => vec![],
        Some(s) => {
            let i = (q2 + q2).invert().unwrap();
            let (r1, r2) = ((s - q1) * i, (-s - q1) * i);
            if r1 == r2 {
                vec![r1]
            } else {
                let mut v = vec![r1, r2];
                v.sort_by_key(|x| x.nat());
                v
            }
        }
    })
}

/// (k, u) += s (k2, u2)
fn axpy<F: XField>(k: &mut F, u: &mut Vec<(u32, F)>, s: F, k2: F, u2: &[(u32, F)]) {
    *k += s * k2;
    let mut o = Vec::with_capacity(u.len() + u2.len());
    let (mut i, mut j) = (0, 0);
    while i < u.len() || j < u2.len() {
        let a = u.get(i).map(|x| x.0).unwrap_or(u32::MAX);
        let b = u2.get(j).map(|x| x.0).unwrap_or(u32::MAX);
        let m = a.min(b);
        let mut v = F::ZERO;
        if a == m {
            v += u[i].1;
            i += 1;
        }
        if b == m {
            v += s * u2[j].1;
            j += 1;
        }
        if !v.is_zero_vartime() {
            o.push((m, v));
        }
    }
    *u = o;
}

/// bit lengths of the coefficients, as signed numbers
fn sizes<F: XField>(l: &Lin<F>) -> Vec<(f32, u8)> {
    let mut o: Vec<(f32, u8)> = l.t.iter().map(|t| (t.1.size() as f32, 0)).collect();
    // groups of many equal coefficients: what matters is the sum of those unknowns
    let mut cls = 0;
    for i in 1..o.len() {
        if o[i].1 != 0 || o.len() - i < 6 || cls == 3 {
            continue;
        }
        let (si, c) = (o[i].0, l.t[i].1);
        let same: Vec<usize> = (i..o.len()).filter(|j| o[*j].0 == si && (l.t[*j].1 == c || l.t[*j].1 == -c)).collect();
        if same.len() >= 6 {
            cls += 1;
            same.iter().for_each(|j| o[*j].1 = cls);
        }
    }
    o
}

impl<F: XField> Sys<F> {
    pub fn new(cons: &[Con<F>], n_vars: usize) -> Self {
        let mut s = Sys {
            n: n_vars,
            cons: vec![],
            occ: vec![],
            size: vec![],
            dom0: vec![None; n_vars],
            orig: cons.to_vec(),
            orig_n: n_vars,
            infeasible: false,
        };
        for c in cons {
            let (ka, va) = split(&c.a);
            let (kb, vb) = split(&c.b);
            let (kc, vc) = split(&c.c);
            if va.is_empty() || vb.is_empty() {
                // linear: k * other - c = 0
                let (k, o) = if va.is_empty() { (ka, &c.b) } else { (kb, &c.a) };
                let mut t: Vec<(u32, F)> = vec![];
                let (mut i, mut j) = (0, 0);
                while i < o.t.len() || j < c.c.t.len() {
                    let io = o.t.get(i).map(|x| x.0).unwrap_or(u32::MAX);
                    let jc = c.c.t.get(j).map(|x| x.0).unwrap_or(u32::MAX);
                    let m = io.min(jc);
                    let mut v = F::ZERO;
                    if io == m {
                        v += k * o.t[i].1;
                        i += 1;
                    }
                    if jc == m {
                        v -= c.c.t[j].1;
                        j += 1;
                    }
                    if !v.is_zero_vartime() {
                        t.push((m, v));
                    }
                }
                if t.iter().any(|x| x.0 != 0) {
                    s.cons.push(K::Lin(Lin { t }));
                } else if !t.is_empty() {
                    s.infeasible = true;
                }
                continue;
            }
            if let (Some(rb), Some(rc)) = (prop(vb, va), prop(vc, va)) {
                // (L + ka)(rb L + kb) = rc L + kc : a quadratic in the single form L
                let rt = roots(rb, kb + ka * rb - rc, ka * kb - kc);
                let rt = match rt {
                    None => continue,
                    Some(r) => r,
                };
                let (var, scale) = if va.len() == 1 {
                    (va[0].0, va[0].1)
                } else {
                    let t = s.n as u32;
                    s.n += 1;
                    s.dom0.push(None);
                    let mut l = va.to_vec();
                    l.push((t, -F::ONE));
                    s.cons.push(K::Lin(Lin { t: l }));
                    (t, F::ONE)
                };
                let inv = scale.invert().unwrap();
                let mut d: Vec<F> = rt.into_iter().map(|x| x * inv).collect();
                if let Some(old) = &s.dom0[var as usize] {
                    d.retain(|x| old.contains(x));
                }
                if d.is_empty() {
                    s.infeasible = true;
                }
                s.dom0[var as usize] = Some(Rc::new(d));
                continue;
            }
            s.cons.push(K::Quad(c.a.clone(), c.b.clone(), c.c.clone()));
        }
        s.occ = vec![vec![]; s.n];
        for (i, c) in s.cons.iter().enumerate() {
            let mut add = |l: &Lin<F>| {
                for (v, _) in &l.t {
                    let o = &mut s.occ[*v as usize];
                    if o.last() != Some(&(i as u32)) {
                        o.push(i as u32);
                    }
                }
            };
            match c {
                K::Lin(l) => add(l),
                K::Quad(a, b, c) => {
                    add(a);
                    add(b);
                    add(c);
                }
            }
        }
        s.imply();
        s.size = s
            .cons
            .iter()
            .map(|c| match c {
                K::Lin(l) => sizes(l),
                _ => vec![],
            })
            .collect();
        s
    }
    /// A variable that a constraint expresses in terms of a few variables with small domains has a
    /// small domain itself.
    fn imply(&mut self) {
        if self.infeasible {
            return;
        }
        let mut i = 0;
        let mut again: Vec<u32> = vec![];
        let mut first = true;
        loop {
            let ci = if first && i < self.cons.len() {
                i += 1;
                i - 1
            } else {
                first = false;
                match again.pop() {
                    None => return,
                    Some(c) => c as usize,
                }
            };
            let zero = Lin { t: vec![] };
            let (a, b, c) = match &self.cons[ci] {
                K::Quad(a, b, c) => (a, b, c),
                K::Lin(l) => (&zero, &zero, l),
            };
            if c.t.len() > 8 || a.t.len() > 4 || b.t.len() > 4 {
                continue;
            }
            let mut vars: Vec<u32> = a.t.iter().chain(&b.t).chain(&c.t).map(|t| t.0).filter(|v| *v != 0).collect();
            vars.sort();
            vars.dedup();
            let un: Vec<u32> = vars.iter().copied().filter(|v| self.dom0[*v as usize].is_none()).collect();
            if un.len() != 1 || a.t.iter().chain(&b.t).any(|t| t.0 == un[0]) {
                continue;
            }
            vars.retain(|v| *v != un[0]);
            let doms: Vec<Rc<Vec<F>>> = vars.iter().map(|v| self.dom0[*v as usize].clone().unwrap()).collect();
            if doms.iter().map(|d| d.len()).product::<usize>() > 16 {
                continue;
            }
            let inv = c.t.iter().find(|t| t.0 == un[0]).unwrap().1.invert().unwrap();
            let mut got: Vec<F> = vec![];
            let mut ix = vec![0usize; vars.len()];
            loop {
                let at = |l: &Lin<F>| -> F {
                    l.t.iter()
                        .map(|(v, k)| {
                            if *v == 0 {
                                *k
                            } else {
                                vars.iter().position(|x| x == v).map(|j| *k * doms[j][ix[j]]).unwrap_or(F::ZERO)
                            }
                        })
                        .fold(F::ZERO, |x, y| x + y)
                };
                let x = (at(a) * at(b) - at(c)) * inv;
                if !got.contains(&x) {
                    got.push(x);
                }
                let mut j = 0;
                while j < ix.len() {
                    ix[j] += 1;
                    if ix[j] < doms[j].len() {
                        break;
                    }
                    ix[j] = 0;
                    j += 1;
                }
                if j == ix.len() {
                    break;
                }
            }
            if got.len() <= 4 {
                self.dom0[un[0] as usize] = Some(Rc::new(got));
                again.extend(self.occ[un[0] as usize].iter());
            }
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub leaves: u64,
    pub capped: bool,
    pub stuck: bool,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.leaves += o.leaves;
        self.capped |= o.capped;
        self.stuck |= o.stuck;
    }
}

struct Conflict;

pub struct Search<'a, F: XField> {
    sys: &'a Sys<F>,
    val: Vec<Option<F>>,
    dom: Vec<Option<Rc<Vec<F>>>>,
    trail_v: Vec<u32>,
    trail_d: Vec<(u32, Option<Rc<Vec<F>>>)>,
    queue: Vec<u32>,
    /// long linear constraints, looked at once the short ones have settled
    late: std::collections::VecDeque<u32>,
    inq: Vec<bool>,
    /// linear relations that elimination found at or above the current node
    extra: Vec<Lin<F>>,
    extra_occ: Vec<Vec<u32>>,
    extra_size: Vec<Vec<(f32, u8)>>,
    /// quadratic constraints that may yet become linear relations of unknowns without a domain
    open_quads: Rc<Vec<u32>>,
    eliminated: bool,
    pub stats: Stats,
    pub max_states: u64,
    /// Only the values of these matter: of what is independent of them, one solution will do.
    pub project: Option<Vec<u32>>,
    /// stop when the check runs out of time
    pub hurry: bool,
    since: Option<std::time::Instant>,
    p: BigInt,
}

enum Res<F> {
    Zero,
    Lin(F, Vec<(u32, F)>),
}

/// outcome of a leaf: complete assignment of the original variables, `None` where the variable
/// may still take any value (of an affine family) without violating anything
pub type Leaf<F> = Vec<Option<F>>;

impl<'a, F: XField> Search<'a, F> {
    pub fn new(sys: &'a Sys<F>) -> Self {
        Search {
            sys,
            val: vec![None; sys.n],
            dom: sys.dom0.clone(),
            trail_v: vec![],
            trail_d: vec![],
            queue: vec![],
            late: Default::default(),
            inq: vec![false; sys.cons.len()],
            extra: vec![],
            extra_occ: vec![vec![]; sys.n],
            extra_size: vec![],
            open_quads: Rc::new(vec![]),
            eliminated: false,
            stats: Stats::default(),
            max_states: 5_000_000,
            project: None,
            hurry: true,
            since: None,
            p: F::modulus(),
        }
    }

    /// Enumerate all solutions extending `pins`; `f` gets each leaf and says whether to go on.
    pub fn run(&mut self, pins: &[(u32, F)], f: &mut dyn FnMut(&Leaf<F>) -> bool) {
        if self.start(pins).is_err() {
            return;
        }
        self.dfs(None, f);
    }
    /// Unknowns that no unsettled constraint connects to any of the unknowns asked for, by component.
    fn apart(&self, scope: Option<&Vec<bool>>) -> Vec<Vec<u32>> {
        let n = self.sys.n;
        let mut up: Vec<u32> = (0..n as u32).collect();
        fn root(up: &mut [u32], mut v: u32) -> u32 {
            while up[v as usize] != v {
                up[v as usize] = up[up[v as usize] as usize];
                v = up[v as usize];
            }
            v
        }
        let mut touched = vec![false; n];
        for ci in 0..self.sys.cons.len() {
            let mut first: Option<u32> = None;
            let mut join = |v: u32| {
                if self.val[v as usize].is_none() {
                    touched[v as usize] = true;
                    match first {
                        None => first = Some(root(&mut up, v)),
                        Some(r) => {
                            let x = root(&mut up, v);
                            up[x as usize] = r;
                        }
                    }
                }
            };
            match self.lin_residual(ci) {
                Some(Res::Zero) => {}
                Some(Res::Lin(_, u)) => u.iter().for_each(|t| join(t.0)),
                None => {
                    if let K::Quad(a, b, c) = &self.sys.cons[ci] {
                        a.t.iter().chain(&b.t).chain(&c.t).for_each(|t| join(t.0));
                    }
                }
            }
        }
        let mut wanted = vec![false; n];
        for v in self.project.as_ref().unwrap() {
            if self.val[*v as usize].is_none() {
                wanted[root(&mut up, *v) as usize] = true;
            }
        }
        let mut comps: std::collections::BTreeMap<u32, Vec<u32>> = Default::default();
        for v in 0..n as u32 {
            if touched[v as usize] && scope.map(|s| s[v as usize]).unwrap_or(true) {
                let r = root(&mut up, v);
                if !wanted[r as usize] {
                    comps.entry(r).or_default().push(v);
                }
            }
        }
        comps.into_values().collect()
    }
    /// One solution of each component that does not matter; nothing else of it is looked at.
    fn settle_apart(&mut self) -> Result<(), Conflict> {
        for comp in self.apart(None) {
            let mut scope = vec![false; self.sys.n];
            comp.iter().for_each(|v| scope[*v as usize] = true);
            let mut got: Option<Vec<(u32, F)>> = None;
            let (tv, td, ne) = (self.trail_v.len(), self.trail_d.len(), self.extra.len());
            let quads = self.open_quads.clone();
            let (project, stuck) = (self.project.take(), self.stats.stuck);
            let f = &mut |l: &Leaf<F>| {
                got = Some(comp.iter().filter_map(|v| l[*v as usize].map(|x| (*v, x))).collect());
                false
            };
            self.dfs(Some(&scope), f);
            self.project = project;
            self.clear_queue();
            self.undo(tv, td);
            self.drop_extra(ne);
            self.open_quads = quads;
            if self.stats.capped {
                return Ok(());
            }
            match got {
                None => return Err(Conflict),
                Some(g) => {
                    self.stats.stuck = stuck;
                    for (v, x) in g {
                        self.assign(v, x)?;
                    }
                    self.settle()?;
                }
            }
        }
        Ok(())
    }
    fn start(&mut self, pins: &[(u32, F)]) -> Result<(), Conflict> {
        self.val.iter_mut().for_each(|v| *v = None);
        self.dom = self.sys.dom0.clone();
        self.trail_v.clear();
        self.trail_d.clear();
        self.clear_queue();
        self.drop_extra(0);
        self.eliminated = false;
        self.open_quads = Rc::new(vec![]);
        self.stats.states += 1;
        if self.sys.infeasible {
            return Err(Conflict);
        }
        for i in 0..self.sys.cons.len() {
            self.enqueue(i as u32);
        }
        if self.assign(0, F::ONE).is_err() {
            return Err(Conflict);
        }
        for (v, x) in pins {
            if self.assign(*v, *x).is_err() {
                return Err(Conflict);
            }
        }
        // singleton domains
        for v in 0..self.sys.n {
            if let Some(d) = &self.dom[v] {
                if d.len() == 1 {
                    let x = d[0];
                    if self.assign(v as u32, x).is_err() {
                        return Err(Conflict);
                    }
                }
            }
        }
        Ok(())
    }

    fn drop_extra(&mut self, to: usize) {
        while self.extra.len() > to {
            let l = self.extra.pop().unwrap();
            self.inq.pop();
            self.extra_size.pop();
            for (v, _) in &l.t {
                self.extra_occ[*v as usize].pop();
            }
        }
    }
    fn add_extra(&mut self, l: Lin<F>) {
        let c = (self.sys.cons.len() + self.extra.len()) as u32;
        for (v, _) in &l.t {
            self.extra_occ[*v as usize].push(c);
        }
        self.extra_size.push(sizes(&l));
        self.extra.push(l);
        self.inq.push(false);
        self.enqueue(c);
    }
    fn clear_queue(&mut self) {
        for q in self.queue.drain(..).chain(self.late.drain(..)) {
            self.inq[q as usize] = false;
        }
    }
    fn enqueue(&mut self, c: u32) {
        if !self.inq[c as usize] {
            self.inq[c as usize] = true;
            let n = self.sys.cons.len();
            if c as usize >= n {
                self.late.push_back(c);
                return;
            }
            match &self.sys.cons[c as usize] {
                K::Lin(l) if l.t.len() > 12 => self.late.push_back(c),
                _ => self.queue.push(c),
            }
        }
    }
    fn assign(&mut self, v: u32, x: F) -> Result<(), Conflict> {
        match self.val[v as usize] {
            Some(y) => {
                return if y == x { Ok(()) } else { Err(Conflict) };
            }
            None => {}
        }
        if let Some(d) = &self.dom[v as usize] {
            if !d.contains(&x) {
                return Err(Conflict);
            }
        }
        self.val[v as usize] = Some(x);
        self.trail_v.push(v);
        self.stats.transitions += 1;
        self.wake(v);
        Ok(())
    }
    fn wake(&mut self, v: u32) {
        for i in 0..self.sys.occ[v as usize].len() {
            let c = self.sys.occ[v as usize][i];
            self.enqueue(c);
        }
        for i in 0..self.extra_occ[v as usize].len() {
            let c = self.extra_occ[v as usize][i];
            self.enqueue(c);
        }
    }
    fn undo(&mut self, tv: usize, td: usize) {
        while self.trail_v.len() > tv {
            let v = self.trail_v.pop().unwrap();
            self.val[v as usize] = None;
        }
        while self.trail_d.len() > td {
            let (v, d) = self.trail_d.pop().unwrap();
            self.dom[v as usize] = d;
        }
    }
    fn residual(&self, l: &Lin<F>) -> (F, Vec<(u32, F)>) {
        let mut k = F::ZERO;
        let mut u = vec![];
        for (v, c) in &l.t {
            match self.val[*v as usize] {
                Some(x) => k += *c * x,
                None => u.push((*v, *c)),
            }
        }
        (k, u)
    }
    /// linear residual of constraint `ci`, or None if it is still properly quadratic
    fn lin_residual(&self, ci: usize) -> Option<Res<F>> {
        if ci >= self.sys.cons.len() {
            let (k, u) = self.residual(&self.extra[ci - self.sys.cons.len()]);
            return Some(if u.is_empty() && k.is_zero_vartime() { Res::Zero } else { Res::Lin(k, u) });
        }
        match &self.sys.cons[ci] {
            K::Lin(l) => {
                let (k, u) = self.residual(l);
                Some(if u.is_empty() && k.is_zero_vartime() { Res::Zero } else { Res::Lin(k, u) })
            }
            K::Quad(a, b, c) => {
                let (ka, ua) = self.residual(a);
                let (kb, ub) = self.residual(b);
                if !ua.is_empty() && !ub.is_empty() {
                    return None;
                }
                let (kc, uc) = self.residual(c);
                let (k, o, ko) = if ua.is_empty() { (ka, ub, kb) } else { (kb, ua, ka) };
                let mut t: Vec<(u32, F)> = vec![];
                if k.is_zero_vartime() {
                    for (v, x) in uc {
                        t.push((v, -x));
                    }
                } else {
                    let (mut i, mut j) = (0, 0);
                    while i < o.len() || j < uc.len() {
                        let io = o.get(i).map(|x| x.0).unwrap_or(u32::MAX);
                        let jc = uc.get(j).map(|x| x.0).unwrap_or(u32::MAX);
                        let m = io.min(jc);
                        let mut v = F::ZERO;
                        if io == m {
                            v += k * o[i].1;
                            i += 1;
                        }
                        if jc == m {
                            v -= uc[j].1;
                            j += 1;
                        }
                        if !v.is_zero_vartime() {
                            t.push((m, v));
                        }
                    }
                }
                let kk = k * ko - kc;
                Some(if t.is_empty() && kk.is_zero_vartime() { Res::Zero } else { Res::Lin(kk, t) })
            }
        }
    }

    fn propagate(&mut self) -> Result<(), Conflict> {
        while let Some(ci) = self.queue.pop().or_else(|| self.late.pop_front()) {
            self.inq[ci as usize] = false;
            if self.step(ci as usize).is_err() {
                self.clear_queue();
                return Err(Conflict);
            }
        }
        Ok(())
    }

    fn step(&mut self, ci: usize) -> Result<(), Conflict> {
        match self.lin_residual(ci) {
            Some(Res::Zero) => Ok(()),
            Some(Res::Lin(k, u)) => self.linear(k, u),
            None => {
                // single unknown overall?
                if let K::Quad(a, b, c) = &self.sys.cons[ci] {
                    let (ka, ua) = self.residual(a);
                    let (kb, ub) = self.residual(b);
                    if ua.len() == 1 && ub.len() == 1 && ua[0].0 == ub[0].0 {
                        let (kc, uc) = self.residual(c);
                        let x = ua[0].0;
                        if uc.len() <= 1 && uc.iter().all(|t| t.0 == x) {
                            let (a1, b1) = (ua[0].1, ub[0].1);
                            let c1 = uc.first().map(|t| t.1).unwrap_or(F::ZERO);
                            match roots(a1 * b1, a1 * kb + b1 * ka - c1, ka * kb - kc) {
                                None => {}
                                Some(r) => self.restrict(x, r)?,
                            }
                        }
                    }
                }
                Ok(())
            }
        }
    }
    fn restrict(&mut self, x: u32, mut r: Vec<F>) -> Result<(), Conflict> {
        if let Some(d) = &self.dom[x as usize] {
            r.retain(|v| d.contains(v));
            if r.len() == d.len() {
                return Ok(());
            }
        }
        match r.len() {
            0 => Err(Conflict),
            1 => self.assign(x, r[0]),
            _ => {
                let old = self.dom[x as usize].replace(Rc::new(r));
                self.trail_d.push((x, old));
                self.wake(x);
                Ok(())
            }
        }
    }

    fn linear(&mut self, k: F, u: Vec<(u32, F)>) -> Result<(), Conflict> {
        match u.len() {
            0 => {
                if k.is_zero_vartime() {
                    Ok(())
                } else {
                    Err(Conflict)
                }
            }
            1 => self.assign(u[0].0, -k * u[0].1.invert().unwrap()),
            _ => {
                if u.iter().any(|t| self.dom[t.0 as usize].is_none()) {
                    return Ok(());
                }
                self.bounds(k, u)
            }
        }
    }

    /// All unknowns have finite domains: drop values that cannot be balanced.
    fn bounds(&mut self, k: F, u: Vec<(u32, F)>) -> Result<(), Conflict> {
        // Fast path: everything small.
        let mut small: Vec<(u32, Vec<(i64, F)>)> = vec![];
        let mut ok = true;
        let ks = k.small_signed();
        let mut tot: i128 = 0;
        if let Some(kk) = ks {
            tot += (kk as i128).abs();
            'o: for (v, c) in &u {
                let mut d = vec![];
                let mut mx = 0i128;
                for x in self.dom[*v as usize].as_ref().unwrap().iter() {
                    match (*c * x).small_signed() {
                        Some(s) => {
                            mx = mx.max((s as i128).abs());
                            d.push((s, *x));
                        }
                        None => {
                            ok = false;
                            break 'o;
                        }
                    }
                }
                tot += mx;
                small.push((*v, d));
            }
        } else {
            ok = false;
        }
        if ok && tot < (1i128 << 62) {
            let p: Option<i64> = if F::P != 0 { Some(F::P as i64) } else { None };
            return self.bounds_small(ks.unwrap(), small, p);
        }
        let p = self.p.clone();
        let half = &p / 2;
        let sg = |x: F| {
            let n = x.nat();
            if n > half {
                n - &p
            } else {
                n
            }
        };
        let kk = sg(k);
        let mut vs: Vec<(u32, Vec<(BigInt, F)>)> = u
            .iter()
            .map(|(v, c)| (*v, self.dom[*v as usize].as_ref().unwrap().iter().map(|x| (sg(*c * x), *x)).collect()))
            .collect();
        loop {
            let mn: Vec<BigInt> = vs.iter().map(|x| x.1.iter().map(|y| &y.0).min().unwrap().clone()).collect();
            let mx: Vec<BigInt> = vs.iter().map(|x| x.1.iter().map(|y| &y.0).max().unwrap().clone()).collect();
            let lo: BigInt = mn.iter().sum::<BigInt>() + &kk;
            let hi: BigInt = mx.iter().sum::<BigInt>() + &kk;
            let q = num_integer::Integer::div_ceil(&lo, &p);
            let t = &q * &p;
            if t > hi {
                return Err(Conflict);
            }
            if &t + &p <= hi {
                return Ok(());
            }
            self.split(&mut vs, &kk, &t)?;
            let mut changed = false;
            for i in 0..vs.len() {
                if vs[i].1.len() < 2 {
                    continue;
                }
                let rl = &lo - &mn[i];
                let rh = &hi - &mx[i];
                let before = vs[i].1.len();
                vs[i].1.retain(|y| &rl + &y.0 <= t && &rh + &y.0 >= t);
                if vs[i].1.is_empty() {
                    return Err(Conflict);
                }
                if vs[i].1.len() != before {
                    changed = true;
                    let d: Vec<F> = vs[i].1.iter().map(|y| y.1).collect();
                    let v = vs[i].0;
                    self.restrict(v, d)?;
                    break;
                }
            }
            if !changed {
                return Ok(());
            }
        }
    }
    /// The integer equation  kk + sum of the values = t.  Where the values of all but some unknowns
    /// are the same modulo 2^s whatever is chosen, the sum of the others is known modulo 2^s; if their
    /// range has one such number only, they satisfy an equation of their own.
    fn split(&mut self, vs: &mut [(u32, Vec<(BigInt, F)>)], kk: &BigInt, t: &BigInt) -> Result<(), Conflict> {
        if vs.len() < 3 {
            return Ok(());
        }
        // 2-adic valuation of the differences between an unknown's values
        let val = |d: &Vec<(BigInt, F)>| -> u64 {
            d[1..].iter().filter_map(|y| (&y.0 - &d[0].0).trailing_zeros()).min().unwrap_or(u64::MAX)
        };
        let mut ord: Vec<(u64, usize)> = vs.iter().enumerate().map(|(i, v)| (val(&v.1), i)).collect();
        ord.sort();
        // the unknown with the lowest valuation alone decides the sum modulo the next one
        {
            let mut rest: BigInt = t - kk;
            for v in vs.iter() {
                rest -= &v.1[0].0;
            }
            for n in 0..ord.len() {
                let (v, i) = ord[n];
                if v == u64::MAX {
                    if rest != BigInt::from(0) {
                        return Err(Conflict);
                    }
                    return Ok(());
                }
                if rest.trailing_zeros().map(|z| z < v).unwrap_or(false) {
                    return Err(Conflict);
                }
                let nv = ord.get(n + 1).map(|o| o.0).unwrap_or(u64::MAX);
                if nv == v || nv == u64::MAX {
                    break;
                }
                let b = vs[i].1[0].0.clone();
                let before = vs[i].1.len();
                vs[i].1.retain(|y| (&rest - (&y.0 - &b)).trailing_zeros().map(|z| z >= nv).unwrap_or(true));
                if vs[i].1.is_empty() {
                    return Err(Conflict);
                }
                if vs[i].1.len() != before {
                    let d: Vec<F> = vs[i].1.iter().map(|y| y.1).collect();
                    let id = vs[i].0;
                    self.restrict(id, d)?;
                }
                if vs[i].1.len() > 1 {
                    break;
                }
                rest -= &vs[i].1[0].0 - b;
            }
        }
        let mut ord: Vec<(u64, usize)> = vs.iter().enumerate().map(|(i, v)| (val(&v.1), i)).collect();
        ord.sort();
        // rest: what the equation still asks of the unknowns from `start` on
        let mut rest: BigInt = t - kk;
        let mut start = 0;
        let base: Vec<BigInt> = vs.iter().map(|v| v.1[0].0.clone()).collect();
        for b in &base {
            rest -= b;
        }
        // offsets from the base: unknown i contributes d - base[i], a multiple of 2^val
        let lo: Vec<BigInt> = vs.iter().zip(&base).map(|(v, b)| v.1.iter().map(|y| &y.0).min().unwrap() - b).collect();
        let hi: Vec<BigInt> = vs.iter().zip(&base).map(|(v, b)| v.1.iter().map(|y| &y.0).max().unwrap() - b).collect();
        let (mut slo, mut shi) = (BigInt::from(0), BigInt::from(0));
        for n in 0..ord.len() {
            let (v, i) = ord[n];
            if n > start && ord[n - 1].0 != v {
                if v == u64::MAX {
                    break;
                }
                // the unknowns start..n sum to rest modulo 2^v
                let m = BigInt::from(1) << v;
                let mut x = num_integer::Integer::mod_floor(&(&rest - &slo), &m) + &slo;
                if x > shi {
                    return Err(Conflict);
                }
                if &x + &m > shi {
                    // one choice only
                    let part: Vec<usize> = ord[start..n].iter().map(|o| o.1).collect();
                    for &j in &part {
                        if vs[j].1.len() < 2 {
                            continue;
                        }
                        let (ol, oh) = (&slo - &lo[j], &shi - &hi[j]);
                        let before = vs[j].1.len();
                        let b = &base[j];
                        vs[j].1.retain(|y| &ol + (&y.0 - b) <= x && &oh + (&y.0 - b) >= x);
                        if vs[j].1.is_empty() {
                            return Err(Conflict);
                        }
                        if vs[j].1.len() != before {
                            let d: Vec<F> = vs[j].1.iter().map(|y| y.1).collect();
                            let id = vs[j].0;
                            self.restrict(id, d)?;
                            let (nl, nh) = (
                                vs[j].1.iter().map(|y| &y.0 - b).min().unwrap(),
                                vs[j].1.iter().map(|y| &y.0 - b).max().unwrap(),
                            );
                            slo = ol + nl;
                            shi = oh + nh;
                        }
                    }
                    rest -= &x;
                    x = BigInt::from(0);
                    slo = x.clone();
                    shi = x;
                    start = n;
                }
            }
            slo += &lo[i];
            shi += &hi[i];
        }
        Ok(())
    }
    fn bounds_small(&mut self, k: i64, mut vs: Vec<(u32, Vec<(i64, F)>)>, p: Option<i64>) -> Result<(), Conflict> {
        loop {
            let (mut lo, mut hi) = (k, k);
            let mm: Vec<(i64, i64)> = vs
                .iter()
                .map(|x| {
                    let mn = x.1.iter().map(|y| y.0).min().unwrap();
                    let mx = x.1.iter().map(|y| y.0).max().unwrap();
                    lo += mn;
                    hi += mx;
                    (mn, mx)
                })
                .collect();
            let t = match p {
                None => 0,
                Some(p) => num_integer::Integer::div_ceil(&lo, &p) * p,
            };
            if t > hi || t < lo {
                return Err(Conflict);
            }
            if let Some(p) = p {
                if t + p <= hi {
                    return Ok(());
                }
            }
            let mut changed = false;
            for i in 0..vs.len() {
                if vs[i].1.len() < 2 {
                    continue;
                }
                let rl = lo - mm[i].0;
                let rh = hi - mm[i].1;
                let before = vs[i].1.len();
                vs[i].1.retain(|y| rl + y.0 <= t && rh + y.0 >= t);
                if vs[i].1.is_empty() {
                    return Err(Conflict);
                }
                if vs[i].1.len() != before {
                    changed = true;
                    let d: Vec<F> = vs[i].1.iter().map(|y| y.1).collect();
                    let v = vs[i].0;
                    self.restrict(v, d)?;
                    break;
                }
            }
            if !changed {
                return Ok(());
            }
        }
    }

    /// Exact elimination of unknowns without a finite domain from the linear residuals.
    /// Ok(true): something new was learnt.
    ///
    /// The relations it finds between finite-domain unknowns stay in force below this node, and are
    /// all there are until a quadratic constraint becomes linear, so it runs again only then.
    fn gauss(&mut self) -> Result<bool, Conflict> {
        if self.eliminated {
            let mut again = false;
            for &q in self.open_quads.iter() {
                if let Some(Res::Lin(_, u)) = self.lin_residual(q as usize) {
                    if u.len() > 1 && u.iter().any(|t| self.dom[t.0 as usize].is_none()) {
                        again = true;
                        break;
                    }
                }
            }
            if !again {
                return Ok(false);
            }
        }
        let mut rows: Vec<(F, Vec<(u32, F)>)> = vec![];
        let mut quads = vec![];
        for ci in 0..self.sys.cons.len() {
            let r = self.lin_residual(ci);
            if r.is_none() {
                if let K::Quad(a, b, c) = &self.sys.cons[ci] {
                    if a.t.iter().chain(&b.t).chain(&c.t).any(|t| self.val[t.0 as usize].is_none() && self.dom[t.0 as usize].is_none()) {
                        quads.push(ci as u32);
                    }
                }
            }
            if let Some(Res::Lin(k, u)) = r {
                if u.is_empty() {
                    return Err(Conflict);
                }
                if u.iter().any(|t| self.dom[t.0 as usize].is_none()) {
                    rows.push((k, u));
                }
            }
        }
        self.open_quads = Rc::new(quads);
        self.eliminated = true;
        if rows.is_empty() {
            return Ok(false);
        }
        // the relations between most domain-less unknowns first: what defines a single one is then
        // substituted, which leaves relations as sparse as they can be
        rows.sort_by_key(|r| std::cmp::Reverse(r.1.iter().filter(|t| self.dom[t.0 as usize].is_none()).count()));
        // sparse elimination on domain-less columns
        let mut pivots: Vec<(u32, F, Vec<(u32, F)>)> = vec![];
        let mut pure: Vec<(F, Vec<(u32, F)>)> = vec![];
        for (mut k, mut u) in rows {
            for (pv, pk, pu) in &pivots {
                if let Ok(i) = u.binary_search_by_key(pv, |t| t.0) {
                    let s = -u[i].1;
                    axpy(&mut k, &mut u, s, *pk, pu);
                }
            }
            match u.iter().find(|t| self.dom[t.0 as usize].is_none()).copied() {
                None => {
                    if u.is_empty() {
                        if !k.is_zero_vartime() {
                            return Err(Conflict);
                        }
                    } else {
                        pure.push((k, u));
                    }
                }
                Some((pv, c)) => {
                    let inv = c.invert().unwrap();
                    k *= inv;
                    u.iter_mut().for_each(|t| t.1 *= inv);
                    for (_, pk, pu) in pivots.iter_mut() {
                        if let Ok(i) = pu.binary_search_by_key(&pv, |t| t.0) {
                            let s = -pu[i].1;
                            axpy(pk, pu, s, k, &u);
                        }
                    }
                    pivots.push((pv, k, u));
                }
            }
        }
        self.shrink(&mut pure);
        if F::P == 0 {
            self.cancel(&mut pure);
        }
        let before = self.trail_v.len() + self.trail_d.len();
        for (v, k, u) in pivots {
            if u.len() == 1 {
                self.assign(v, -k)?;
            } else if u.len() == 2 {
                // the shadow of an unknown with few values has as few itself
                let (w, c) = *u.iter().find(|t| t.0 != v).unwrap();
                let few = match (&self.dom[w as usize], self.val[w as usize]) {
                    (Some(d), None) if d.len() <= 4 => d.iter().map(|x| -k - c * x).collect::<Vec<F>>(),
                    _ => continue,
                };
                if self.val[v as usize].is_none() && self.dom[v as usize].is_none() {
                    self.restrict(v, few)?;
                    pure.push((k, u));
                }
            }
        }
        for (k, u) in pure {
            // values assigned meanwhile only make this weaker, never wrong
            let mut kk = k;
            let mut uu = vec![];
            for (v, c) in u {
                match self.val[v as usize] {
                    Some(x) => kk += c * x,
                    None => uu.push((v, c)),
                }
            }
            if uu.len() > 1 {
                let mut t = uu.clone();
                if !kk.is_zero_vartime() {
                    t.insert(0, (0, kk));
                }
                self.add_extra(Lin { t });
            }
            self.linear(kk, uu)?;
        }
        Ok(self.trail_v.len() + self.trail_d.len() > before)
    }

    /// Scale relations, and replace them by combinations with fewer or smaller coefficients, where one of the others,
    /// subtracted so that some unknown cancels, gives that.  The relations as a whole say the same.
    fn shrink(&self, rows: &mut Vec<(F, Vec<(u32, F)>)>) {
        let weight = |u: &Vec<(u32, F)>| -> u64 { u.iter().map(|t| 8 + t.1.size() as u64).sum() };
        // coefficients of more than 50 bits or so are what makes relations hard to reason about
        let heavy = |w: u64, n: usize| w > 60 * n as u64;
        let mut w: Vec<u64> = rows.iter().map(|r| weight(&r.1)).collect();
        for (r, w) in rows.iter_mut().zip(w.iter_mut()) {
            let n = r.1.len();
            if !heavy(*w, n) {
                continue;
            }
            let r0 = r.1.clone();
            let k0 = r.0;
            for c in [0, n / 4, n / 2, 3 * n / 4, n - 1] {
                let s = r0[c].1.invert().unwrap();
                let t: Vec<(u32, F)> = r0.iter().map(|x| (x.0, x.1 * s)).collect();
                let x = weight(&t);
                if x < *w {
                    *w = x;
                    *r = (k0 * s, t);
                }
            }
        }
        loop {
            let mut changed = false;
            for i in 0..rows.len() {
                for j in 0..rows.len() {
                    if i == j || rows[i].1.is_empty() || w[i] > w[j] || !heavy(w[j], rows[j].1.len()) {
                        continue;
                    }
                    let (ri, n) = (rows[i].clone(), rows[i].1.len());
                    // the ratio that most of a few unknowns agree on
                    let mut tried: Vec<F> = vec![];
                    for c in [0, n / 4, n / 2, 3 * n / 4, n - 1] {
                        let (v, x) = ri.1[c];
                        if let Ok(k) = rows[j].1.binary_search_by_key(&v, |t| t.0) {
                            let s = -rows[j].1[k].1 * x.invert().unwrap();
                            if tried.contains(&s) {
                                continue;
                            }
                            tried.push(s);
                            let mut rj = rows[j].clone();
                            axpy(&mut rj.0, &mut rj.1, s, ri.0, &ri.1);
                            let wj = weight(&rj.1);
                            if wj < w[j] {
                                rows[j] = rj;
                                w[j] = wj;
                                changed = true;
                                break;
                            }
                        }
                    }
                }
            }
            if !changed {
                return;
            }
        }
    }

    /// Add what follows from two relations by cancelling the many unknowns they share in one proportion
    /// (the bits of a carry, say): bounds often settle the sum, though neither of them.
    fn cancel(&self, rows: &mut Vec<(F, Vec<(u32, F)>)>) {
        let n = rows.len();
        for i in 0..n {
            for j in i + 1..n {
                let (mut a, mut b) = (0, 0);
                let (ri, rj) = (&rows[i].1, &rows[j].1);
                let mut both: Vec<(F, F)> = vec![];
                while a < ri.len() && b < rj.len() {
                    match ri[a].0.cmp(&rj[b].0) {
                        std::cmp::Ordering::Less => a += 1,
                        std::cmp::Ordering::Greater => b += 1,
                        _ => {
                            both.push((ri[a].1, rj[b].1));
                            a += 1;
                            b += 1;
                        }
                    }
                }
                if both.len() < 16 || both.len() == ri.len().min(rj.len()) {
                    continue;
                }
                // all in the proportion of the middle one
                let m = both[both.len() / 2];
                let s = -m.1 * m.0.invert().unwrap();
                if both.iter().filter(|x| (x.1 + s * x.0).is_zero_vartime()).count() < 16 {
                    continue;
                }
                let mut r = rows[j].clone();
                let (k, u) = rows[i].clone();
                axpy(&mut r.0, &mut r.1, s, k, &u);
                if r.1.len() > 1 {
                    rows.push(r);
                }
            }
        }
    }

    fn settle(&mut self) -> Result<(), Conflict> {
        loop {
            self.propagate()?;
            match self.gauss() {
                Ok(true) => continue,
                Ok(false) => return Ok(()),
                Err(Conflict) => {
                    self.clear_queue();
                    return Err(Conflict);
                }
            }
        }
    }

    /// Choose a branching variable that some unsettled constraint depends on: from the linear
    /// constraint over finite-domain unknowns that has the fewest solutions, by a rough estimate, the
    /// unknown with the largest coefficient; else from the constraint with the fewest unknowns.
    fn choose(&self, scope: Option<&Vec<bool>>) -> (Option<u32>, bool) {
        let within = |v: u32| scope.map(|s| s[v as usize]).unwrap_or(true);
        let mut best: Option<((u8, f32, f32), u32)> = None;
        let mut quad_free: Option<u32> = None;
        let n = self.sys.cons.len();
        for ci in (0..n + self.extra.len()).rev() {
            let lin = match self.sys.cons.get(ci) {
                None => Some((&self.extra[ci - n], &self.extra_size[ci - n])),
                Some(K::Lin(l)) => Some((l, &self.sys.size[ci])),
                _ => None,
            };
            if let Some((l, size)) = lin {
                let (mut count, mut free, mut top, mut sols) = (0u32, false, (f32::MIN, 0u32), 0f32);
                let mut group = [(0u32, f32::MIN, 0u32); 4];
                for ((v, _), (s, g)) in l.t.iter().zip(size) {
                    if self.val[*v as usize].is_none() && within(*v) {
                        match &self.dom[*v as usize] {
                            None => free = true,
                            Some(d) => {
                                let z = s + ((d.len() - 1) as f32).log2();
                                count += 1;
                                if *g > 0 {
                                    let g = &mut group[*g as usize];
                                    *g = (g.0 + d.len() as u32 - 1, z, *v);
                                    continue;
                                }
                                if z >= top.0 {
                                    top = (z, *v);
                                }
                                sols += (d.len() as f32).log2();
                            }
                        }
                    }
                }
                for (n, z, v) in group {
                    if n > 0 {
                        sols += (n as f32 + 1.0).log2();
                        if top.0 == f32::MIN {
                            top = (z, v);
                        }
                    }
                }
                if count > 0 {
                    let rank = if free {
                        (1, count as f32, 0.0)
                    } else {
                        // roughly how many solutions; among few, the ones that settle most
                        (0, ((sols - top.0) / 4.0).floor().max(1.0), (sols - top.0) / count as f32)
                    };
                    if best.map(|b| rank < b.0).unwrap_or(true) {
                        best = Some((rank, top.1));
                    }
                }
                continue;
            }
            if let K::Quad(a, b, c) = &self.sys.cons[ci] {
                let (mut count, mut last, mut free) = (0u32, None, false);
                let mut scan = |l: &Lin<F>| {
                    let mut some = None;
                    for (v, _) in &l.t {
                        if self.val[*v as usize].is_none() && within(*v) {
                            count += 1;
                            if self.dom[*v as usize].is_some() {
                                last = Some(*v);
                                some = some.or(Some((false, *v)));
                            } else {
                                free = true;
                                some = Some((true, *v));
                            }
                        }
                    }
                    some
                };
                let (ua, ub) = (scan(a), scan(b));
                scan(c);
                if count == 0 {
                    continue;
                }
                let linear = ua.is_none() || ub.is_none();
                if linear {
                    // one factor is known: what matters is what is left
                    match self.lin_residual(ci) {
                        Some(Res::Lin(_, u)) => {
                            free = u.iter().any(|t| self.dom[t.0 as usize].is_none());
                            last = u.iter().rev().find(|t| self.dom[t.0 as usize].is_some()).map(|t| t.0);
                            count = u.len() as u32;
                        }
                        _ => continue,
                    }
                }
                if let Some(v) = last {
                    // a switch: one of its values settles an unknown without a domain
                    let switch = [ua, ub].iter().filter_map(|x| *x).find(|x| x.0).filter(|_| !linear && count == 2);
                    let rank = if let Some((_, u)) = switch {
                        // (worth the more, the more depends on that unknown)
                        let o = self.sys.occ[u as usize].len() as f32;
                        (0, 1.0, if o < 6.0 { 1.0 - o / 100.0 } else { -o })
                    } else if free { (1, count as f32, 0.0) } else { (0, (count as f32 / 4.0).floor().max(1.0), 1.0) };
                    if best.map(|b| rank < b.0).unwrap_or(true) {
                        best = Some((rank, v));
                    }
                }
                if !linear && quad_free.is_none() {
                    quad_free = [ua, ub].iter().filter_map(|x| *x).find(|x| x.0).map(|x| x.1);
                }
            }
        }
        match best {
            Some((_, v)) => (Some(v), false),
            None => (quad_free, true),
        }
    }

    fn late(&mut self) -> bool {
        let limit = crate::common::search_limit();
        if limit == u64::MAX {
            return false;
        }
        let since = *self.since.get_or_insert_with(std::time::Instant::now);
        since.elapsed().as_millis() as u64 > limit || self.hurry && crate::common::out_of_time()
    }
    /// returns false to stop everything
    fn dfs(&mut self, scope: Option<&Vec<bool>>, f: &mut dyn FnMut(&Leaf<F>) -> bool) -> bool {
        if self.settle().is_err() {
            return true;
        }
        if self.project.is_some() {
            if self.settle_apart().is_err() {
                self.clear_queue();
                return true;
            }
            if self.stats.capped {
                return false;
            }
        }
        let (mut v, mut free) = self.choose(scope);
        if v.is_none() || free {
            // nothing but unknowns without a domain is left: eliminate once more
            loop {
                self.eliminated = false;
                match self.gauss() {
                    Ok(true) => {}
                    Ok(false) => break,
                    Err(Conflict) => {
                        self.clear_queue();
                        return true;
                    }
                }
                if self.propagate().is_err() {
                    return true;
                }
            }
            (v, free) = self.choose(scope);
        }
        let v = match v {
            None => {
                if scope.is_some() {
                    let all: Leaf<F> = self.val.clone();
                    return f(&all);
                }
                self.stats.leaves += 1;
                let leaf: Leaf<F> = self.val[..self.sys.orig_n].to_vec();
                return f(&leaf);
            }
            Some(v) => v,
        };
        let vals: Vec<F> = if !free {
            self.dom[v as usize].as_ref().unwrap().to_vec()
        } else if let Some(p) = F::TINY {
            (0..p).map(F::tiny).collect()
        } else {
            // a non-linear relation between unknowns over a huge domain: not enumerable.
            self.stats.stuck = true;
            vec![F::ZERO, F::ONE, -F::ONE, F::from(2)]
        };
        for x in vals {
            if self.stats.states >= self.max_states || self.stats.states & 15 == 0 && self.late() {
                self.stats.capped = true;
                return false;
            }
            self.stats.states += 1;
            let (tv, td, ne) = (self.trail_v.len(), self.trail_d.len(), self.extra.len());
            let quads = self.open_quads.clone();
            let go = if self.assign(v, x).is_ok() { self.dfs(scope, f) } else { true };
            self.clear_queue();
            self.undo(tv, td);
            self.drop_extra(ne);
            self.open_quads = quads;
            if !go {
                return false;
            }
        }
        true
    }
}

/// What is left of a system once some variables are fixed.
pub struct Reduced<F: XField> {
    pub sys: Sys<F>,
    /// the variables of `sys`, in terms of the original ones (0: the constant)
    pub of: Vec<u32>,
    /// the values that are settled
    pub val: Vec<Option<F>>,
    pub stats: Stats,
}
impl<F: XField> Reduced<F> {
    /// None: the pins contradict the system
    pub fn new(sys: &Sys<F>, pins: &[(u32, F)]) -> Option<Self> {
        let mut s = Search::new(sys);
        s.start(pins).ok()?;
        s.settle().ok()?;
        let mut of = vec![0u32];
        let mut to = vec![u32::MAX; sys.n];
        for v in 1..sys.n {
            if s.val[v].is_none() {
                to[v] = of.len() as u32;
                of.push(v as u32);
            }
        }
        let lin = |k: F, u: Vec<(u32, F)>| -> Lin<F> {
            let mut t = vec![];
            if !k.is_zero_vartime() {
                t.push((0, k));
            }
            t.extend(u.into_iter().map(|(v, c)| (to[v as usize], c)));
            Lin { t }
        };
        let mut cons = vec![];
        for ci in 0..sys.cons.len() + s.extra.len() {
            let z = || Lin { t: vec![] };
            match s.lin_residual(ci) {
                Some(Res::Zero) => {}
                Some(Res::Lin(k, u)) => cons.push(Con { a: z(), b: z(), c: lin(k, u) }),
                None => {
                    if let K::Quad(a, b, c) = &sys.cons[ci] {
                        let f = |l: &Lin<F>| {
                            let (k, u) = s.residual(l);
                            lin(k, u)
                        };
                        cons.push(Con { a: f(a), b: f(b), c: f(c) });
                    }
                }
            }
        }
        let mut r = Sys::new(&cons, of.len());
        for (i, v) in of.iter().enumerate().skip(1) {
            if let Some(d) = &s.dom[*v as usize] {
                let mut d = d.to_vec();
                if let Some(e) = &r.dom0[i] {
                    d.retain(|x| e.contains(x));
                }
                r.dom0[i] = Some(Rc::new(d));
            }
        }
        Some(Reduced { sys: r, of, val: s.val[..sys.orig_n].to_vec(), stats: s.stats.clone() })
    }
    /// pins of the original system, as pins of this one (None: they contradict what is settled)
    pub fn pins(&self, pins: &[(u32, F)]) -> Option<Vec<(u32, F)>> {
        let mut r = vec![];
        for (v, x) in pins {
            match self.val[*v as usize] {
                Some(y) if y == *x => {}
                Some(_) => return None,
                None => r.push((self.of.binary_search(v).unwrap() as u32, *x)),
            }
        }
        Some(r)
    }
    /// a leaf of this system as one of the original system
    pub fn leaf(&self, l: &Leaf<F>) -> Leaf<F> {
        let mut o = self.val.clone();
        for (i, v) in self.of.iter().enumerate().skip(1) {
            if (*v as usize) < o.len() && i < l.len() {
                o[*v as usize] = l[i];
            }
        }
        o
    }
}

/// Extend a leaf with free variables to one concrete complete assignment.
pub fn concretize<F: XField>(sys: &Sys<F>, leaf: &Leaf<F>) -> Option<Vec<F>> {
    let mut cur = leaf.clone();
    for x in [F::ZERO, F::ONE] {
        let v: Vec<Option<F>> = cur.iter().map(|y| Some(y.unwrap_or(x))).collect();
        if crate::rec::first_unsat(&sys.orig, &v).is_none() {
            return Some(v.into_iter().map(|x| x.unwrap()).collect());
        }
    }
    loop {
        match cur.iter().position(|v| v.is_none()) {
            None => break,
            Some(i) => {
                // fix the first free variable to an admissible value and re-solve
                let mut done = false;
                let cand: Vec<F> = match &sys.dom0[i] {
                    Some(d) => d.to_vec(),
                    None => vec![F::ZERO, F::ONE],
                };
                for x in cand {
                    let mut pins: Vec<(u32, F)> =
                        cur.iter().enumerate().filter_map(|(j, v)| v.map(|v| (j as u32, v))).collect();
                    pins.push((i as u32, x));
                    let mut s = Search::new(sys);
                    s.hurry = false;
                    let mut got = None;
                    s.run(&pins, &mut |l| {
                        got = Some(l.clone());
                        false
                    });
                    if let Some(l) = got {
                        cur = l;
                        done = true;
                        break;
                    }
                }
                if !done {
                    return None;
                }
            }
        }
    }
    let v: Vec<Option<F>> = cur;
    if crate::rec::first_unsat(&sys.orig, &v).is_some() {
        return None;
    }
    Some(v.into_iter().map(|x| x.unwrap()).collect())
}

/// Reference: enumerate every assignment of the unpinned variables with no pruning at all.
pub fn brute<F: XField>(cons: &[Con<F>], n: usize, pins: &[(u32, F)]) -> Vec<Vec<F>> {
    let p = F::TINY.unwrap();
    let mut val: Vec<Option<F>> = vec![None; n];
    val[0] = Some(F::ONE);
    for (v, x) in pins {
        val[*v as usize] = Some(*x);
    }
    let free: Vec<usize> = (0..n).filter(|i| val[*i].is_none()).collect();
    let mut out = vec![];
    let total = (p as u128).pow(free.len() as u32);
    assert!(total <= 20_000_000, "brute force space too large");
    for mut i in 0..total {
        for v in &free {
            val[*v] = Some(F::tiny((i % p as u128) as u64));
            i /= p as u128;
        }
        let ok = cons.iter().all(|c| match (eval(&c.a, &val), eval(&c.b, &val), eval(&c.c, &val)) {
            (Some(a), Some(b), Some(c)) => a * b == c,
            _ => false,
        });
        if ok {
            out.push(val.iter().map(|x| x.unwrap()).collect());
        }
    }
    out
}
