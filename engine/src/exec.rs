//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Frame {
    pub func: Arc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub sp: u64,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Input {
    Bytes(String, usize, usize), // name, first var, n
    Choice(String, usize, u64),
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub cons: Vec<E>,
    pub fixed: Supp,
    pub model: Rc<Vec<u64>>,
    pub model_id: u64,
    pub trace: Vec<u64>,
    pub trace_mark: usize, // trace length at start of the current instruction
    pub forced: VecDeque<u64>,
    pub nvars: usize,
    pub inputs: Rc<Vec<Input>>,
    pub obs: Rc<Vec<(String, Vec<B>)>>,
    pub reach: Rc<Vec<String>>,
    pub steps: u64,
    pub forks: u32,
}

#[derive(Clone, Debug)]
pub struct Job {
    pub entry: u32,
    pub tokens: Vec<u64>,
    pub model: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct PathRec {
    pub entry: u32,
    pub inputs: Vec<(String, String)>,
    pub obs: Vec<(String, Vec<u8>)>,
    pub outcome: String,
}

#[derive(Default, Clone)]
pub struct Results {
    pub violations: BTreeMap<(u32, String), Vec<PathRec>>,
    pub samples: Vec<PathRec>,
    pub paths: u64,
    pub assume_fail: u64,
    pub panics: u64,
    pub errors: BTreeMap<String, u64>,
    pub step_limit: u64,
    pub reach: BTreeMap<String, u64>,
    pub reach_models: BTreeMap<String, PathRec>,
    pub checks: u64,
    pub checks_solver: u64,
    pub checks_trivial: u64,
    pub check_labels: BTreeMap<String, u64>,
    pub instrs: u64,
    pub forks: u64,
    pub max_forks: u32,
    pub solver: SolverStats,
    pub funcs: Vec<bool>,
    pub nodes: u64,
    pub resets: u64,
    pub fork_sites: HashMap<String, u64>,
    pub entry_paths: BTreeMap<u32, u64>,
}

pub struct Config {
    pub step_limit: u64,
    pub tier: u64,
    pub solver_timeout_ms: u32,
    pub deadline: Instant,
    pub samples_per_entry: usize,
    pub seed: u64,
    pub verbose: bool,
    pub max_viol: usize,
    pub stop_on_violation: bool,
    pub arena_limit: usize,
}

pub struct Shared {
    pub module: Arc<Module>,
    pub queue: Mutex<Vec<Job>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub want: AtomicUsize,
    pub active: AtomicUsize,
    pub stop: AtomicBool,
    pub timed_out: AtomicBool,
    pub nworkers: usize,
    pub results: Mutex<Results>,
    pub cfg: Config,
    pub cache: Cache,
    pub paths: AtomicU64,
}

enum End {
    Done,
    AssumeFail,
    Panic(String),
    Violation(String),
    Error(String),
    StepLimit,
    Stopped,
}

pub struct Worker {
    pub sh: Arc<Shared>,
    pub a: Arena,
    pub solver: Solver,
    pub pending: Vec<State>,
    pub res: Results,
    entry: u32,
    last_model: u64,
    next_model: u64,
    rng: u64,
    seen: HashMap<u32, u64>, // completed paths per entry, for reservoir sampling
}

type R<T> = Result<T, End>;
fn er<T>(r: Result<T, String>) -> R<T> {
    r.map_err(End::Error)
}

impl Worker {
    pub fn new(sh: Arc<Shared>, id: u64) -> Worker {
        let nf = sh.module.fnames.len();
        let to = sh.cfg.solver_timeout_ms;
        let seed = sh.cfg.seed;
        let mut w = Worker {
            sh,
            a: Arena::new(),
            solver: Solver::new(to),
            pending: vec![],
            res: Results::default(),
            entry: 0,
            last_model: 0,
            next_model: 1,
            rng: seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (id + 1).wrapping_mul(0xd1342543de82ef95),
            seen: HashMap::new(),
        };
        w.res.funcs = vec![false; nf];
        w
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn run(&mut self) {
        let sh = self.sh.clone();
        loop {
            let job = {
                let mut q = sh.queue.lock().unwrap();
                loop {
                    if sh.stop.load(Ordering::Relaxed) {
                        break None;
                    }
                    if let Some(j) = q.pop() {
                        sh.active.fetch_add(1, Ordering::SeqCst);
                        break Some(j);
                    }
                    if sh.active.load(Ordering::SeqCst) == 0 {
                        sh.cv.notify_all();
                        break None;
                    }
                    sh.want.fetch_add(1, Ordering::SeqCst);
                    let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap();
                    q = g;
                    sh.want.fetch_sub(1, Ordering::SeqCst);
                }
            };
            let Some(job) = job else { break };
            self.run_job(job);
            {
                let _q = sh.queue.lock().unwrap();
                sh.active.fetch_sub(1, Ordering::SeqCst);
                sh.cv.notify_all();
            }
        }
        self.res.nodes += self.a.nodes.len() as u64;
        self.merge();
    }

    fn merge(&mut self) {
        let s = self.solver.stats.clone();
        let mut g = self.sh.results.lock().unwrap();
        let r = &mut self.res;
        for (k, v) in std::mem::take(&mut r.violations) {
            g.violations.entry(k).or_default().extend(v);
        }
        g.samples.append(&mut r.samples);
        g.paths += r.paths;
        g.assume_fail += r.assume_fail;
        g.panics += r.panics;
        g.step_limit += r.step_limit;
        for (k, v) in std::mem::take(&mut r.errors) {
            *g.errors.entry(k).or_default() += v;
        }
        for (k, v) in std::mem::take(&mut r.reach) {
            *g.reach.entry(k).or_default() += v;
        }
        for (k, v) in std::mem::take(&mut r.reach_models) {
            g.reach_models.entry(k).or_insert(v);
        }
        for (k, v) in std::mem::take(&mut r.check_labels) {
            *g.check_labels.entry(k).or_default() += v;
        }
        for (k, v) in std::mem::take(&mut r.entry_paths) {
            *g.entry_paths.entry(k).or_default() += v;
        }
        for (k, v) in std::mem::take(&mut r.fork_sites) {
            *g.fork_sites.entry(k).or_default() += v;
        }
        g.checks += r.checks;
        g.checks_solver += r.checks_solver;
        g.checks_trivial += r.checks_trivial;
        g.instrs += r.instrs;
        g.forks += r.forks;
        g.max_forks = g.max_forks.max(r.max_forks);
        g.nodes += r.nodes;
        g.resets += r.resets;
        g.solver.queries += s.queries;
        g.solver.cache_hits += s.cache_hits;
        g.solver.sat += s.sat;
        g.solver.unsat += s.unsat;
        g.solver.unknown += s.unknown;
        g.solver.time_us += s.time_us;
        g.solver.max_us = g.solver.max_us.max(s.max_us);
        if g.funcs.is_empty() {
            g.funcs = r.funcs.clone();
        } else {
            for (i, x) in r.funcs.iter().enumerate() {
                g.funcs[i] |= *x;
            }
        }
    }

    fn initial(&mut self, job: &Job) -> State {
        let m = self.sh.module.clone();
        let f = m.func(job.entry).expect("entry body");
        let mem = Mem::new(&m.image);
        self.next_model += 1;
        State {
            cur: Frame {
                regs: vec![Val::C(0); f.nregs as usize],
                func: f,
                block: 0,
                ip: 0,
                sp: mem.sp,
                ret: None,
                normal: None,
            },
            stack: vec![],
            mem,
            cons: vec![],
            fixed: [0; NW],
            model: Rc::new(job.model.clone()),
            model_id: self.next_model,
            trace: vec![],
            trace_mark: 0,
            forced: job.tokens.iter().copied().collect(),
            nvars: 0,
            inputs: Rc::new(vec![]),
            obs: Rc::new(vec![]),
            reach: Rc::new(vec![]),
            steps: 0,
            forks: 0,
        }
    }

    fn run_job(&mut self, job: Job) {
        self.entry = job.entry;
        let st = self.initial(&job);
        self.pending.push(st);
        while let Some(mut st) = self.pending.pop() {
            if self.a.nodes.len() > self.sh.cfg.arena_limit {
                // hand everything back as jobs and start from an empty arena
                self.pending.push(st);
                let mut jobs: Vec<Job> = vec![];
                for s in std::mem::take(&mut self.pending) {
                    jobs.push(self.to_job(s));
                }
                let mut q = self.sh.queue.lock().unwrap();
                q.extend(jobs);
                self.sh.cv.notify_all();
                drop(q);
                self.res.nodes += self.a.nodes.len() as u64;
                self.res.resets += 1;
                self.a = Arena::new();
                let old = std::mem::take(&mut self.solver.stats);
                let mut ns = Solver::new(self.sh.cfg.solver_timeout_ms);
                ns.stats = old;
                self.solver.dispose();
                self.solver = ns;
                self.last_model = 0;
                return;
            }
            let end = loop {
                match self.step_block(&mut st) {
                    Ok(()) => {}
                    Err(e) => break e,
                }
            };
            self.finish(&mut st, end);
            if self.sh.stop.load(Ordering::Relaxed) {
                self.pending.clear();
                break;
            }
        }
    }

    fn to_job(&self, s: State) -> Job {
        let mut tokens = s.trace[..s.trace_mark].to_vec();
        tokens.extend(s.forced.iter());
        Job { entry: self.entry, tokens, model: (*s.model).clone() }
    }

    fn share(&mut self) {
        let sh = &self.sh;
        if sh.want.load(Ordering::Relaxed) > 0 && self.pending.len() > 1 {
            let mut q = sh.queue.lock().unwrap();
            if q.len() < sh.want.load(Ordering::Relaxed) {
                let s = self.pending.remove(0);
                let j = self.to_job(s);
                q.push(j);
                self.sh.cv.notify_one();
            }
        }
    }

    fn record(&mut self, st: &State, model: &[u64], outcome: &str) -> PathRec {
        let mut inputs = vec![];
        for i in st.inputs.iter() {
            match i {
                Input::Bytes(n, first, len) => {
                    let mut s = String::from("B ");
                    s.push_str(n);
                    s.push(' ');
                    for k in *first..*first + *len {
                        s.push_str(&format!("{:02x}", model.get(k).copied().unwrap_or(0) as u8));
                    }
                    if *len == 0 {
                        s.push('-');
                    }
                    inputs.push((n.clone(), s));
                }
                Input::Choice(n, v, _) => {
                    let x = model.get(*v).copied().unwrap_or(0)
                        | model.get(*v + 1).copied().unwrap_or(0) << 8;
                    inputs.push((n.clone(), format!("C {n} {x}")));
                }
            }
        }
        self.a.new_epoch();
        self.last_model = 0;
        let mut obs = vec![];
        for (n, bs) in st.obs.iter() {
            let v = bs
                .iter()
                .map(|b| match b {
                    B::C(c) => *c,
                    B::S(e) => self.a.eval(*e, model) as u8,
                })
                .collect();
            obs.push((n.clone(), v));
        }
        PathRec { entry: self.entry, inputs, obs, outcome: outcome.to_string() }
    }

    fn finish(&mut self, st: &mut State, end: End) {
        self.res.max_forks = self.res.max_forks.max(st.forks);
        if let End::Stopped = end {
            return;
        }
        self.sh.paths.fetch_add(1, Ordering::Relaxed);
        *self.res.entry_paths.entry(self.entry).or_default() += 1;
        let model = st.model.clone();
        let reach = |w: &mut Worker, rec: &PathRec| {
            for l in st.reach.iter() {
                *w.res.reach.entry(l.clone()).or_default() += 1;
                w.res.reach_models.entry(l.clone()).or_insert_with(|| rec.clone());
            }
        };
        match end {
            End::Done => {
                self.res.paths += 1;
                let rec = self.record(st, &model, "ok");
                reach(self, &rec);
                let k = self.sh.cfg.samples_per_entry;
                let n = {
                    let c = self.seen.entry(self.entry).or_default();
                    *c += 1;
                    *c
                };
                let entry = self.entry;
                let have: Vec<usize> = self
                    .res
                    .samples
                    .iter()
                    .enumerate()
                    .filter(|(_, s)| s.entry == entry)
                    .map(|(i, _)| i)
                    .collect();
                if have.len() < k {
                    self.res.samples.push(rec);
                } else if k > 0 {
                    let r = self.rand() % n;
                    if (r as usize) < k {
                        self.res.samples[have[r as usize]] = rec;
                    }
                }
            }
            End::AssumeFail => self.res.assume_fail += 1,
            End::Panic(loc) => {
                self.res.panics += 1;
                let l = format!("panic: {loc}");
                let rec = self.record(st, &model, &l);
                reach(self, &rec);
                self.violation(l, rec);
            }
            End::Violation(l) => {
                // already recorded
                self.res.paths += 1;
                let rec = self.record(st, &model, &l);
                reach(self, &rec);
            }
            End::Error(e) => {
                let bt: Vec<String> = std::iter::once(&st.cur.func.name)
                    .chain(st.stack.iter().rev().take(6).map(|f| &f.func.name))
                    .map(|s| s.chars().rev().take(60).collect::<String>().chars().rev().collect())
                    .collect();
                *self.res.errors.entry(format!("{e} [{}]", bt.join(" < "))).or_default() += 1;
            }
            End::StepLimit => {
                self.res.step_limit += 1;
                let l = "nontermination: step limit exceeded".to_string();
                let rec = self.record(st, &model, &l);
                self.violation(l, rec);
            }
            End::Stopped => {}
        }
    }

    fn violation(&mut self, label: String, rec: PathRec) {
        let max = self.sh.cfg.max_viol;
        let v = self.res.violations.entry((self.entry, label)).or_default();
        if v.len() < max {
            v.push(rec);
        }
        if self.sh.cfg.stop_on_violation {
            self.sh.stop.store(true, Ordering::Relaxed);
        }
    }

    // ---- solver interface --------------------------------------------------------

    fn eval(&mut self, st: &State, e: E) -> u128 {
        if self.last_model != st.model_id {
            self.a.new_epoch();
            self.last_model = st.model_id;
        }
        self.a.eval(e, &st.model)
    }

    fn slice(&self, st: &State, c: E) -> Vec<E> {
        let mut supp = *self.a.support(c);
        let mut used = vec![false; st.cons.len()];
        let mut out = vec![c];
        loop {
            let mut ch = false;
            for (i, &k) in st.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.a.support(k);
                if (0..NW).any(|j| s[j] & supp[j] != 0) {
                    used[i] = true;
                    ch = true;
                    for j in 0..NW {
                        supp[j] |= s[j];
                    }
                    out.push(k);
                }
            }
            if !ch {
                break;
            }
        }
        out
    }

    /// Is `c` satisfiable together with the path condition?  Returns a full model.
    fn feasible(&mut self, st: &State, c: E) -> R<Option<Rc<Vec<u64>>>> {
        match self.a.cv(c) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        let cs = self.slice(st, c);
        if self.sh.cfg.verbose {
            let k = format!("queries in {}", st.cur.func.name);
            *self.res.fork_sites.entry(k).or_default() += 1;
        }
        let cache = &self.sh.cache;
        match self.solver.check(&self.a, &cs, cache) {
            Ans::Unsat => Ok(None),
            Ans::Sat(m) => {
                let mut v = (*st.model).clone();
                for (i, x) in m {
                    while v.len() <= i as usize {
                        v.push(0);
                    }
                    v[i as usize] = x;
                }
                Ok(Some(Rc::new(v)))
            }
            Ans::Unknown => Err(End::Error("solver answered unknown (timeout)".into())),
        }
    }

    fn add(&mut self, st: &mut State, c: E) {
        if self.a.cv(c).is_some() {
            return;
        }
        let n = self.a.n(c);
        if n.op == Op::And {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let m = self.a.n(n.a);
            if m.op == Op::Or {
                let (x, y) = (self.a.not(m.a), self.a.not(m.b));
                self.add(st, x);
                self.add(st, y);
                return;
            }
        }
        if st.cons.contains(&c) {
            return;
        }
        if n.op == Op::Eq && self.a.n(n.a).op == Op::Var && self.a.cv(n.b).is_some() {
            let v = self.a.n(n.a).a as usize;
            st.fixed[v / 64] |= 1 << (v % 64);
        }
        st.cons.push(c);
    }

    fn is_fixed(&self, st: &State, e: E) -> bool {
        let s = self.a.support(e);
        (0..NW).all(|i| s[i] & !st.fixed[i] == 0)
    }

    fn fork(&mut self, st: &mut State, tokens: &[u64], model: Rc<Vec<u64>>) {
        let mut o = st.clone();
        let used: Vec<u64> = o.trace[o.trace_mark..].to_vec();
        o.trace.truncate(o.trace_mark);
        debug_assert!(o.forced.is_empty());
        o.forced = used.into_iter().chain(tokens.iter().copied()).collect();
        o.model = model;
        self.next_model += 1;
        o.model_id = self.next_model;
        o.forks += 1;
        st.forks += 1;
        self.res.forks += 1;
        if self.sh.cfg.verbose {
            let k = format!("{}", st.cur.func.name);
            *self.res.fork_sites.entry(k).or_default() += 1;
        }
        self.pending.push(o);
        self.share();
    }

    /// Decides a Boolean condition for this state, forking if both sides are feasible.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.a.cv(c) {
            return Ok(v == 1);
        }
        if let Some(t) = st.forced.pop_front() {
            st.trace.push(t);
            let k = if t == 1 { c } else { self.a.not(c) };
            self.add(st, k);
            return Ok(t == 1);
        }
        let d = self.eval(st, c) == 1;
        if self.is_fixed(st, c) {
            st.trace.push(d as u64);
            return Ok(d);
        }
        let nc = self.a.not(c);
        let (this, other) = if d { (c, nc) } else { (nc, c) };
        if let Some(m) = self.feasible(st, other)? {
            self.fork(st, &[!d as u64], m);
        }
        st.trace.push(d as u64);
        self.add(st, this);
        Ok(d)
    }

    /// Picks one concrete value for `e`, forking for all the others.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = self.a.cv(e) {
            return Ok(v);
        }
        let v = self.concretize_new(st, e)?;
        let k = kval(self.a.w(e), v);
        for r in st.cur.regs.iter_mut() {
            if matches!(r, Val::S(x) if *x == e) {
                *r = k.clone();
            }
        }
        Ok(v)
    }

    /// Splits on the value of `e` if it has only a few.
    fn split_few(&mut self, st: &mut State, e: E) -> R<Val> {
        if self.a.cv(e).is_none() {
            if st.forced.len() >= 2 && st.forced[0] == u64::MAX {
                st.forced.pop_front();
                st.forced.pop_front();
            } else if !st.forced.is_empty() || !self.plain_byte(e) && self.values(st, e, 3)?.is_some() {
                let v = self.concretize(st, e)?;
                return Ok(kval(self.a.w(e), v));
            }
            st.trace.push(u64::MAX);
            st.trace.push(0);
        }
        Ok(self.v(e))
    }

    fn plain_byte(&self, e: E) -> bool {
        let n = self.a.n(e);
        n.op == Op::ZExt && self.a.n(n.a).op == Op::Var
    }

    fn concretize_new(&mut self, st: &mut State, e: E) -> R<u128> {
        let w = self.a.w(e);
        loop {
            if st.forced.len() >= 2 {
                let v = st.forced.pop_front().unwrap();
                let t = st.forced.pop_front().unwrap();
                st.trace.push(v);
                st.trace.push(t);
                let k = self.a.konst(w, v as u128);
                let mut c = self.a.bin(Op::Eq, e, k);
                if t == 0 {
                    c = self.a.not(c);
                }
                self.add(st, c);
                if t == 1 {
                    return Ok(v as u128);
                }
                continue;
            }
            let v = self.eval(st, e);
            if v > u64::MAX as u128 {
                return Err(End::Error("concretize wide".into()));
            }
            if self.is_fixed(st, e) {
                st.trace.push(v as u64);
                st.trace.push(1);
                return Ok(v);
            }
            let k = self.a.konst(w, v);
            let eq = self.a.bin(Op::Eq, e, k);
            let ne = self.a.not(eq);
            if let Some(m) = self.feasible(st, ne)? {
                self.fork(st, &[v as u64, 0], m);
            }
            st.trace.push(v as u64);
            st.trace.push(1);
            self.add(st, eq);
            return Ok(v);
        }
    }

    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::S(e) => Ok(self.concretize(st, *e)? as u64),
            Val::A(_) => Err(End::Error("aggregate where scalar expected".into())),
        }
    }

    // ---- values -------------------------------------------------------------------

    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.cur.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn e(&mut self, v: &Val, w: u8) -> E {
        match v {
            Val::C(x) => self.a.konst(w, *x as u128),
            Val::W(x) => self.a.konst(w, **x),
            Val::S(e) => {
                debug_assert_eq!(self.a.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.a.cv(e) {
            Some(x) => kval(self.a.w(e), x),
            None => Val::S(e),
        }
    }
    fn cval(v: &Val) -> Option<u128> {
        match v {
            Val::C(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            _ => None,
        }
    }

    fn bin1(&mut self, op: Op, w: u8, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (Self::cval(a), Self::cval(b)) {
            return kval(w, fold2(op, w, x, y));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.a.bin(op, x, y);
        self.v(r)
    }
    fn icmp1(&mut self, pred: u8, w: u8, a: &Val, b: &Val) -> Val {
        let (op, sw, neg) = match pred {
            0 => (Op::Eq, false, false),
            1 => (Op::Eq, false, true),
            2 => (Op::Ult, true, false),
            3 => (Op::Ule, true, false),
            4 => (Op::Ult, false, false),
            5 => (Op::Ule, false, false),
            6 => (Op::Slt, true, false),
            7 => (Op::Sle, true, false),
            8 => (Op::Slt, false, false),
            _ => (Op::Sle, false, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (Self::cval(a), Self::cval(b)) {
            let r = fold2(op, w, x, y);
            return Val::C((r as u64) ^ neg as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let mut r = self.a.bin(op, x, y);
        if neg {
            r = self.a.not(r);
        }
        self.v(r)
    }
    fn cast1(&mut self, k: CastK, fw: u8, tw: u8, a: &Val) -> Val {
        if let Some(x) = Self::cval(a) {
            return match k {
                CastK::Trunc | CastK::ZExt | CastK::Bit => kval(tw, x),
                CastK::SExt => kval(tw, sext(x, fw) as u128),
            };
        }
        let e = self.e(a, fw);
        let r = match k {
            CastK::Trunc => self.a.extract(e, tw - 1, 0),
            CastK::ZExt => self.a.zext(e, tw),
            CastK::SExt => self.a.sext(e, tw),
            CastK::Bit => e,
        };
        self.v(r)
    }
    fn lanes(v: &Val) -> Vec<Val> {
        match v {
            Val::A(x) => x.to_vec(),
            x => vec![x.clone()],
        }
    }

    /// Flattens to (value, bit width) pieces, least significant first.
    fn pieces(ty: &Ty, v: &Val, out: &mut Vec<(Val, u8)>) {
        match ty {
            Ty::Vec(e, n) => {
                let l = Self::lanes(v);
                for i in 0..*n as usize {
                    Self::pieces(e, &l[i], out);
                }
            }
            t => out.push((v.clone(), t.w())),
        }
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if from == to {
            return Ok(v.clone());
        }
        let mut ps = vec![];
        Self::pieces(from, v, &mut ps);
        // regroup into target lanes
        let (tw, tn) = match to {
            Ty::Vec(e, n) => (e.w(), *n),
            t => (t.w(), 1),
        };
        let mut out = vec![];
        let mut acc: Option<Val> = None;
        let mut aw: u16 = 0;
        let mut q: VecDeque<(Val, u8)> = ps.into();
        while out.len() < tn as usize {
            while aw < tw as u16 {
                let Some((v, w)) = q.pop_front() else {
                    return Err(End::Error("bitcast".into()));
                };
                // take at most what is needed
                let need = tw as u16 - aw;
                let (lo, rest) = if w as u16 > need {
                    let need = need as u8;
                    let lo = self.cast1(CastK::Trunc, w, need, &v);
                    let sh = self.bin1(Op::LShr, w, &v, &kval(w, need as u128));
                    let hi = self.cast1(CastK::Trunc, w, w - need, &sh);
                    (lo, Some((hi, w - need)))
                } else {
                    (v, None)
                };
                let lw = (w as u16).min(need);
                if let Some(r) = rest {
                    q.push_front(r);
                }
                acc = Some(match acc {
                    None => lo,
                    Some(a) => {
                        if let (Some(x), Some(y)) = (Self::cval(&a), Self::cval(&lo)) {
                            kval((aw + lw) as u8, x | y << aw)
                        } else {
                            let (x, y) = (self.e(&a, aw as u8), self.e(&lo, lw as u8));
                            let r = self.a.concat(y, x);
                            self.v(r)
                        }
                    }
                });
                aw += lw;
            }
            out.push(acc.take().unwrap());
            aw = 0;
        }
        Ok(match to {
            Ty::Vec(..) => Val::A(out.into()),
            _ => out.pop().unwrap(),
        })
    }

    // ---- memory -------------------------------------------------------------------

    fn load_int(&mut self, st: &State, a: u64, w: u8) -> R<Val> {
        let n = (w as usize + 7) / 8;
        if n <= 8 {
            if let Some(x) = er(st.mem.read_conc(a, n))? {
                return Ok(Val::C(x & mask(w) as u64));
            }
        }
        let bs = er(st.mem.read_vec(a, n as u64))?;
        let mut all = true;
        let mut x = 0u128;
        for (i, b) in bs.iter().enumerate() {
            match b {
                B::C(c) => x |= (*c as u128) << (8 * i),
                B::S(_) => all = false,
            }
        }
        if all {
            return Ok(kval(w, x));
        }
        let mut acc: Option<E> = None;
        for b in bs.iter() {
            let e = match b {
                B::C(c) => self.a.konst(8, *c as u128),
                B::S(e) => *e,
            };
            acc = Some(match acc {
                None => e,
                Some(l) => self.a.concat(e, l),
            });
        }
        let mut e = acc.unwrap();
        if w as usize != n * 8 {
            e = self.a.trunc(e, w);
        }
        Ok(self.v(e))
    }
    fn store_int(&mut self, st: &mut State, a: u64, w: u8, v: &Val) -> R<()> {
        let n = (w as usize + 7) / 8;
        match v {
            Val::C(x) => er(st.mem.write_conc(a, n, *x)),
            Val::W(x) => {
                er(st.mem.write_conc(a, 8, **x as u64))?;
                er(st.mem.write_conc(a + 8, n - 8, (**x >> 64) as u64))
            }
            Val::S(e) => {
                let mut e = *e;
                if w as usize != n * 8 {
                    e = self.a.zext(e, (n * 8) as u8);
                }
                for i in 0..n {
                    let b = self.a.extract(e, (8 * i + 7) as u8, (8 * i) as u8);
                    let b = match self.a.cv(b) {
                        Some(c) => B::C(c as u8),
                        None => B::S(b),
                    };
                    er(st.mem.write(a + i as u64, b))?;
                }
                Ok(())
            }
            Val::A(_) => Err(End::Error("store aggregate as int".into())),
        }
    }
    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => self.load_int(st, a, *w),
            Ty::Big(w) => {
                let mut v = vec![];
                for i in 0..(*w as u64 + 7) / 8 {
                    v.push(self.load_int(st, a + i, 8)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Vec(e, n) => {
                let w = e.w();
                if w % 8 == 0 {
                    let mut v = vec![];
                    for i in 0..*n as u64 {
                        v.push(self.load_int(st, a + i * (w as u64 / 8), w)?);
                    }
                    Ok(Val::A(v.into()))
                } else {
                    let tot = (w as u32 * n) as u8;
                    let x = self.load_int(st, a, tot)?;
                    self.bitcast(&Ty::Int(tot), ty, &x)
                }
            }
            Ty::Arr(e, n, s) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, a + i * s, e)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (o, t) in f.iter() {
                    v.push(self.load(st, a + o, t)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Void => Err(End::Error("load void".into())),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_int(st, a, *w, v),
            Ty::Big(_) => {
                let l = match v {
                    Val::A(l) => l.clone(),
                    Val::C(0) => vec![Val::C(0); ty.store_size() as usize].into(),
                    _ => return Err(End::Error("store big".into())),
                };
                for (i, x) in l.iter().enumerate() {
                    self.store_int(st, a + i as u64, 8, x)?;
                }
                Ok(())
            }
            Ty::Vec(e, n) => {
                let w = e.w();
                let l = Self::lanes(v);
                if w % 8 == 0 {
                    for i in 0..*n as usize {
                        self.store_int(st, a + i as u64 * (w as u64 / 8), w, &l[i])?;
                    }
                    Ok(())
                } else {
                    let tot = (w as u32 * n) as u8;
                    let x = self.bitcast(ty, &Ty::Int(tot), v)?;
                    self.store_int(st, a, tot, &x)
                }
            }
            Ty::Arr(e, n, s) => {
                let l = Self::lanes(v);
                for i in 0..*n {
                    self.store(st, a + i * s, e, &l[i as usize])?;
                }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let l = Self::lanes(v);
                for (i, (o, t)) in f.iter().enumerate() {
                    self.store(st, a + o, t, &l[i])?;
                }
                Ok(())
            }
            Ty::Void => Ok(()),
        }
    }

    /// Enumerates all feasible values of `e` (up to `max`); None if there are more.
    fn values(&mut self, st: &State, e: E, max: usize) -> R<Option<Vec<u64>>> {
        let w = self.a.w(e);
        let mut out = vec![];
        let cs = self.slice(st, e);
        let mut supp: Supp = [0; NW];
        for &c in &cs {
            let s = self.a.support(c);
            for i in 0..NW {
                supp[i] |= s[i];
            }
        }
        if supp.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
            let i = (0..NW * 64).find(|i| supp[i / 64] >> (i % 64) & 1 == 1).unwrap();
            if self.a.var_w[i] == 8 {
                // a function of one byte, constrained on its own: by evaluation
                let mut m = (*st.model).clone();
                if m.len() <= i {
                    m.resize(i + 1, 0);
                }
                self.last_model = 0;
                for b in 0..256 {
                    m[i] = b;
                    self.a.new_epoch();
                    if cs[1..].iter().all(|&c| self.a.eval(c, &m) == 1) {
                        let v = self.a.eval(e, &m) as u64;
                        if !out.contains(&v) {
                            if out.len() == max {
                                return Ok(None);
                            }
                            out.push(v);
                        }
                    }
                }
                return Ok(Some(out));
            }
        }
        let mut excl = self.a.konst(1, 1);
        loop {
            let m = if out.is_empty() {
                Some(st.model.clone())
            } else {
                self.feasible(st, excl)?
            };
            let Some(m) = m else { return Ok(Some(out)) };
            if out.len() == max {
                return Ok(None);
            }
            self.a.new_epoch();
            self.last_model = 0;
            let v = self.a.eval(e, &m);
            out.push(v as u64);
            let k = self.a.konst(w, v);
            let eq = self.a.bin(Op::Eq, e, k);
            let ne = self.a.not(eq);
            excl = self.a.bin(Op::And, excl, ne);
        }
    }

    fn addr(&mut self, st: &mut State, p: &Val) -> R<u64> {
        self.conc(st, p)
    }

    fn load_sym(&mut self, st: &mut State, pe: E, ty: &Ty) -> R<Val> {
        // read through a symbolic address: if-then-else over every feasible address
        if st.forced.is_empty() && matches!(ty, Ty::Int(_)) {
            let w = ty.w();
            if let Some(vals) = self.values(st, pe, 300)? {
                // a choice among a few pointers is split, a table is not
                if vals.len() > 3 {
                    // remember in the trace that the read was not split
                    st.trace.push(u64::MAX);
                    st.trace.push(0);
                    return self.ite_read(st, pe, &vals, w);
                }
            }
        } else if st.forced.len() >= 2 && st.forced[0] == u64::MAX && matches!(ty, Ty::Int(_)) {
            st.forced.pop_front();
            st.forced.pop_front();
            st.trace.push(u64::MAX);
            st.trace.push(0);
            if let Some(vals) = self.values(st, pe, 300)? {
                return self.ite_read(st, pe, &vals, ty.w());
            }
            return Err(End::Error("replay mismatch".into()));
        }
        let a = self.concretize(st, pe)? as u64;
        self.load(st, a, ty)
    }
    fn ite_read(&mut self, st: &State, pe: E, vals: &[u64], w: u8) -> R<Val> {
        let mut vals = vals.to_vec();
        vals.sort_unstable();
        let mut acc: Option<E> = None;
        for a in vals {
            let v = self.load_int(st, a, w)?;
            let e = self.e(&v, w);
            acc = Some(match acc {
                None => e,
                Some(o) => {
                    let pw = self.a.w(pe);
                    let k = self.a.konst(pw, a as u128);
                    let c = self.a.bin(Op::Eq, pe, k);
                    self.a.ite(c, e, o)
                }
            });
        }
        let e = acc.unwrap();
        Ok(self.v(e))
    }

    fn malloc(&mut self, st: &mut State, size: u64, align: u64) -> R<u64> {
        if size > 1 << 24 {
            return Err(End::Error(format!("huge allocation {size}")));
        }
        let al = align.max(16);
        let base = (st.mem.heap_ptr + 16 + al - 1) / al * al;
        st.mem.heap_ptr = base + (size + 15) / 16 * 16 + 16;
        er(st.mem.write_conc(base - 8, 8, size))?;
        Ok(base)
    }

    fn cstr(&self, st: &State, p: u64, n: u64) -> R<String> {
        let bs = er(st.mem.read_vec(p, n))?;
        let v: Vec<u8> = bs
            .iter()
            .map(|b| match b {
                B::C(c) => *c,
                B::S(_) => b'?',
            })
            .collect();
        Ok(String::from_utf8_lossy(&v).into_owned())
    }

    // ---- main loop ----------------------------------------------------------------

    /// Executes until the current block (or call) changes.
    fn step_block(&mut self, st: &mut State) -> R<()> {
        let func = st.cur.func.clone();
        let insts = &func.blocks[st.cur.block as usize].insts;
        loop {
            st.steps += 1;
            self.res.instrs += 1;
            if self.res.instrs & 0xfff == 0 {
                if self.sh.stop.load(Ordering::Relaxed) {
                    return Err(End::Stopped);
                }
                if Instant::now() > self.sh.cfg.deadline {
                    self.sh.timed_out.store(true, Ordering::Relaxed);
                    self.sh.stop.store(true, Ordering::Relaxed);
                    return Err(End::Stopped);
                }
                if st.steps > self.sh.cfg.step_limit {
                    return Err(End::StepLimit);
                }
            }
            st.trace_mark = st.trace.len();
            let inst = &insts[st.cur.ip as usize];
            match inst {
                Inst::Bin { op, dst, w, lanes, a, b } => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let r = if *lanes == 0 {
                        if let (Val::C(x), Val::C(y)) = (&x, &y) {
                            let m = mask(*w) as u64;
                            match op {
                                Op::Add => Val::C(x.wrapping_add(*y) & m),
                                Op::Sub => Val::C(x.wrapping_sub(*y) & m),
                                Op::And => Val::C(x & y),
                                Op::Or => Val::C(x | y),
                                Op::Xor => Val::C(x ^ y),
                                _ => kval(*w, fold2(*op, *w, *x as u128, *y as u128)),
                            }
                        } else {
                            self.bin1(*op, *w, &x, &y)
                        }
                    } else {
                        let (x, y) = (Self::lanes(&x), Self::lanes(&y));
                        Val::A((0..*lanes as usize).map(|i| self.bin1(*op, *w, &x[i], &y[i])).collect())
                    };
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Icmp { pred, dst, w, lanes, a, b } => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let r = if *lanes == 0 {
                        self.icmp1(*pred, *w, &x, &y)
                    } else {
                        let (x, y) = (Self::lanes(&x), Self::lanes(&y));
                        Val::A((0..*lanes as usize).map(|i| self.icmp1(*pred, *w, &x[i], &y[i])).collect())
                    };
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Select { dst, ty, ptr, c, a, b, vcond } => {
                    let cv = self.get(st, c);
                    let r = if *vcond {
                        let c = Self::lanes(&cv);
                        let (x, y) = (self.get(st, a), self.get(st, b));
                        let (x, y) = (Self::lanes(&x), Self::lanes(&y));
                        let w = ty.w();
                        let mut out = vec![];
                        for i in 0..c.len() {
                            out.push(match &c[i] {
                                Val::C(1) => x[i].clone(),
                                Val::C(_) => y[i].clone(),
                                Val::S(e) => {
                                    let (p, q) = (self.e(&x[i], w), self.e(&y[i], w));
                                    let r = self.a.ite(*e, p, q);
                                    self.v(r)
                                }
                                _ => return Err(End::Error("select cond".into())),
                            });
                        }
                        Val::A(out.into())
                    } else {
                        match cv {
                            Val::C(1) => self.get(st, a),
                            Val::C(_) => self.get(st, b),
                            Val::S(e) => {
                                let (x, y) = (self.get(st, a), self.get(st, b));
                                let scalar = matches!(ty, Ty::Int(_));
                                if scalar && !*ptr {
                                    let w = ty.w();
                                    let (p, q) = (self.e(&x, w), self.e(&y, w));
                                    let r = self.a.ite(e, p, q);
                                    self.v(r)
                                } else if self.branch(st, e)? {
                                    x
                                } else {
                                    y
                                }
                            }
                            _ => return Err(End::Error("select cond".into())),
                        }
                    };
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Cast { k, dst, from, to, a } => {
                    let x = self.get(st, a);
                    let r = if *k == CastK::Bit {
                        self.bitcast(from, to, &x)?
                    } else if from.lanes() == 0 {
                        self.cast1(*k, from.w(), to.w(), &x)
                    } else {
                        let x = Self::lanes(&x);
                        Val::A(x.iter().map(|v| self.cast1(*k, from.w(), to.w(), v)).collect())
                    };
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Load { dst, ty, p } => {
                    let r = match self.get(st, p) {
                        Val::C(a) => self.load(st, a, ty)?,
                        Val::S(e) => self.load_sym(st, e, ty)?,
                        _ => return Err(End::Error("load ptr".into())),
                    };
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Store { ty, v, p } => {
                    let pv = self.get(st, p);
                    let a = self.addr(st, &pv)?;
                    let x = self.get(st, v);
                    self.store(st, a, ty, &x)?;
                }
                Inst::Gep { dst, base, off, terms } => {
                    let mut b = self.get(st, base);
                    if let Val::S(e) = b {
                        b = self.split_few(st, e)?;
                    }
                    let mut r = match &b {
                        Val::C(x) => Val::C(x.wrapping_add(*off as u64)),
                        v => self.bin1(Op::Add, 64, v, &Val::C(*off as u64)),
                    };
                    for (t, w, s) in terms {
                        let mut i = self.get(st, t);
                        if let Val::S(e) = i {
                            i = self.split_few(st, e)?;
                        }
                        let i = if *w < 64 { self.cast1(CastK::SExt, *w, 64, &i) } else { i };
                        let m = if *s == 1 { i } else { self.bin1(Op::Mul, 64, &i, &Val::C(*s as u64)) };
                        r = self.bin1(Op::Add, 64, &r, &m);
                    }
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Alloca { dst, size, count } => {
                    let c = self.get(st, count);
                    let c = self.conc(st, &c)?;
                    let a = (st.mem.sp + 31) / 32 * 32;
                    st.mem.sp = a + (size * c + 15) / 16 * 16;
                    if st.mem.sp > HEAP_BASE {
                        return Err(End::Error("stack overflow".into()));
                    }
                    st.cur.regs[*dst as usize] = Val::C(a);
                }
                Inst::ExtractVal { dst, a, idx } => {
                    let mut v = self.get(st, a);
                    for &i in idx {
                        v = match &v {
                            Val::A(l) => l[i as usize].clone(),
                            _ => return Err(End::Error("extractvalue".into())),
                        };
                    }
                    st.cur.regs[*dst as usize] = v;
                }
                Inst::InsertVal { dst, a, v, idx } => {
                    let agg = self.get(st, a);
                    let x = self.get(st, v);
                    fn ins(a: &Val, idx: &[u32], x: Val) -> Option<Val> {
                        match a {
                            Val::A(l) => {
                                let mut l = l.to_vec();
                                let i = idx[0] as usize;
                                l[i] = if idx.len() == 1 { x } else { ins(&l[i], &idx[1..], x)? };
                                Some(Val::A(l.into()))
                            }
                            _ => None,
                        }
                    }
                    match ins(&agg, idx, x) {
                        Some(v) => st.cur.regs[*dst as usize] = v,
                        None => return Err(End::Error("insertvalue".into())),
                    }
                }
                Inst::ExtractElem { dst, a, i } => {
                    let iv = self.get(st, i);
                    let i = self.conc(st, &iv)?;
                    let v = Self::lanes(&self.get(st, a));
                    st.cur.regs[*dst as usize] = v.get(i as usize).cloned().unwrap_or(Val::C(0));
                }
                Inst::InsertElem { dst, a, v, i } => {
                    let iv = self.get(st, i);
                    let i = self.conc(st, &iv)?;
                    let mut l = Self::lanes(&self.get(st, a));
                    l[i as usize] = self.get(st, v);
                    st.cur.regs[*dst as usize] = Val::A(l.into());
                }
                Inst::Shuffle { dst, a, b, na, mask } => {
                    let x = Self::lanes(&self.get(st, a));
                    let y = Self::lanes(&self.get(st, b));
                    let na = *na as usize;
                    let z = match &x[0] {
                        Val::W(_) => Val::W(Arc::new(0)),
                        _ => Val::C(0),
                    };
                    let r = mask
                        .iter()
                        .map(|&m| {
                            if m < 0 {
                                z.clone()
                            } else if (m as usize) < na {
                                x[m as usize].clone()
                            } else {
                                y[m as usize - na].clone()
                            }
                        })
                        .collect();
                    st.cur.regs[*dst as usize] = Val::A(r);
                }
                Inst::Copy { dst, a } => {
                    let v = self.get(st, a);
                    st.cur.regs[*dst as usize] = v;
                }
                Inst::Rmw { dst, op, w, p, v } => {
                    let pv = self.get(st, p);
                    let a = self.addr(st, &pv)?;
                    let old = self.load_int(st, a, *w)?;
                    let x = self.get(st, v);
                    let new = match op {
                        0 => x,
                        1 => self.bin1(Op::Add, *w, &old, &x),
                        2 => self.bin1(Op::Sub, *w, &old, &x),
                        3 => self.bin1(Op::And, *w, &old, &x),
                        5 => self.bin1(Op::Or, *w, &old, &x),
                        6 => self.bin1(Op::Xor, *w, &old, &x),
                        _ => return Err(End::Error("atomicrmw".into())),
                    };
                    self.store_int(st, a, *w, &new)?;
                    st.cur.regs[*dst as usize] = old;
                }
                Inst::CmpXchg { dst, w, p, e, n } => {
                    let pv = self.get(st, p);
                    let a = self.addr(st, &pv)?;
                    let old = self.load_int(st, a, *w)?;
                    let ev = self.get(st, e);
                    let eq = self.icmp1(0, *w, &old, &ev);
                    let c = self.conc(st, &eq)?;
                    if c == 1 {
                        let nv = self.get(st, n);
                        self.store_int(st, a, *w, &nv)?;
                    }
                    st.cur.regs[*dst as usize] = Val::A(vec![old, Val::C(c)].into());
                }
                Inst::Br { to } => {
                    self.goto(st, &func, *to);
                    return Ok(());
                }
                Inst::CondBr { c, t, f } => {
                    let cv = self.get(st, c);
                    let d = match cv {
                        Val::C(x) => x == 1,
                        Val::S(e) => self.branch(st, e)?,
                        _ => return Err(End::Error("br cond".into())),
                    };
                    self.goto(st, &func, if d { *t } else { *f });
                    return Ok(());
                }
                Inst::Switch { w, v, cases, default } => {
                    let x = self.get(st, v);
                    let to = match x {
                        Val::S(e) => self.switch_sym(st, e, *w, cases, *default)?,
                        x => {
                            let x = Self::cval(&x).unwrap();
                            cases.iter().find(|(c, _)| *c == x).map_or(*default, |(_, b)| *b)
                        }
                    };
                    self.goto(st, &func, to);
                    return Ok(());
                }
                Inst::Ret { v } => {
                    let r = v.as_ref().map(|o| self.get(st, o));
                    st.mem.sp = st.cur.sp;
                    let ret = st.cur.ret;
                    let normal = st.cur.normal;
                    match st.stack.pop() {
                        None => return Err(End::Done),
                        Some(f) => {
                            st.cur = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                            if let (Some(d), Some(r)) = (ret, r) {
                                st.cur.regs[d as usize] = r;
                            }
                            if let Some(b) = normal {
                                let f = st.cur.func.clone();
                                self.goto(st, &f, b);
                            }
                        }
                    }
                    return Ok(());
                }
                Inst::Unreachable => return Err(End::Error("unreachable executed".into())),
                Inst::Unsupported(s) => return Err(End::Error(format!("unsupported: {s}"))),
                Inst::Call { dst, callee, args, argw, retw, retlanes, normal } => {
                    let direct = match callee {
                        Callee::Direct(f) => Some(*f),
                        Callee::Indirect(o) => {
                            let v = self.get(st, o);
                            let a = self.conc(st, &v)?;
                            match self.sh.module.fn_of_addr(a) {
                                Some(f) => Some(f),
                                None => return Err(End::Error(format!("indirect call to {a:#x}"))),
                            }
                        }
                        _ => None,
                    };
                    let mut ext: Option<(Ext, String)> = None;
                    if let Some(fi) = direct {
                        let nm = &self.sh.module.fnames[fi as usize];
                        if let Some(e) = classify_ext(nm) {
                            ext = Some((e, nm.clone()));
                        } else if let Some(f) = self.sh.module.func(fi) {
                            self.res.funcs[fi as usize] = true;
                            let mut regs = vec![Val::C(0); f.nregs as usize];
                            for (i, p) in f.params.iter().enumerate() {
                                if i < args.len() {
                                    regs[*p as usize] = self.get(st, &args[i]);
                                }
                            }
                            st.cur.ip += 1;
                            let nf = Frame {
                                func: f,
                                block: 0,
                                ip: 0,
                                regs,
                                sp: st.mem.sp,
                                ret: *dst,
                                normal: *normal,
                            };
                            let old = std::mem::replace(&mut st.cur, nf);
                            st.stack.push(Rc::new(old));
                            if st.stack.len() > 2000 {
                                return Err(End::Panic("stack overflow: call depth > 2000".into()));
                            }
                            return Ok(());
                        } else {
                            ext = Some((Ext::Unknown, nm.clone()));
                        }
                    }
                    let av: Vec<Val> = args.iter().map(|o| self.get(st, o)).collect();
                    let r = match (callee, ext) {
                        (Callee::Intr(i), _) => self.intrinsic(st, *i, &av, argw, *retw, *retlanes)?,
                        (Callee::Ext(e, n), _) => self.external(st, *e, n, &av, argw, *retw)?,
                        (_, Some((e, n))) => self.external(st, e, &n, &av, argw, *retw)?,
                        _ => unreachable!(),
                    };
                    if let (Some(d), Some(r)) = (dst, r) {
                        st.cur.regs[*d as usize] = r;
                    }
                    if let Some(b) = normal {
                        self.goto(st, &func, *b);
                        return Ok(());
                    }
                }
            }
            st.cur.ip += 1;
        }
    }

    fn goto(&mut self, st: &mut State, f: &Arc<Func>, to: u32) {
        let from = st.cur.block;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if let Some(l) = b.phis.get(&from) {
                if l.len() == 1 {
                    let v = self.get(st, &l[0].1);
                    st.cur.regs[l[0].0 as usize] = v;
                } else {
                    let vs: Vec<Val> = l.iter().map(|(_, o)| self.get(st, o)).collect();
                    for ((d, _), v) in l.iter().zip(vs) {
                        st.cur.regs[*d as usize] = v;
                    }
                }
            }
        }
        st.cur.block = to;
        st.cur.ip = 0;
    }

    fn switch_sym(&mut self, st: &mut State, e: E, w: u8, cases: &[(u128, u32)], default: u32) -> R<u32> {
        // group by destination
        let mut groups: Vec<(u32, E)> = vec![];
        for (c, b) in cases {
            let k = self.a.konst(w, *c);
            let eq = self.a.bin(Op::Eq, e, k);
            if let Some(g) = groups.iter_mut().find(|g| g.0 == *b) {
                g.1 = self.a.bin(Op::Or, g.1, eq);
            } else {
                groups.push((*b, eq));
            }
        }
        for (b, c) in groups {
            if b == default {
                continue;
            }
            if self.branch(st, c)? {
                return Ok(b);
            }
        }
        Ok(default)
    }

    fn reduce(&mut self, op: Op, w: u8, v: &Val) -> Val {
        let l = Self::lanes(v);
        let mut acc = l[0].clone();
        for x in &l[1..] {
            acc = self.bin1(op, w, &acc, x);
        }
        acc
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, a: &[Val], aw: &[u8], retw: u8, retlanes: u32) -> R<Option<Val>> {
        let w = aw.first().copied().unwrap_or(0);
        if retlanes > 0
            && !matches!(i, Intr::Expect | Intr::Memcpy | Intr::Memset)
        {
            // lane-wise
            let ls: Vec<Vec<Val>> = a.iter().map(Self::lanes).collect();
            let mut out = vec![];
            for k in 0..retlanes as usize {
                let av: Vec<Val> = ls
                    .iter()
                    .map(|l| if l.len() == 1 { l[0].clone() } else { l[k].clone() })
                    .collect();
                out.push(self.intrinsic(st, i, &av, aw, retw, 0)?.unwrap());
            }
            return Ok(Some(Val::A(out.into())));
        }
        let minmax = |me: &mut Worker, pred: u8| {
            let c = me.icmp1(pred, w, &a[0], &a[1]);
            me.sel(w, &c, &a[0], &a[1])
        };
        Ok(Some(match i {
            Intr::Nop => return Ok(None),
            Intr::Memcpy => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                if n > 0 {
                    let v = er(st.mem.read_vec(s, n))?;
                    er(st.mem.write_vec(d, &v))?;
                }
                return Ok(None);
            }
            Intr::Memset => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                let b = match &a[1] {
                    Val::C(c) => B::C(*c as u8),
                    Val::S(e) => B::S(*e),
                    _ => return Err(End::Error("memset".into())),
                };
                if n > 0 {
                    er(st.mem.write_vec(d, &vec![b; n as usize]))?;
                }
                return Ok(None);
            }
            Intr::Expect => a[0].clone(),
            Intr::IsConst => Val::C(0),
            Intr::ObjSize => Val::C(!0),
            Intr::ThreadLocal => a[0].clone(),
            Intr::Ptrmask => self.bin1(Op::And, 64, &a[0], &a[1]),
            Intr::Umin => minmax(self, 4),
            Intr::Umax => minmax(self, 2),
            Intr::Smin => minmax(self, 8),
            Intr::Smax => minmax(self, 6),
            Intr::Abs => {
                let z = kval(w, 0);
                let neg = self.bin1(Op::Sub, w, &z, &a[0]);
                let c = self.icmp1(8, w, &a[0], &z);
                self.sel(w, &c, &neg, &a[0])
            }
            Intr::UAddSat => {
                let s = self.bin1(Op::Add, w, &a[0], &a[1]);
                let c = self.icmp1(4, w, &s, &a[0]);
                self.sel(w, &c, &kval(w, !0), &s)
            }
            Intr::USubSat => {
                let s = self.bin1(Op::Sub, w, &a[0], &a[1]);
                let c = self.icmp1(4, w, &a[0], &a[1]);
                self.sel(w, &c, &kval(w, 0), &s)
            }
            Intr::AddO(false) => {
                let s = self.bin1(Op::Add, w, &a[0], &a[1]);
                let c = self.icmp1(4, w, &s, &a[0]);
                Val::A(vec![s, c].into())
            }
            Intr::SubO(false) => {
                let s = self.bin1(Op::Sub, w, &a[0], &a[1]);
                let c = self.icmp1(4, w, &a[0], &a[1]);
                Val::A(vec![s, c].into())
            }
            Intr::AddO(true) | Intr::SubO(true) | Intr::MulO(_) => {
                let op = match i {
                    Intr::AddO(_) => Op::Add,
                    Intr::SubO(_) => Op::Sub,
                    _ => Op::Mul,
                };
                let signed = !matches!(i, Intr::MulO(false));
                let s = self.bin1(op, w, &a[0], &a[1]);
                if w > 64 {
                    let c = match (Self::cval(&a[0]), Self::cval(&a[1])) {
                        (Some(x), Some(y)) if op == Op::Mul && !signed => x.checked_mul(y).is_none(),
                        _ => return Err(End::Error("wide overflow op".into())),
                    };
                    return Ok(Some(Val::A(vec![s, Val::C(c as u64)].into())));
                }
                let k = if signed { CastK::SExt } else { CastK::ZExt };
                let (x, y) = (self.cast1(k, w, 2 * w, &a[0]), self.cast1(k, w, 2 * w, &a[1]));
                let full = self.bin1(op, 2 * w, &x, &y);
                let back = self.cast1(k, w, 2 * w, &s);
                let c = self.icmp1(1, 2 * w, &full, &back);
                Val::A(vec![s, c].into())
            }
            Intr::SAddSat | Intr::SSubSat => return Err(End::Error("signed sat".into())),
            Intr::Ucmp | Intr::Scmp => {
                let lt = self.icmp1(if i == Intr::Ucmp { 4 } else { 8 }, w, &a[0], &a[1]);
                let eq = self.icmp1(0, w, &a[0], &a[1]);
                let t = self.sel(retw, &eq, &kval(retw, 0), &kval(retw, 1));
                self.sel(retw, &lt, &kval(retw, !0), &t)
            }
            Intr::Ctpop => match Self::cval(&a[0]) {
                Some(x) => kval(w, x.count_ones() as u128),
                None => {
                    let mut acc = kval(w, 0);
                    for k in 0..w {
                        let b = self.bit(&a[0], w, k);
                        let z = self.cast1(CastK::ZExt, 1, w, &b);
                        acc = self.bin1(Op::Add, w, &acc, &z);
                    }
                    acc
                }
            },
            Intr::Ctlz | Intr::Cttz => match Self::cval(&a[0]) {
                Some(x) => kval(
                    w,
                    if i == Intr::Ctlz {
                        (x.leading_zeros() - (128 - w as u32)) as u128
                    } else if x == 0 {
                        w as u128
                    } else {
                        x.trailing_zeros() as u128
                    },
                ),
                None => {
                    let mut acc = kval(w, w as u128);
                    for k in 0..w {
                        let (bitpos, val) = if i == Intr::Ctlz { (k, w - 1 - k) } else { (w - 1 - k, w - 1 - k) };
                        let b = self.bit(&a[0], w, bitpos);
                        acc = self.sel(w, &b, &kval(w, val as u128), &acc);
                    }
                    acc
                }
            },
            Intr::Bswap => {
                let n = w / 8;
                if let Some(x) = Self::cval(&a[0]) {
                    kval(w, x.swap_bytes() >> (128 - w as u32))
                } else {
                    let e = self.e(&a[0], w);
                    let mut acc: Option<E> = None;
                    for k in 0..n {
                        let b = self.a.extract(e, 8 * k + 7, 8 * k);
                        acc = Some(match acc {
                            None => b,
                            Some(h) => self.a.concat(h, b),
                        });
                    }
                    let e = acc.unwrap();
                    self.v(e)
                }
            }
            Intr::BitRev => match Self::cval(&a[0]) {
                Some(x) => kval(w, x.reverse_bits() >> (128 - w as u32)),
                None => return Err(End::Error("bitreverse".into())),
            },
            Intr::Fshl | Intr::Fshr => {
                let sh = match Self::cval(&a[2]) {
                    Some(x) => (x % w as u128) as u8,
                    None => {
                        let x = self.bin1(Op::URem, w, &a[2], &kval(w, w as u128));
                        self.conc(st, &x)? as u8
                    }
                };
                if sh == 0 {
                    return Ok(Some(if i == Intr::Fshl { a[0].clone() } else { a[1].clone() }));
                }
                let l = if i == Intr::Fshl { sh } else { w - sh };
                let hi = self.bin1(Op::Shl, w, &a[0], &kval(w, l as u128));
                let lo = self.bin1(Op::LShr, w, &a[1], &kval(w, (w - l) as u128));
                self.bin1(Op::Or, w, &hi, &lo)
            }
            Intr::ReduceAdd => self.reduce(Op::Add, w, &a[0]),
            Intr::ReduceAnd => self.reduce(Op::And, w, &a[0]),
            Intr::ReduceOr => self.reduce(Op::Or, w, &a[0]),
            Intr::ReduceXor => self.reduce(Op::Xor, w, &a[0]),
            Intr::ReduceUMax | Intr::ReduceUMin => {
                let l = Self::lanes(&a[0]);
                let mut acc = l[0].clone();
                for x in &l[1..] {
                    let c = self.icmp1(if i == Intr::ReduceUMax { 2 } else { 4 }, w, &acc, x);
                    acc = self.sel(w, &c, &acc, x);
                }
                acc
            }
            Intr::Pmovmskb => {
                let l = Self::lanes(&a[0]);
                let mut acc = kval(32, 0);
                for (k, x) in l.iter().enumerate() {
                    let b = self.bit(x, 8, 7);
                    let z = self.cast1(CastK::ZExt, 1, 32, &b);
                    let s = self.bin1(Op::Shl, 32, &z, &kval(32, k as u128));
                    acc = self.bin1(Op::Or, 32, &acc, &s);
                }
                acc
            }
            Intr::LoadRelative => {
                let b = self.conc(st, &a[0])?;
                let o = self.conc(st, &a[1])?;
                let v = self.load_int(st, b.wrapping_add(o), 32)?;
                let r = self.cast1(CastK::SExt, 32, 64, &v);
                self.bin1(Op::Add, 64, &r, &Val::C(b))
            }
            Intr::Trap => return Err(End::Panic("trap".into())),
            Intr::FloatOp | Intr::Unsupported => return Err(End::Error("intrinsic".into())),
        }))
    }
    fn bit(&mut self, v: &Val, w: u8, k: u8) -> Val {
        if let Some(x) = Self::cval(v) {
            return Val::C((x >> k) as u64 & 1);
        }
        let e = self.e(v, w);
        let r = self.a.extract(e, k, k);
        self.v(r)
    }
    fn sel(&mut self, w: u8, c: &Val, x: &Val, y: &Val) -> Val {
        match c {
            Val::C(1) => x.clone(),
            Val::C(_) => y.clone(),
            Val::S(e) => {
                let (p, q) = (self.e(x, w), self.e(y, w));
                let r = self.a.ite(*e, p, q);
                self.v(r)
            }
            _ => panic!(),
        }
    }
    fn be(&mut self, b: B) -> E {
        match b {
            B::C(c) => self.a.konst(8, c as u128),
            B::S(e) => e,
        }
    }

    fn fresh(&mut self, st: &mut State) -> E {
        let i = st.nvars;
        st.nvars += 1;
        if st.model.len() <= i {
            let m = Rc::make_mut(&mut st.model);
            while m.len() <= i {
                m.push(0);
            }
        }
        self.a.var(i, 8)
    }

    fn external(&mut self, st: &mut State, x: Ext, name: &str, a: &[Val], aw: &[u8], retw: u8) -> R<Option<Val>> {
        let _ = aw;
        Ok(match x {
            Ext::Malloc => {
                let n = self.conc(st, &a[0])?;
                Some(Val::C(self.malloc(st, n, 16)?))
            }
            Ext::Calloc => {
                let n = self.conc(st, &a[0])?;
                let m = self.conc(st, &a[1])?;
                let p = self.malloc(st, n * m, 16)?;
                Some(Val::C(p))
            }
            Ext::PosixMemalign => {
                let n = self.conc(st, &a[2])?;
                let al = self.conc(st, &a[1])?;
                let pp = self.conc(st, &a[0])?;
                let p = self.malloc(st, n, al)?;
                er(st.mem.write_conc(pp, 8, p))?;
                Some(Val::C(0))
            }
            Ext::Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let q = self.malloc(st, n, 16)?;
                if p != 0 {
                    let old = er(st.mem.read_conc(p - 8, 8))?.unwrap_or(0);
                    let k = old.min(n);
                    if k > 0 {
                        let v = er(st.mem.read_vec(p, k))?;
                        er(st.mem.write_vec(q, &v))?;
                    }
                }
                Some(Val::C(q))
            }
            Ext::Free => None,
            Ext::Memcmp | Ext::Bcmp => {
                let n = self.conc(st, &a[2])?;
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let (u, v) = (er(st.mem.read_vec(p, n))?, er(st.mem.read_vec(q, n))?);
                if x == Ext::Bcmp {
                    let mut eq = self.a.konst(1, 1);
                    for i in 0..n as usize {
                        let (s, t) = (self.be(u[i]), self.be(v[i]));
                        let c = self.a.bin(Op::Eq, s, t);
                        if self.a.cv(c) == Some(0) {
                            return Ok(Some(Val::C(1)));
                        }
                        eq = self.a.bin(Op::And, eq, c);
                    }
                    let ne = self.a.not(eq);
                    let r = self.a.zext(ne, 32);
                    Some(self.v(r))
                } else {
                    let mut acc = self.a.konst(32, 0);
                    let (m1, p1) = (self.a.konst(32, !0), self.a.konst(32, 1));
                    for i in (0..n as usize).rev() {
                        let (s, t) = (self.be(u[i]), self.be(v[i]));
                        let eq = self.a.bin(Op::Eq, s, t);
                        let lt = self.a.bin(Op::Ult, s, t);
                        let d = self.a.ite(lt, m1, p1);
                        acc = self.a.ite(eq, acc, d);
                    }
                    Some(self.v(acc))
                }
            }
            Ext::Memcpy => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                if n > 0 {
                    let v = er(st.mem.read_vec(s, n))?;
                    er(st.mem.write_vec(d, &v))?;
                }
                Some(Val::C(d))
            }
            Ext::Memset => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                let c = self.conc(st, &a[1])?;
                if n > 0 {
                    er(st.mem.write_vec(d, &vec![B::C(c as u8); n as usize]))?;
                }
                Some(Val::C(d))
            }
            Ext::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    match er(st.mem.read(p + n))? {
                        B::C(0) => break,
                        B::C(_) => n += 1,
                        B::S(e) => {
                            let z = self.a.konst(8, 0);
                            let c = self.a.bin(Op::Eq, e, z);
                            if self.branch(st, c)? {
                                break;
                            }
                            n += 1;
                        }
                    }
                }
                Some(Val::C(n))
            }
            Ext::Memchr | Ext::Memrchr => {
                let n = self.conc(st, &a[2])?;
                let p = self.conc(st, &a[0])?;
                let c = match &a[1] {
                    Val::C(c) => self.a.konst(8, *c as u128 & 255),
                    Val::S(e) => self.a.trunc(*e, 8),
                    _ => return Err(End::Error("memchr".into())),
                };
                let mut r = 0;
                for i in 0..n {
                    let i = if x == Ext::Memchr { i } else { n - 1 - i };
                    let b = er(st.mem.read(p + i))?;
                    let b = self.be(b);
                    let eq = self.a.bin(Op::Eq, b, c);
                    if self.branch(st, eq)? {
                        r = p + i;
                        break;
                    }
                }
                Some(Val::C(r))
            }
            Ext::Abort => return Err(End::Panic("abort".into())),
            Ext::Syscallish => Some(Val::C(0)),
            Ext::HashOne => Some(Val::C(0x0123_4567_89ab_cdef)),
            Ext::RandomKeys => Some(Val::A(vec![Val::C(1), Val::C(2)].into())),
            Ext::Panic => {
                let loc = match a.last() {
                    Some(Val::C(p)) => {
                        let f = er(st.mem.read_conc(*p, 8))?.unwrap_or(0);
                        let l = er(st.mem.read_conc(*p + 8, 8))?.unwrap_or(0);
                        let line = er(st.mem.read_conc(*p + 16, 4))?.unwrap_or(0);
                        if l < 500 {
                            let s = self.cstr(st, f, l)?;
                            format!("{s}:{line}")
                        } else {
                            "?".into()
                        }
                    }
                    _ => "?".into(),
                };
                return Err(End::Panic(loc));
            }
            Ext::PanicOther => return Err(End::Panic(name.to_string())),
            Ext::SymNative => Some(Val::C(0)),
            Ext::SymTier => Some(Val::C(self.sh.cfg.tier)),
            Ext::SymBytes => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let np = self.conc(st, &a[2])?;
                let nl = self.conc(st, &a[3])?;
                let nm = self.cstr(st, np, nl)?;
                let first = st.nvars;
                for i in 0..n {
                    let e = self.fresh(st);
                    er(st.mem.write(p + i, B::S(e)))?;
                }
                Rc::make_mut(&mut st.inputs).push(Input::Bytes(nm, first, n as usize));
                None
            }
            Ext::SymChoice => {
                // a fresh 16-bit value below n, split into one state per value
                let n = self.conc(st, &a[0])?;
                let np = self.conc(st, &a[1])?;
                let nl = self.conc(st, &a[2])?;
                let first = st.nvars;
                let (lo, hi) = (self.a.var(first, 8), self.a.var(first + 1, 8));
                let e = self.a.concat(hi, lo);
                let k = self.a.konst(16, n as u128);
                let c = self.a.bin(Op::Ult, e, k);
                if n == 0 {
                    return Err(End::AssumeFail);
                }
                // value 0 always satisfies the bound, and unseen variables are 0 in the model
                if st.model.len() < first + 2 {
                    let m = Rc::make_mut(&mut st.model);
                    while m.len() < first + 2 {
                        m.push(0);
                    }
                }
                self.add(st, c);
                let v = self.concretize(st, e)?;
                let nm = self.cstr(st, np, nl)?;
                st.nvars += 2;
                for v in [first, first + 1] {
                    st.fixed[v / 64] |= 1 << (v % 64);
                }
                Rc::make_mut(&mut st.inputs).push(Input::Choice(nm, first, n));
                Some(Val::C(v as u64))
            }
            Ext::SymAssume => {
                match &a[0] {
                    Val::C(0) => return Err(End::AssumeFail),
                    Val::C(_) => {}
                    Val::S(e) => {
                        let e = *e;
                        let e = if self.a.w(e) == 1 {
                            e
                        } else {
                            let w = self.a.w(e);
                            let z = self.a.konst(w, 0);
                            let q = self.a.bin(Op::Eq, e, z);
                            self.a.not(q)
                        };
                        match self.a.cv(e) {
                            Some(0) => return Err(End::AssumeFail),
                            Some(_) => return Ok(None),
                            None => {}
                        }
                        // while replaying a prefix the supplied model already satisfies it
                        if self.eval(st, e) != 1 {
                            match self.feasible(st, e)? {
                                None => return Err(End::AssumeFail),
                                Some(m) => {
                                    st.model = m;
                                    self.next_model += 1;
                                    st.model_id = self.next_model;
                                }
                            }
                        }
                        self.add(st, e);
                    }
                    _ => return Err(End::Error("assume".into())),
                }
                None
            }
            Ext::SymCheck => {
                let lp = self.conc(st, &a[1])?;
                let ll = self.conc(st, &a[2])?;
                let label = self.cstr(st, lp, ll)?;
                let replaying = !st.forced.is_empty();
                if !replaying {
                    self.res.checks += 1;
                    *self.res.check_labels.entry(label.clone()).or_default() += 1;
                }
                match &a[0] {
                    Val::C(0) => {
                        let rec = self.record(st, &st.model.clone(), &label);
                        self.violation(label.clone(), rec);
                        return Err(End::Violation(label));
                    }
                    Val::C(_) => {
                        if !replaying {
                            self.res.checks_trivial += 1;
                        }
                    }
                    Val::S(e) => {
                        let e = if self.a.w(*e) == 1 {
                            *e
                        } else {
                            let w = self.a.w(*e);
                            let z = self.a.konst(w, 0);
                            let q = self.a.bin(Op::Eq, *e, z);
                            self.a.not(q)
                        };
                        if !replaying {
                            self.res.checks_solver += 1;
                            let ne = self.a.not(e);
                            if let Some(m) = self.feasible(st, ne)? {
                                let rec = self.record(st, &m, &label);
                                self.violation(label.clone(), rec);
                                match self.feasible(st, e)? {
                                    None => return Err(End::Violation(label)),
                                    Some(m) => {
                                        st.model = m;
                                        self.next_model += 1;
                                        st.model_id = self.next_model;
                                    }
                                }
                            }
                        }
                        self.add(st, e);
                    }
                    _ => return Err(End::Error("check".into())),
                }
                None
            }
            Ext::SymReach => {
                let lp = self.conc(st, &a[0])?;
                let ll = self.conc(st, &a[1])?;
                let l = self.cstr(st, lp, ll)?;
                if !st.reach.contains(&l) {
                    Rc::make_mut(&mut st.reach).push(l);
                }
                None
            }
            Ext::SymObserve => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let np = self.conc(st, &a[2])?;
                let nl = self.conc(st, &a[3])?;
                let nm = self.cstr(st, np, nl)?;
                let v = if n > 0 { er(st.mem.read_vec(p, n))? } else { vec![] };
                Rc::make_mut(&mut st.obs).push((nm, v));
                None
            }
            Ext::SymConc => {
                // split on every byte of a region
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                for i in 0..n {
                    if let B::S(e) = er(st.mem.read(p + i))? {
                        self.concretize(st, e)?;
                    }
                }
                for i in 0..n {
                    if let B::S(e) = er(st.mem.read(p + i))? {
                        let v = self.eval(st, e) as u8;
                        er(st.mem.write(p + i, B::C(v)))?;
                    }
                }
                None
            }
            Ext::SymNote | Ext::SymIntern => None,
            Ext::Unknown => {
                let _ = retw;
                return Err(End::Error(format!("call to unknown external {name}")));
            }
        })
    }
}
