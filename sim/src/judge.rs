//! Runs a case and decides whether what happened violates its property.
use crate::json::*;
use crate::model::*;
use crate::plan::*;
use crate::props;
use crate::rt::*;
use crate::ts;
use crate::world::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

/// Thread 0 is the harness's, 1 the root of the run, 2 the first client
const WRITER: usize = 2;

#[derive(Clone)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    /// one process, or (C09) the processes of a story in order
    pub plans: Vec<Plan>,
    pub inputs: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct V {
    pub class: String,
    pub msg: String,
}
fn v(class: &str, msg: String) -> V {
    V { class: class.into(), msg }
}

pub fn make(prop: &str, seed: u64) -> Case {
    if prop == "C09" {
        let (plans, inputs) = props::story(seed);
        Case { prop: prop.into(), seed, plans, inputs }
    } else {
        Case { prop: prop.into(), seed, plans: vec![props::plan(prop, seed)], inputs: vec![] }
    }
}

#[derive(Default)]
pub struct Acc(pub BTreeMap<String, u64>);
impl Acc {
    pub fn add(&mut self, k: &str, x: u64) {
        match self.0.get_mut(k) {
            Some(y) => *y += x,
            None => {
                self.0.insert(k.into(), x);
            }
        }
    }
    pub fn max(&mut self, k: &str, x: u64) {
        let e = self.0.entry(k.into()).or_insert(0);
        *e = (*e).max(x);
    }
    pub fn get(&self, k: &str) -> u64 {
        self.0.get(k).copied().unwrap_or(0)
    }
}

pub struct Solo {
    end: End,
    recs: Vec<(u32, Rec)>,
    maxstep: u64,
    /// the longest call of the operation itself, without the shared objects' builds
    own: u64,
}

pub struct Ctx {
    shm: *mut Shm,
    solos: HashMap<String, Rc<Solo>>,
    pub acc: Acc,
    pub ileaves: HashSet<u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<J>,
    pub lasthash: u64,
    pub laststeps: u64,
    pub lastmaxop: u64,
    pub last: Option<Outcome>,
    /// growth seen in a run too short to call it a leak
    pub suspect: bool,
}

/// Sessions in the run that settles whether growth goes on
const LONG: usize = 20;

fn short(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    if t.chars().count() > 240 {
        let a: String = t.chars().take(240).collect();
        format!("{}…", a)
    } else {
        t.into_owned()
    }
}
fn show(r: &Rec) -> String {
    match r.kind {
        0 => format!("returned {:?}", short(&r.data)),
        1 => format!("panicked with {:?}", short(&r.data)),
        _ => "was skipped".into(),
    }
}
fn op_name(o: &Op) -> &'static str {
    match o {
        Op::Parse(..) => "parse",
        Op::Lex(..) => "lex",
        Op::Nfa(..) => "nfa",
        Op::Dfa(..) => "dfa",
        Op::Gen(..) => "gen",
        Op::Build { .. } => "build",
        Op::MkLex { .. } => "mklex",
        Op::MkRe { .. } => "mkre",
        Op::Publish { .. } => "publish",
        Op::Use { .. } => "use",
        Op::Disk { .. } => "disk",
        Op::Drop(..) => "drop",
        Op::Sleep(..) => "sleep",
    }
}
/// What is in record `sub` of an operation
#[derive(PartialEq, Clone, Copy)]
enum What {
    Build,
    Parse,
    Lex,
    Match,
    Gen,
}
fn what(o: &Op, sub: u32) -> What {
    if sub >= GEN_STATUS && sub <= GEN_PARSE {
        return What::Gen;
    }
    match o {
        Op::Parse(..) => What::Parse,
        Op::Lex(..) => What::Lex,
        Op::Nfa(..) | Op::Dfa(..) => What::Match,
        Op::Gen(..) => What::Gen,
        Op::MkLex { .. } if sub > 0 => What::Lex,
        Op::MkRe { .. } if sub > 0 => What::Match,
        _ if sub > 0 => What::Parse,
        _ => What::Build,
    }
}
fn is_lexical(o: &Op) -> bool {
    matches!(o, Op::Lex(..) | Op::Nfa(..) | Op::Dfa(..) | Op::MkLex { .. } | Op::MkRe { .. })
}
/// Does the property speak about this result?
fn concerns(prop: &str, o: &Op, w: What) -> bool {
    match prop {
        "C01" => w == What::Parse,
        "C02" => is_lexical(o),
        "C03" => w == What::Gen,
        "C04" => !is_lexical(o) && (w == What::Build || w == What::Parse),
        "C05" | "C06" => true,
        _ => false,
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            shm: new_shm(),
            solos: HashMap::new(),
            acc: Acc::default(),
            ileaves: HashSet::new(),
            distinct: HashSet::new(),
            samples: vec![],
            lasthash: 0,
            laststeps: 0,
            lastmaxop: 0,
            last: None,
            suspect: false,
        }
    }

    /// Every operation of the plan alone in its own process (those on one object in copies of a process that has built
    /// that object and nothing else)
    fn solos(&mut self, p: &Plan, exps: &Exps) -> HashMap<(usize, usize), Rc<Solo>> {
        let mut out = HashMap::new();
        if self.solos.len() > 4000 {
            self.solos.clear();
        }
        let mut groups: Vec<(String, Plan, Vec<(usize, usize, String)>)> = vec![];
        let mut waiting: Vec<(usize, usize, String)> = vec![];
        for c in 0..p.clients.len() {
            for k in 0..p.clients[c].len() {
                if matches!(p.clients[c][k], Op::Sleep(_) | Op::Drop(_)) {
                    continue;
                }
                let mut a = p.alone(c, k);
                let key = a.to_json().dump();
                if let Some(s) = self.solos.get(&key) {
                    out.insert((c, k), s.clone());
                    continue;
                }
                if groups.iter().any(|g| g.2.iter().any(|x| x.2 == key)) {
                    waiting.push((c, k, key));
                    continue;
                }
                let cl = std::mem::take(&mut a.clients);
                let gk = if a.objs.is_empty() { key.clone() } else { a.to_json().dump() };
                match groups.iter_mut().find(|g| g.0 == gk) {
                    Some(g) => {
                        g.1.clients.extend(cl);
                        g.2.push((c, k, key))
                    }
                    None => {
                        a.clients = cl;
                        groups.push((gk, a, vec![(c, k, key)]))
                    }
                }
            }
        }
        for (_, mut a, ops) in groups {
            // the expectations carry over, so that results are written down the same way
            let mut e = Exps::new();
            for ((ec, ek, sub), x) in exps {
                if let Some(i) = ops.iter().position(|o| *ec == o.0 as u32 && *ek == o.1 as u32) {
                    e.insert((i as u32, 0, *sub), x.clone());
                }
            }
            a.each = ops.len() > 1;
            let os = if a.each { run_each(&a, &e, self.shm) } else { vec![run(&a, &e, self.shm)] };
            for (i, (o, (c, k, key))) in os.into_iter().zip(ops).enumerate() {
                self.acc.add("solo", 1);
                let mut recs: Vec<(u32, Rec)> = vec![];
                let mut maxstep = o.maxop;
                let mut own = 0;
                for ((rc, _, sub), r) in o.recs {
                    maxstep = maxstep.max(r.steps);
                    if rc == i as u32 {
                        own = own.max(r.steps);
                        recs.push((sub, r));
                    }
                }
                recs.sort_by_key(|r| r.0);
                let s = Rc::new(Solo { end: o.end, recs, maxstep, own });
                self.solos.insert(key, s.clone());
                out.insert((c, k), s);
            }
        }
        for (c, k, key) in waiting {
            out.insert((c, k), self.solos[&key].clone());
        }
        out
    }

    /// eval, and where that leaves a suspicion, eval of the longer case that settles it
    pub fn judge(&mut self, case: Case) -> (Case, Option<V>) {
        let v = self.eval(&case, true);
        if v.is_some() || !self.suspect {
            return (case, v);
        }
        self.acc.add("j:leak-suspicions-settled", 1);
        let mut c = case.clone();
        c.plans[0].rounds = LONG;
        c.plans[0].sched.max_switches = c.plans[0].sched.max_switches.saturating_mul(8);
        c.plans[0].step_limit = c.plans[0].step_limit.saturating_mul(6);
        match self.eval(&c, false) {
            Some(v) => (c, Some(v)),
            None => {
                self.eval(&case, false);
                (case, None)
            }
        }
    }

    /// Some violation, or None. Counts go to the statistics if `count`.
    pub fn eval(&mut self, case: &Case, count: bool) -> Option<V> {
        self.lasthash = 0;
        self.laststeps = 0;
        self.lastmaxop = 0;
        self.last = None;
        self.suspect = false;
        if count {
            self.acc.add("cases", 1);
        }
        if case.prop == "C09" {
            self.story(case, count)
        } else {
            self.single(case, count)
        }
    }

    fn tally(&mut self, p: &Plan, o: &Outcome, count: bool) {
        self.lasthash = hash2(self.lasthash, o.loghash);
        self.laststeps += o.steps;
        self.lastmaxop = self.lastmaxop.max(o.maxop);
        if !count {
            return;
        }
        let a = &mut self.acc;
        a.add("runs", 1);
        a.add("steps", o.steps);
        a.add("now", o.now);
        a.max("maxop", o.maxop);
        a.max("maxsteps", o.steps);
        for i in 0..NWF {
            a.add(&format!("f:{}", WNAMES[i]), o.st.fired[i]);
        }
        a.add("f:stall", o.st.stalls);
        a.add("f:spurious-wakeup", o.st.spurious);
        a.add("f:clock-jump", o.st.clock_jumps);
        a.add("f:failed-allocation", o.ooms);
        a.add("f:program-elsewhere-in-memory", p.env.elsewhere as u64);
        a.add("f:crash", (matches!(o.end, End::Crashed) && !o.oom_end) as u64);
        a.add("f:odd-environment", o.st.getenvs.min(1) * !p.env.vars.is_empty() as u64);
        a.add("s:switches", o.st.switches);
        a.add("s:preemptions", o.st.preempts);
        a.add("s:shared-accesses", o.st.hot);
        a.add("s:preemptions-at-shared-accesses", o.st.hot_preempts);
        a.add("s:futex-waits", o.st.fwaits);
        a.add("s:timeouts", o.st.timeouts);
        a.add("s:threads", o.st.threads);
        a.add("s:allocations", o.st.allocs);
        a.add("s:writes", o.st.writes);
        a.add("s:clock-reads", o.st.clocks);
        a.add("s:random-reads", o.st.rands);
        a.add(&format!("m:{}", mode_name(p.sched.mode)), 1);
        if o.st.switches > 0 {
            self.ileaves.insert(o.ileave);
        }
        let faults: u64 = o.st.fired.iter().sum::<u64>() + o.st.stalls + o.st.spurious + o.st.clock_jumps;
        let nontrivial = !o.recs.is_empty() && (o.st.preempts > 0 || faults > 0 || matches!(o.end, End::Crashed) || p.rounds > 1);
        if nontrivial {
            self.distinct.insert(o.loghash);
        }
        if self.samples.len() < 1 && nontrivial && p.nops() <= 12 {
            self.samples.push(obj(vec![
                ("clients", arr(&p.clients, |c| arr(c, |o| s(op_name(o))))),
                ("grammars", arr(&p.grams, |g| s(g.text()))),
                ("schedule", s(format!("{} seed {} ({} pre-emptions, {} switches)", mode_name(p.sched.mode), p.sched.seed, o.st.preempts, o.st.switches))),
                ("faults", n(faults)),
                ("steps", n(o.steps)),
                ("run_log_hash", s(format!("{:016x}", o.loghash))),
            ]));
        }
    }

    fn ended(&self, prop: &str, o: &Outcome) -> Option<V> {
        let ops: Vec<String> = o.cur_op.iter().enumerate().filter(|(_, x)| **x >= 0).map(|(t, x)| format!("thread {} in operation {}", t, x)).collect();
        let at = if ops.is_empty() { String::new() } else { format!(" ({})", ops.join(", ")) };
        match &o.end {
            End::Done | End::Crashed => None,
            // C08 has to say how much a call may take, not the others
            End::Violation(c, m) if prop == "C07" && c == "no-progress" && m.starts_with("run exceeded") => None,
            End::Signal(x) if prop == "C07" && (*x == libc::SIGALRM || *x == libc::SIGPROF) => None,
            End::Violation(c, m) => Some(v(c, m.clone())),
            End::Signal(libc::SIGKILL) => None,
            End::Signal(x) if *x == libc::SIGALRM || *x == libc::SIGPROF => Some(v("hang", format!("the process did not end{}", at))),
            End::Signal(x) => Some(v("crash", format!("the process died of signal {}{}", x, at))),
            End::Exit(x) => Some(v("exit", format!("the process exited with status {}{}", x, at))),
        }
    }

    fn single(&mut self, case: &Case, count: bool) -> Option<V> {
        let prop = case.prop.as_str();
        let mut p = case.plans[0].clone();
        let ms = models(&p);
        let exps = expectations(&p, &ms);
        let with_solo = !matches!(prop, "C07");
        let mut solos: HashMap<(usize, usize), Rc<Solo>> = HashMap::new();
        if with_solo {
            let mut top = 0;
            solos = self.solos(&p, &exps);
            for c in 0..p.clients.len() {
                for k in 0..p.clients[c].len() {
                    let so = match solos.get(&(c, k)) {
                        Some(s) => s,
                        None => continue,
                    };
                    match &so.end {
                        End::Done => (),
                        End::Violation(cl, m) => return Some(v(cl, format!("operation {} of client {} alone: {}", k, c, m))),
                        End::Signal(libc::SIGKILL) => return None,
                        End::Signal(x) if *x == libc::SIGALRM || *x == libc::SIGPROF => {
                            return Some(v("hang", format!("operation {} ({}) of client {} alone did not end", k, op_name(&p.clients[c][k]), c)))
                        }
                        e => return Some(v("crash", format!("operation {} ({}) of client {} alone: {:?}", k, op_name(&p.clients[c][k]), c, e))),
                    }
                    top = top.max(so.maxstep);
                }
            }
            // C08 bounds what a call may take; elsewhere this only ends the run
            let (f, more) = if prop == "C08" { (20, 2_000_000) } else { (200, 50_000_000) };
            p.op_limits = (0..p.clients.len())
                .map(|c| {
                    (0..p.clients[c].len())
                        .map(|k| match (&p.clients[c][k], solos.get(&(c, k))) {
                            (Op::Publish { .. } | Op::Use { .. } | Op::Disk { .. }, _) | (_, None) => u64::MAX,
                            (_, Some(s)) => f * s.own + more,
                        })
                        .collect()
                })
                .collect();
            if prop == "C08" && p.op_limit == u64::MAX {
                // the builds of the shared objects are calls too
                let mut a = p.calm();
                a.clients.clear();
                let o = run(&a, &Exps::new(), self.shm);
                match self.ended(prop, &o) {
                    Some(x) => return Some(x),
                    None => top = top.max(o.maxop),
                }
                p.op_limit = 20 * top + 2_000_000;
            }
        }
        let o = run(&p, &exps, self.shm);
        self.tally(&p, &o, count);
        let verdict = self.decide(prop, &p, &exps, &solos, &o, count);
        self.last = Some(o);
        verdict
    }

    fn decide(&mut self, prop: &str, p: &Plan, exps: &Exps, solos: &HashMap<(usize, usize), Rc<Solo>>, o: &Outcome, count: bool) -> Option<V> {
        if let Some(x) = self.ended(prop, o) {
            return Some(x);
        }
        // A call that is refused memory may panic or end the process; what was answered until then still counts
        if !matches!(o.end, End::Done) && !o.oom_end {
            return None;
        }
        if prop == "C07" {
            // Something made once and kept (std's output buffer, a lazy static) may be made in any session; a leak
            // is growth that goes on. Growth in a short run is suspicious, and decided by a long one.
            let (mut top, mut grew) = (o.mem.get(1).map(|x| (x[0], x[1])).unwrap_or((0, 0)), 0);
            for x in o.mem.iter().skip(2) {
                if x[0] > top.0 || x[1] > top.1 {
                    grew += 1;
                    top = (x[0].max(top.0), x[1].max(top.1));
                }
            }
            if grew > 0 && p.rounds < LONG {
                self.suspect = true;
            } else if grew >= 3 {
                return Some(v("leak", format!("the heap went on growing while a session was repeated: it reached a new maximum after {} of {} sessions (blocks and bytes held after each: {:?})", grew, o.mem.len(), o.mem)));
            }
            if count {
                self.acc.add("j:sessions", o.mem.len() as u64);
            }
            return None;
        }
        if prop == "C08" {
            if count {
                self.acc.add("j:calls-finished", o.recs.len() as u64);
            }
            return None;
        }
        // shared objects
        for (i, ob) in p.objs.iter().enumerate() {
            let r = o.recs.get(&(OBJ, i as u32, 0));
            let concerned = match (prop, ob) {
                ("C01", Obj::Parser(_)) | ("C04", Obj::Parser(_)) | ("C02", Obj::Lexer(_)) | ("C02", Obj::Re(_)) => true,
                _ => false,
            };
            if !concerned {
                continue;
            }
            match r {
                None if o.oom_end => (),
                None => return Some(v("lost", format!("the build of shared object {} has no outcome", i))),
                Some(r) => {
                    if let Some(Exp { builds: Some(b), .. }) = exps.get(&(OBJ, i as u32, 0)) {
                        if count {
                            self.acc.add("j:builds-against-model", 1);
                        }
                        if *b != (r.kind == 0) {
                            return Some(v("build", format!("the build of shared object {} {}, but the model {}", i, show(r), if *b { "builds" } else { "refuses it" })));
                        }
                    }
                }
            }
        }
        for (c, ops) in p.clients.iter().enumerate() {
            for (k, op) in ops.iter().enumerate() {
                let so = match solos.get(&(c, k)) {
                    Some(s) => s,
                    None => continue,
                };
                let dropped = |x: &usize| ops[..k].contains(&Op::Drop(*x));
                if let Some(r) = o.recs.get(&(c as u32, k as u32, 0)) {
                    if r.kind == 2 {
                        match op {
                            Op::Use { .. } => continue,
                            Op::Parse(x, _) | Op::Lex(x, _) | Op::Nfa(x, _) | Op::Dfa(x, _) | Op::Gen(x) if dropped(x) => continue,
                            _ => (),
                        }
                    }
                }
                let starved = o.ooms > 0 && o.recs.iter().any(|((a, b, _), r)| *a == c as u32 && *b == k as u32 && r.kind == 3);
                for (sub, want) in &so.recs {
                    let w = what(op, *sub);
                    if matches!(op, Op::Use { .. }) && *sub == 0 {
                        continue;
                    }
                    if !concerns(prop, op, w) {
                        continue;
                    }
                    let name = format!("operation {} ({}{}) of client {}", k, op_name(op), if *sub > 0 && *sub < GEN_STATUS { format!(", part {}", sub) } else { String::new() }, c);
                    let got = match o.recs.get(&(c as u32, k as u32, *sub)) {
                        Some(r) if r.kind == 3 => continue,
                        Some(r) => r,
                        None if starved || o.oom_end => continue,
                        None => {
                            return Some(v("lost", format!("{} has no outcome; alone it {}", name, show(want))));
                        }
                    };
                    if got.kind != want.kind || got.data != want.data {
                        if w == What::Gen && got.kind == 0 && want.kind == 0 {
                            let at = got.data.iter().zip(&want.data).position(|(a, b)| a != b).unwrap_or(got.data.len().min(want.data.len()));
                            let cut = |d: &[u8]| String::from_utf8_lossy(&d[at.saturating_sub(30).min(d.len())..(at + 60).min(d.len())]).into_owned();
                            return Some(v(
                                "artifact-differs",
                                format!("{}: the {} artifact differs at byte {} from that of the same grammar generated alone: {:?} instead of {:?}", name, if *sub == GEN_LEX { "lexer" } else { "parser" }, at, cut(&got.data), cut(&want.data)),
                            ));
                        }
                        return Some(v("differs", format!("{} {}, but alone in a fresh process it {}", name, show(got), show(want))));
                    }
                    if count {
                        self.acc.add(
                            match w {
                                What::Gen => "j:artifacts-against-reference-run",
                                What::Build => "j:builds-against-reference-run",
                                _ => "j:answers-against-reference-run",
                            },
                            1,
                        );
                    }
                    let e = match exps.get(&(c as u32, k as u32, *sub)) {
                        Some(e) => e,
                        None => continue,
                    };
                    if let Some(x) = self.against_model(prop, p, op, w, *sub, e, got, &name, count) {
                        return Some(x);
                    }
                }
            }
        }
        None
    }

    fn against_model(&mut self, prop: &str, p: &Plan, op: &Op, w: What, _sub: u32, e: &Exp, got: &Rec, name: &str, count: bool) -> Option<V> {
        if prop == "C03" || prop == "C06" || got.kind == 2 {
            return None;
        }
        let mut bump = |k: &str| {
            if count {
                self.acc.add(k, 1)
            }
        };
        match w {
            What::Build => {
                let b = e.builds?;
                if prop == "C05" && b {
                    // that good grammars build is for C04 to say
                    return None;
                }
                bump("j:builds-against-model");
                if b != (got.kind == 0) {
                    let g = match op {
                        Op::Build { g, .. } | Op::Publish { g, .. } | Op::Disk { g, .. } => p.grams[*g].text(),
                        Op::MkRe { r, .. } => p.res[*r].clone(),
                        _ => String::new(),
                    };
                    return Some(v("build", format!("{} {}, but the model {} {:?}", name, show(got), if b { "builds" } else { "refuses" }, g)));
                }
            }
            What::Parse | What::Match => {
                let a = e.accept?;
                if prop == "C05" && (a || w == What::Match) {
                    return None;
                }
                bump(if a { "j:acceptances-against-model" } else { "j:refusals-against-model" });
                let ok = if w == What::Parse {
                    if a {
                        got.kind == 0 && got.data.is_empty()
                    } else {
                        got.kind == 1
                    }
                } else {
                    got.kind == 0 && got.data == a.to_string().as_bytes()
                };
                if !ok {
                    return Some(v("verdict", format!("{} {}, but the input {:?} is {}", name, show(got), input_of(op, _sub), if a { "one to accept" } else { "one to refuse" })));
                }
            }
            What::Lex => {
                let t = e.toks.as_ref()?;
                if prop == "C05" {
                    return None;
                }
                bump("j:token-lists-against-model");
                if got.kind != 0 || got.data.first() != Some(&b'E') {
                    return Some(v("tokens", format!("{} on {:?} {}, but the tokens are {:?}", name, input_of(op, _sub), show(got), t)));
                }
            }
            What::Gen => (),
        }
        None
    }

    fn story(&mut self, case: &Case, count: bool) -> Option<V> {
        let g = match case.plans[0].grams.first() {
            Some(g) => g.clone(),
            None => return None,
        };
        let m = match M::new(&g) {
            Some(m) if m.builds == Some(true) => m,
            _ => return None,
        };
        let mut disk: [Option<Vec<u8>>; 2] = [None, None];
        for (i, p0) in case.plans.iter().enumerate() {
            let mut p = p0.clone();
            let last = i + 1 == case.plans.len();
            let missing: u8 = (disk[0].is_none() as u8) | ((disk[1].is_none() as u8) << 1);
            for o in p.clients[0].iter_mut() {
                if let Op::Disk { mask, .. } = o {
                    if *mask == 0 {
                        *mask = if missing != 0 { missing } else { 1 + (hash2(case.seed, i as u64) % 2) as u8 };
                    }
                    if last {
                        *mask |= missing;
                    }
                }
            }
            // nothing here is judged one by one
            let exps = Exps::new();
            if let Some((t, f)) = p.crash {
                if t == usize::MAX {
                    p.crash = None;
                    let o = run(&p, &exps, self.shm);
                    self.acc.add("solo", 1);
                    if let Some(x) = self.ended("C09", &o) {
                        self.lasthash = hash2(self.lasthash, o.loghash);
                        return Some(x);
                    }
                    let life = o.own[WRITER].max(1);
                    let at = if f < 350_000 || o.disk_at[0] == 0 {
                        1 + f * life / 350_000
                    } else {
                        o.disk_at[0] + (f - 350_000) * (o.disk_at[1] + 3 - o.disk_at[0]) / 650_000
                    };
                    p.crash = Some((WRITER, at));
                }
            }
            let o = run(&p, &exps, self.shm);
            self.tally(&p, &o, count);
            if let Some(x) = self.ended("C09", &o) {
                return Some(x);
            }
            if matches!(o.end, End::Signal(_)) {
                return None;
            }
            for k in 0..2 {
                if o.disk[k].is_some() {
                    disk[k] = o.disk[k].clone();
                } else if o.torn[k] {
                    disk[k] = None;
                    if count {
                        self.acc.add("f:torn-artifact", 1);
                    }
                }
            }
            if matches!(o.end, End::Done) {
                for (k, op) in p.clients[0].iter().enumerate() {
                    if let Op::Disk { .. } = op {
                        for sub in [0, GEN_STATUS] {
                            match o.recs.get(&(0, k as u32, sub)) {
                                Some(r) if r.kind == 0 => (),
                                r => return Some(v("generation-failed", format!("process {}: generating the artifacts of a good grammar {}", i, r.map_or("was lost".into(), show)))),
                            }
                        }
                    }
                }
            }
        }
        let (l, p) = match (&disk[0], &disk[1]) {
            (Some(l), Some(p)) => (String::from_utf8_lossy(l).into_owned(), String::from_utf8_lossy(p).into_owned()),
            _ => return None,
        };
        match ts::check_pair(&l, &p, &g, &m, &case.inputs) {
            Ok((y, nn)) => {
                if count {
                    self.acc.add("j:inputs-accepted-by-the-pair", y);
                    self.acc.add("j:inputs-refused-by-the-pair", nn);
                    self.acc.add("j:pairs", 1);
                }
                None
            }
            Err((c, m)) => Some(v(&c, m)),
        }
    }
}

fn input_of(o: &Op, sub: u32) -> String {
    match o {
        Op::Parse(_, t) | Op::Lex(_, t) | Op::Nfa(_, t) | Op::Dfa(_, t) => t.clone(),
        Op::Build { inputs, .. } | Op::MkLex { inputs, .. } | Op::Use { inputs, .. } => inputs.get((sub as usize).saturating_sub(1)).cloned().unwrap_or_default(),
        Op::MkRe { inputs, .. } => inputs.get((sub as usize).saturating_sub(1) / 2).cloned().unwrap_or_default(),
        _ => String::new(),
    }
}

pub fn replay_json(c: &Case, x: &V, index: u64, base: u64, hash: u64) -> J {
    obj(vec![
        ("prop", s(&*c.prop)),
        ("class", s(&*x.class)),
        ("msg", s(&*x.msg)),
        ("base_seed", n(base)),
        ("run", n(index)),
        ("seed", n(c.seed)),
        ("loghash", s(format!("{:016x}", hash))),
        ("texts", arr(&c.plans[0].grams, |g| s(g.text()))),
        ("inputs", arr(&c.inputs, |t| s(&**t))),
        ("plans", arr(&c.plans, |p| p.to_json())),
    ])
}
pub fn case_from(j: &J) -> Case {
    Case {
        prop: j.get("prop").st(),
        seed: j.get("seed").u(),
        plans: j.get("plans").a().iter().map(Plan::from_json).collect(),
        inputs: j.get("inputs").a().iter().map(|x| x.st()).collect(),
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C09" => "A case is a story: a seeded grammar and 1-4 generation processes in a row, each with its own seeded world (hash seed, heap and stack layout, clock, pid, environment, schedule, other work) and all but the last killed at a seeded point; a run is one process. Non-trivial: it produced a result and had a pre-emption, a fault or a crash. Distinct: by hash of the run's log of switches, faults, allocator totals and results.",
        "C07" => "A run is one seeded process: grammars, lexers, regexes, client threads with operations, schedule, world and output faults, repeated for 3-4 sessions. Non-trivial: it produced results (sessions are repeated in every run). Distinct: by hash of the run's log of switches, faults, heap totals and results.",
        _ => "A run is one seeded process: grammars, lexers and regexes, client threads with their operations, a schedule, a world (hash seed, heap and stack layout, clock, pid, environment) and output faults, all drawn from the run's seed. Non-trivial: it produced a result and had at least one pre-emption or fault. Distinct: by hash of the run's log of switches, futex wake-ups, faults, results and steps per call.",
    }
}
pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut a = vec![
        "pre-emption happens between instrumented events (edges, loads, stores, allocations, system calls) of typelalr itself; std and the dependencies run without pre-emption between them",
        "memory is sequentially consistent: effects of weak memory ordering are not simulated",
        "seeded search: what no explored run shows is not excluded",
    ];
    match prop {
        "C01" | "C02" | "C04" => a.push("the reference model (regex matcher, LR(1) construction, Earley recogniser) is right; it abstains on inputs of more than 260 tokens"),
        "C09" => a.push("the decoder of the TypeScript artifacts reads them as tsc would; an artifact whose writing was cut short counts as lost"),
        "C03" | "C05" | "C06" => a.push("the reference is the same operation run alone, without faults, in a fresh process of the same build"),
        _ => (),
    }
    a
}
