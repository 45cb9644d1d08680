//! A run, written down: what is built, who does what, and the world it happens in.
use crate::gen::Tok;
use crate::json::{self, arr, n, obj, s, J};
use crate::model::*;
use crate::rt::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    Parser(usize),
    Lexer(usize),
    Re(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// parse with a shared parser
    Parse(usize, String),
    /// lex with a shared lexer
    Lex(usize, String),
    Nfa(usize, String),
    Dfa(usize, String),
    /// generate from a shared parser
    Gen(usize),
    /// read and build a grammar, use the parser. `arena`: in the client's long-lived arena
    Build { g: usize, arena: bool, gen: bool, keep: bool, inputs: Vec<String> },
    MkLex { l: usize, inputs: Vec<String> },
    MkRe { r: usize, inputs: Vec<String> },
    /// build a parser and hand it to whoever takes it from the slot
    Publish { g: usize, slot: usize },
    /// use (and maybe drop) the parser found in the slot
    Use { slot: usize, inputs: Vec<String>, take: bool },
    /// generate and write the artifacts in `mask` to the disk
    Disk { g: usize, mask: u8, chunk: usize },
    /// give up this client's handle on a shared object
    Drop(usize),
    /// sleep for that many simulated nanoseconds
    Sleep(u64),
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub grams: Vec<G>,
    pub lexes: Vec<Vec<Tok>>,
    pub res: Vec<String>,
    pub objs: Vec<Obj>,
    pub clients: Vec<Vec<Op>>,
    pub sched: SchedCfg,
    pub fault: FaultCfg,
    pub env: Env,
    pub rounds: usize,
    /// every client goes through its operations that many more times; what differs from the first time is recorded
    pub again: usize,
    /// every client in its own copy of the process (reference runs only, not written to replay files)
    pub each: bool,
    /// print panic messages as the default hook does
    pub hook: bool,
    /// no two rounds work on the same texts
    pub vary: bool,
    /// the root lets go of the shared objects before the clients end
    pub root_drops_first: bool,
    pub step_limit: u64,
    pub op_limit: u64,
    /// the same for each operation, where it is known what it takes alone (worked out anew on every replay)
    pub op_limits: Vec<Vec<u64>>,
    pub crash: Option<(usize, u64)>,
}

pub fn quiet_sched() -> SchedCfg {
    SchedCfg { mode: Mode::Coop, seed: 1, a: 0, b: 0, max_switches: 50_000, stalls: 0, spurious: 0, trace: vec![] }
}
pub fn no_faults() -> FaultCfg {
    FaultCfg { rate: 0, mask: 0, seed: 0, list: vec![], explicit: false }
}
pub fn plain_env() -> Env {
    Env { hash_seed: 1, alloc_seed: 1, clock_base: 1_000_000_000, clock_jumps: 0, pid: 4242, stack_off: 0, guard: 0, oom: (0, 0), elsewhere: false, vars: vec![] }
}

impl Plan {
    pub fn empty() -> Plan {
        Plan {
            grams: vec![],
            lexes: vec![],
            res: vec![],
            objs: vec![],
            clients: vec![],
            sched: quiet_sched(),
            fault: no_faults(),
            env: plain_env(),
            rounds: 1,
            again: 0,
            each: false,
            hook: false,
            vary: false,
            root_drops_first: false,
            step_limit: 4_000_000_000,
            op_limit: u64::MAX,
            op_limits: vec![],
            crash: None,
        }
    }

    /// The plan of a later round: every text has something the earlier ones had not
    pub fn varied(&self, round: usize) -> Plan {
        let mut p = self.clone();
        let new = format!("zzr{}", round);
        for g in &mut p.grams {
            if g.raw.is_some() {
                continue;
            }
            let rename = |x: &mut String| x.push_str(&format!("q{}", round));
            for n in &mut g.nts {
                rename(&mut n.name);
                for b in &mut n.bodies {
                    b.code.push_str(&format!(" + {}", round));
                    for y in &mut b.syms {
                        if let Sym::Nt(x) = &mut y.1 {
                            rename(x);
                        }
                    }
                }
            }
            if let Some(i) = g.start {
                for s in [Sym::Lit(new.clone()), Sym::Re(format!("{}[0-9]", new))] {
                    g.nts[i].bodies.push(Body { syms: vec![(None, s)], code: format!("\"{}\"", new) });
                }
            }
        }
        for l in &mut p.lexes {
            l.push(Tok { name: new.clone(), re: new.clone(), lit: true, val: true });
        }
        for r in &mut p.res {
            *r = format!("({})|{}", r, new);
        }
        for op in p.clients.iter_mut().flatten() {
            match op {
                Op::Parse(_, t) | Op::Lex(_, t) | Op::Nfa(_, t) | Op::Dfa(_, t) => t.push_str(&"\n".repeat(round)),
                Op::Build { inputs, .. } | Op::MkLex { inputs, .. } | Op::MkRe { inputs, .. } | Op::Use { inputs, .. } => {
                    for t in inputs {
                        t.push_str(&"\n".repeat(round));
                    }
                }
                _ => (),
            }
        }
        p
    }

    /// Operation `k` of client `c`, alone in a fresh process
    pub fn alone(&self, c: usize, k: usize) -> Plan {
        let mut p = Plan::empty();
        p.step_limit = self.step_limit;
        let mut op = self.clients[c][k].clone();
        let mut need_obj = |p: &mut Plan, o: &mut usize| {
            p.objs.push(match &self.objs[*o] {
                Obj::Parser(g) => {
                    p.grams.push(self.grams[*g].clone());
                    Obj::Parser(0)
                }
                Obj::Lexer(l) => {
                    p.lexes.push(self.lexes[*l].clone());
                    Obj::Lexer(0)
                }
                Obj::Re(r) => {
                    p.res.push(self.res[*r].clone());
                    Obj::Re(0)
                }
            });
            *o = 0;
        };
        match &mut op {
            Op::Parse(o, _) | Op::Lex(o, _) | Op::Nfa(o, _) | Op::Dfa(o, _) | Op::Gen(o) | Op::Drop(o) => need_obj(&mut p, o),
            Op::Build { g, arena, keep, .. } => {
                p.grams.push(self.grams[*g].clone());
                *g = 0;
                *arena = false;
                *keep = false;
            }
            Op::Publish { g, slot } => {
                p.grams.push(self.grams[*g].clone());
                *g = 0;
                *slot = 0;
            }
            Op::Disk { g, .. } => {
                p.grams.push(self.grams[*g].clone());
                *g = 0;
            }
            Op::MkLex { l, .. } => {
                p.lexes.push(self.lexes[*l].clone());
                *l = 0;
            }
            Op::MkRe { r, .. } => {
                p.res.push(self.res[*r].clone());
                *r = 0;
            }
            Op::Use { slot, inputs, .. } => {
                // the same as building it and parsing, done by one thread
                if let Some(g) = self.publisher(*slot) {
                    p.grams.push(self.grams[g].clone());
                    op = Op::Build { g: 0, arena: false, gen: false, keep: false, inputs: inputs.clone() };
                }
            }
            Op::Sleep(_) => (),
        }
        p.clients.push(vec![op]);
        p
    }
    /// The same work in the plainest world
    pub fn calm(&self) -> Plan {
        let e = Plan::empty();
        Plan { sched: e.sched, fault: e.fault, env: e.env, rounds: 1, again: 0, crash: None, op_limit: e.op_limit, op_limits: vec![], ..self.clone() }
    }
    pub fn publisher(&self, slot: usize) -> Option<usize> {
        for c in &self.clients {
            for o in c {
                if let Op::Publish { g, slot: s } = o {
                    if *s == slot {
                        return Some(*g);
                    }
                }
            }
        }
        None
    }

    pub fn nops(&self) -> usize {
        self.clients.iter().map(|c| c.len()).sum()
    }

    pub fn to_json(&self) -> J {
        obj(vec![
            ("grams", arr(&self.grams, gram_json)),
            ("lexes", arr(&self.lexes, |l| arr(l, |t| obj(vec![("name", s(&*t.name)), ("re", s(&*t.re)), ("lit", J::Bool(t.lit)), ("val", J::Bool(t.val))])))),
            ("res", arr(&self.res, |r| s(&**r))),
            ("objs", arr(&self.objs, |o| match o {
                Obj::Parser(i) => obj(vec![("parser", n(*i as u64))]),
                Obj::Lexer(i) => obj(vec![("lexer", n(*i as u64))]),
                Obj::Re(i) => obj(vec![("re", n(*i as u64))]),
            })),
            ("clients", arr(&self.clients, |c| arr(c, op_json))),
            ("sched", sched_json(&self.sched)),
            ("fault", fault_json(&self.fault)),
            ("env", env_json(&self.env)),
            ("rounds", n(self.rounds as u64)),
            ("again", n(self.again as u64)),
            ("hook", J::Bool(self.hook)),
            ("vary", J::Bool(self.vary)),
            ("root_drops_first", J::Bool(self.root_drops_first)),
            ("step_limit", n(self.step_limit)),
            ("op_limit", n(self.op_limit)),
            ("crash", match self.crash {
                Some((a, b)) => J::Arr(vec![n(a as u64), n(b)]),
                None => J::Null,
            }),
        ])
    }
    pub fn from_json(j: &J) -> Plan {
        let strs = |j: &J| -> Vec<String> { j.a().iter().map(|x| x.st()).collect() };
        Plan {
            grams: j.get("grams").a().iter().map(gram_from).collect(),
            lexes: j
                .get("lexes")
                .a()
                .iter()
                .map(|l| l.a().iter().map(|t| Tok { name: t.get("name").st(), re: t.get("re").st(), lit: t.get("lit").b(), val: t.get("val").b() }).collect())
                .collect(),
            res: strs(j.get("res")),
            objs: j
                .get("objs")
                .a()
                .iter()
                .map(|o| {
                    if *o.get("parser") != J::Null {
                        Obj::Parser(o.get("parser").us())
                    } else if *o.get("lexer") != J::Null {
                        Obj::Lexer(o.get("lexer").us())
                    } else {
                        Obj::Re(o.get("re").us())
                    }
                })
                .collect(),
            clients: j.get("clients").a().iter().map(|c| c.a().iter().map(op_from).collect()).collect(),
            sched: sched_from(j.get("sched")),
            fault: fault_from(j.get("fault")),
            env: env_from(j.get("env")),
            rounds: j.get("rounds").us(),
            again: j.get("again").us(),
            each: false,
            hook: j.get("hook").b(),
            vary: j.get("vary").b(),
            root_drops_first: j.get("root_drops_first").b(),
            step_limit: j.get("step_limit").u(),
            op_limit: j.get("op_limit").u(),
            op_limits: vec![],
            crash: match j.get("crash") {
                J::Arr(v) => Some((v[0].us(), v[1].u())),
                _ => None,
            },
        }
    }
}

fn gram_json(g: &G) -> J {
    if let Some(r) = &g.raw {
        return obj(vec![("raw", s(&**r))]);
    }
    obj(vec![
        ("start", g.start.map_or(J::Null, |x| n(x as u64))),
        ("style", n(g.style as u64)),
        ("nts", arr(&g.nts, |t| {
            obj(vec![
                ("name", s(&*t.name)),
                ("ty", s(&*t.ty)),
                ("bodies", arr(&t.bodies, |b| {
                    obj(vec![
                        ("code", s(&*b.code)),
                        ("syms", arr(&b.syms, |(bind, y)| {
                            let (k, t) = match y {
                                Sym::Lit(t) => ("lit", t),
                                Sym::Re(t) => ("re", t),
                                Sym::Nt(t) => ("nt", t),
                            };
                            let mut v = vec![(k, s(&**t))];
                            if let Some(b) = bind {
                                v.push(("as", s(&**b)));
                            }
                            obj(v)
                        })),
                    ])
                })),
            ])
        })),
    ])
}
fn gram_from(j: &J) -> G {
    if let J::Str(r) = j.get("raw") {
        return G { nts: vec![], start: None, raw: Some(r.clone()), style: 0 };
    }
    G {
        nts: j
            .get("nts")
            .a()
            .iter()
            .map(|t| Nt {
                name: t.get("name").st(),
                ty: t.get("ty").st(),
                bodies: t
                    .get("bodies")
                    .a()
                    .iter()
                    .map(|b| Body {
                        code: b.get("code").st(),
                        syms: b
                            .get("syms")
                            .a()
                            .iter()
                            .map(|y| {
                                let bind = match y.get("as") {
                                    J::Str(x) => Some(x.clone()),
                                    _ => None,
                                };
                                let sym = match (y.get("lit"), y.get("re")) {
                                    (J::Str(x), _) => Sym::Lit(x.clone()),
                                    (_, J::Str(x)) => Sym::Re(x.clone()),
                                    _ => Sym::Nt(y.get("nt").st()),
                                };
                                (bind, sym)
                            })
                            .collect(),
                    })
                    .collect(),
            })
            .collect(),
        start: match j.get("start") {
            J::Null => None,
            x => Some(x.us()),
        },
        raw: None,
        style: j.get("style").u() as u8,
    }
}

fn op_json(o: &Op) -> J {
    let ins = |v: &Vec<String>| arr(v, |x| s(&**x));
    match o {
        Op::Parse(i, t) => obj(vec![("op", s("parse")), ("obj", n(*i as u64)), ("input", s(&**t))]),
        Op::Lex(i, t) => obj(vec![("op", s("lex")), ("obj", n(*i as u64)), ("input", s(&**t))]),
        Op::Nfa(i, t) => obj(vec![("op", s("nfa")), ("obj", n(*i as u64)), ("input", s(&**t))]),
        Op::Dfa(i, t) => obj(vec![("op", s("dfa")), ("obj", n(*i as u64)), ("input", s(&**t))]),
        Op::Gen(i) => obj(vec![("op", s("gen")), ("obj", n(*i as u64))]),
        Op::Build { g, arena, gen, keep, inputs } => obj(vec![
            ("op", s("build")),
            ("g", n(*g as u64)),
            ("arena", J::Bool(*arena)),
            ("gen", J::Bool(*gen)),
            ("keep", J::Bool(*keep)),
            ("inputs", ins(inputs)),
        ]),
        Op::MkLex { l, inputs } => obj(vec![("op", s("mklex")), ("l", n(*l as u64)), ("inputs", ins(inputs))]),
        Op::MkRe { r, inputs } => obj(vec![("op", s("mkre")), ("r", n(*r as u64)), ("inputs", ins(inputs))]),
        Op::Publish { g, slot } => obj(vec![("op", s("publish")), ("g", n(*g as u64)), ("slot", n(*slot as u64))]),
        Op::Use { slot, inputs, take } => obj(vec![("op", s("use")), ("slot", n(*slot as u64)), ("take", J::Bool(*take)), ("inputs", ins(inputs))]),
        Op::Disk { g, mask, chunk } => obj(vec![("op", s("disk")), ("g", n(*g as u64)), ("mask", n(*mask as u64)), ("chunk", n(*chunk as u64))]),
        Op::Drop(i) => obj(vec![("op", s("drop")), ("obj", n(*i as u64))]),
        Op::Sleep(i) => obj(vec![("op", s("sleep")), ("ns", n(*i))]),
    }
}
fn op_from(j: &J) -> Op {
    let o = j.get("obj").us();
    let t = j.get("input").st();
    let ins: Vec<String> = j.get("inputs").a().iter().map(|x| x.st()).collect();
    match &*j.get("op").st() {
        "parse" => Op::Parse(o, t),
        "lex" => Op::Lex(o, t),
        "nfa" => Op::Nfa(o, t),
        "dfa" => Op::Dfa(o, t),
        "gen" => Op::Gen(o),
        "build" => Op::Build { g: j.get("g").us(), arena: j.get("arena").b(), gen: j.get("gen").b(), keep: j.get("keep").b(), inputs: ins },
        "mklex" => Op::MkLex { l: j.get("l").us(), inputs: ins },
        "mkre" => Op::MkRe { r: j.get("r").us(), inputs: ins },
        "publish" => Op::Publish { g: j.get("g").us(), slot: j.get("slot").us() },
        "use" => Op::Use { slot: j.get("slot").us(), inputs: ins, take: j.get("take").b() },
        "disk" => Op::Disk { g: j.get("g").us(), mask: j.get("mask").u() as u8, chunk: j.get("chunk").us() },
        "drop" => Op::Drop(o),
        _ => Op::Sleep(j.get("ns").u()),
    }
}

const MODES: [(Mode, &str); 6] =
    [(Mode::Random, "random"), (Mode::Pct, "pct"), (Mode::Rotate, "rotate"), (Mode::Hot, "hot"), (Mode::Coop, "coop"), (Mode::Trace, "trace")];
pub fn mode_name(m: Mode) -> &'static str {
    MODES.iter().find(|x| x.0 == m).unwrap().1
}
fn sched_json(c: &SchedCfg) -> J {
    obj(vec![
        ("mode", s(mode_name(c.mode))),
        ("seed", n(c.seed)),
        ("a", n(c.a)),
        ("b", n(c.b)),
        ("max_switches", n(c.max_switches)),
        ("stalls", n(c.stalls)),
        ("spurious", n(c.spurious)),
        ("trace", arr(&c.trace, |e| J::Arr(vec![n(e.from as u64), n(e.own), n(e.to as u64), n(e.stall)]))),
    ])
}
fn sched_from(j: &J) -> SchedCfg {
    SchedCfg {
        mode: MODES.iter().find(|x| x.1 == j.get("mode").st()).map_or(Mode::Coop, |x| x.0),
        seed: j.get("seed").u(),
        a: j.get("a").u(),
        b: j.get("b").u(),
        max_switches: j.get("max_switches").u(),
        stalls: j.get("stalls").u(),
        spurious: j.get("spurious").u(),
        trace: j.get("trace").a().iter().map(|e| Ent { from: e.a()[0].u() as u32, own: e.a()[1].u(), to: e.a()[2].u() as u32, stall: e.a()[3].u() }).collect(),
    }
}
fn fault_json(c: &FaultCfg) -> J {
    obj(vec![
        ("rate", n(c.rate)),
        ("mask", n(c.mask)),
        ("seed", n(c.seed)),
        ("explicit", J::Bool(c.explicit)),
        ("list", arr(&c.list, |f| J::Arr(vec![n(f.tid as u64), n(f.idx as u64), s(WNAMES[f.kind as usize % NWF]), n(f.arg as u64)]))),
    ])
}
fn fault_from(j: &J) -> FaultCfg {
    FaultCfg {
        rate: j.get("rate").u(),
        mask: j.get("mask").u(),
        seed: j.get("seed").u(),
        explicit: j.get("explicit").b(),
        list: j
            .get("list")
            .a()
            .iter()
            .map(|f| FEnt {
                tid: f.a()[0].u() as u32,
                idx: f.a()[1].u() as u32,
                kind: WNAMES.iter().position(|w| *w == f.a()[2].st()).unwrap_or(0) as u32,
                arg: f.a()[3].u() as u32,
            })
            .collect(),
    }
}
fn env_json(e: &Env) -> J {
    obj(vec![
        ("hash_seed", n(e.hash_seed)),
        ("alloc_seed", n(e.alloc_seed)),
        ("clock_base", n(e.clock_base)),
        ("clock_jumps", n(e.clock_jumps)),
        ("pid", n(e.pid as u64)),
        ("stack_off", n(e.stack_off)),
        ("guard", n(e.guard)),
        ("oom", J::Arr(vec![n(e.oom.0), n(e.oom.1)])),
        ("elsewhere", J::Bool(e.elsewhere)),
        ("vars", arr(&e.vars, |(a, b)| J::Arr(vec![s(&**a), s(&**b)]))),
    ])
}
fn env_from(j: &J) -> Env {
    Env {
        hash_seed: j.get("hash_seed").u(),
        alloc_seed: j.get("alloc_seed").u(),
        clock_base: j.get("clock_base").u(),
        clock_jumps: j.get("clock_jumps").u(),
        pid: j.get("pid").u() as i32,
        stack_off: j.get("stack_off").u(),
        guard: j.get("guard").u(),
        elsewhere: j.get("elsewhere").b(),
        oom: match j.get("oom") {
            J::Arr(v) => (v[0].u(), v[1].u()),
            _ => (0, 0),
        },
        vars: j.get("vars").a().iter().map(|x| (x.a()[0].st(), x.a()[1].st())).collect(),
    }
}
#[allow(dead_code)]
pub fn _keep(_: json::J) {}
