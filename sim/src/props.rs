//! Workloads: one plan per (property, seed).
use crate::gen::{self, *};
use crate::model::*;
use crate::plan::*;
use crate::rt::*;

pub const IDS: [&str; 9] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"];

pub fn rand_sched(r: &mut Rng) -> SchedCfg {
    let mut c = quiet_sched();
    c.seed = r.next();
    match r.below(20) {
        0..=6 => {
            c.mode = Mode::Random;
            c.a = *r.pick(&[20, 100, 500, 3000]);
            c.b = *r.pick(&[2000, 20_000, 200_000]);
        }
        7..=11 => {
            c.mode = Mode::Hot;
            c.a = *r.pick(&[1, 3, 8, 15]);
            c.b = *r.pick(&[500, 5000, 50_000, 500_000]);
        }
        12..=15 => {
            c.mode = Mode::Pct;
            c.a = r.range(1, 6) as u64;
        }
        16..=18 => {
            c.mode = Mode::Rotate;
            c.a = *r.pick(&[1, 3, 17, 150, 2000, 30_000]);
        }
        _ => c.mode = Mode::Coop,
    }
    c.max_switches = *r.pick(&[300, 2000, 2000, 8000, 20_000]);
    if r.chance(1, 3) {
        c.stalls = *r.pick(&[5, 40, 200]);
    }
    if r.chance(1, 2) {
        c.spurious = *r.pick(&[50, 300, 800]);
    }
    c
}

pub fn rand_env(r: &mut Rng) -> Env {
    let mut e = plain_env();
    e.hash_seed = r.next();
    e.alloc_seed = r.next();
    e.clock_base = r.below(1 << 50);
    e.clock_jumps = *r.pick(&[0, 20, 300, 900]);
    e.pid = r.range(2, 4_000_000) as i32;
    e.stack_off = r.next();
    e.elsewhere = r.chance(1, 16);
    if r.chance(1, 6) {
        e.guard = *r.pick(&[8, 64, 1 << 40]);
    }
    if r.chance(2, 3) {
        let pool = [
            ("HOME", "/nonexistent"), ("LANG", "tr_TR.UTF-8"), ("TZ", "Asia/Kathmandu"), ("NO_COLOR", "1"), ("DEBUG", "1"), ("USER", "nobody"),
            ("TYPELALR_DEBUG", "1"), ("CI", "true"), ("TERM", "dumb"), ("SOURCE_DATE_EPOCH", "0"), ("PWD", "/"), ("COLUMNS", "7"), ("TMPDIR", "/nonexistent"),
            ("CARGO_PKG_VERSION", "9.9.9"), ("OUT_DIR", "/nonexistent"), ("TYPELALR_VERBOSE", "0"),
        ];
        for _ in 0..r.range(1, 5) {
            let (k, v) = *r.pick(&pool);
            e.vars.push((k.into(), v.into()));
        }
    }
    e
}

/// Output faults after which the data still gets through, eventually
const BENIGN: u64 = (1 << W_SHORT) | (1 << W_EINTR) | (1 << W_SLOW);
const ALLW: u64 = (1 << NWF) - 1;

pub fn rand_faults(r: &mut Rng, benign: bool) -> FaultCfg {
    let mut f = no_faults();
    f.seed = r.next();
    f.rate = *r.pick(&[3, 30, 150, 600, 1000]);
    f.mask = if benign {
        BENIGN
    } else {
        match r.below(4) {
            0 => ALLW,
            1 => 1 << r.below(NWF as u64),
            _ => (r.next() & ALLW) | (1 << r.below(NWF as u64)),
        }
    };
    if f.mask == 1 << W_SLOW || f.mask & (1 << W_SLOW) != 0 && f.rate > 300 {
        f.rate = 150;
    }
    f
}

struct B<'a> {
    r: &'a mut Rng,
    p: Plan,
    ms: Vec<Option<M>>,
}

impl<'a> B<'a> {
    fn new(r: &'a mut Rng) -> Self {
        let mut p = Plan::empty();
        p.sched = rand_sched(r);
        p.env = rand_env(r);
        p.hook = r.chance(1, 4);
        p.root_drops_first = r.chance(1, 2);
        B { r, p, ms: vec![] }
    }
    fn good(&mut self) -> usize {
        let (g, m) = good_grammar(self.r);
        self.p.grams.push(g);
        self.ms.push(Some(m));
        self.p.grams.len() - 1
    }
    fn any(&mut self) -> usize {
        let g = grammar(self.r);
        let m = M::new(&g);
        self.p.grams.push(g);
        self.ms.push(m);
        self.p.grams.len() - 1
    }
    fn bad(&mut self) -> usize {
        let g = bad_grammar(self.r);
        let m = M::new(&g);
        self.p.grams.push(g);
        self.ms.push(m);
        self.p.grams.len() - 1
    }
    fn parser(&mut self) -> usize {
        let g = self.good();
        self.p.objs.push(Obj::Parser(g));
        self.p.objs.len() - 1
    }
    /// more symbols than most grammars have
    fn wide(&mut self) -> usize {
        let g = gen::wide_grammar(self.r, true);
        self.ms.push(M::new(&g));
        self.p.grams.push(g);
        self.p.grams.len() - 1
    }
    fn wide_parser(&mut self) -> usize {
        let g = self.wide();
        self.p.objs.push(Obj::Parser(g));
        self.p.objs.len() - 1
    }
    fn lexset(&mut self) -> usize {
        let l = loop {
            let l = if self.r.chance(1, 16) { big_tokset(self.r) } else { tokset(self.r) };
            if l.iter().all(|t| tok_hir(t).map_or(false, |h| supported(&h))) {
                break l;
            }
        };
        self.p.lexes.push(l);
        self.p.lexes.len() - 1
    }
    fn lexer(&mut self) -> usize {
        let l = self.lexset();
        self.p.objs.push(Obj::Lexer(l));
        self.p.objs.len() - 1
    }
    fn regex(&mut self) -> usize {
        let d = self.r.range(1, 4);
        let t = if self.r.chance(1, 3) { self.r.pick(&["[a-z]+", "(a|b)*abb", "[^a]*", "(é|ü)+x?", "a?a?a?aaa", "(ab|a)(bc|c)?", "日本+", "(a*)*", "(x|)y", "[à-ü]?.", ".*", "(a|ab)(c|bcd)(d*)", "(a|a)*b", "(a*)*b", "(x+x+)+y", "((a|b)*|(b|a)+)*c", "\\d*\\s?"]).to_string() } else { rand_re(self.r, d) };
        self.p.res.push(t);
        self.p.res.len() - 1
    }
    fn recog(&mut self) -> usize {
        let i = self.regex();
        self.p.objs.push(Obj::Re(i));
        self.p.objs.len() - 1
    }
    fn pin(&mut self, g: usize) -> String {
        let size = *self.r.pick(&[3, 6, 12, 12, 25]);
        match &self.ms[g] {
            Some(m) if m.hirs.len() == m.terms.len() && !m.by.is_empty() => gen::input(m, self.r, size),
            _ => self.r.pick(&["", "a", "a b", "1 + 2", "( )"]).to_string(),
        }
    }
    fn long(&mut self, g: usize, size: usize) -> String {
        match &self.ms[g] {
            Some(m) if m.hirs.len() == m.terms.len() => {
                let t = sentence(m, self.r, size);
                spell(m, &t, self.r)
            }
            _ => String::new(),
        }
    }
    fn lin(&mut self, l: usize) -> String {
        let size = *self.r.pick(&[3, 8, 8, 25]);
        lex_input(&self.p.lexes[l].clone(), self.r, size)
    }
    fn rin(&mut self, i: usize) -> String {
        let t = self.p.res[i].clone();
        let s = sample_re(&t, self.r);
        if self.r.chance(1, 10) {
            // one more of the same, and one more, without the end
            let n = self.r.range(20, 60);
            let c = s.chars().next().unwrap_or('a');
            let mut s: String = std::iter::repeat(c).take(n).collect();
            if self.r.chance(1, 2) {
                s.push(*self.r.pick(&['b', 'y', 'a', '!']));
            }
            return s;
        }
        match self.r.below(5) {
            0 => mutate(&s, self.r),
            1 => {
                // a match followed by something, or only the beginning of one
                let mut c: Vec<char> = s.chars().collect();
                if self.r.chance(1, 2) {
                    c.pop();
                } else {
                    let x = sample_re(&t, self.r);
                    c.extend(x.chars().take(2));
                }
                c.into_iter().collect()
            }
            _ => s,
        }
    }
    fn gram_of(&self, o: usize) -> usize {
        match self.p.objs[o] {
            Obj::Parser(g) => g,
            _ => unreachable!(),
        }
    }
    fn lex_of(&self, o: usize) -> usize {
        match self.p.objs[o] {
            Obj::Lexer(g) | Obj::Re(g) => g,
            _ => unreachable!(),
        }
    }
    fn objs(&self, f: impl Fn(&Obj) -> bool) -> Vec<usize> {
        (0..self.p.objs.len()).filter(|i| f(&self.p.objs[*i])).collect()
    }
    fn pins(&mut self, g: usize, max: usize) -> Vec<String> {
        (0..self.r.range(0, max)).map(|_| self.pin(g)).collect()
    }

    // operations
    fn parse_op(&mut self) -> Op {
        let o = self.objs(|o| matches!(o, Obj::Parser(_)));
        let o = *self.r.pick(&o);
        let g = self.gram_of(o);
        // now and then an input close to an earlier one
        if self.r.chance(1, 5) {
            let old: Vec<String> = self.p.clients.iter().flatten().filter_map(|x| if let Op::Parse(p, t) = x { (*p == o && t.len() < 400).then(|| t.clone()) } else { None }).collect();
            if !old.is_empty() {
                return Op::Parse(o, gen::near(self.r.pick(&old).as_str(), self.r));
            }
        }
        let t = self.pin(g);
        Op::Parse(o, t)
    }
    fn lex_op(&mut self) -> Op {
        let o = self.objs(|o| matches!(o, Obj::Lexer(_)));
        let o = *self.r.pick(&o);
        if self.r.chance(1, 5) {
            let old: Vec<String> = self.p.clients.iter().flatten().filter_map(|x| if let Op::Lex(p, t) = x { (*p == o && t.len() < 400).then(|| t.clone()) } else { None }).collect();
            if !old.is_empty() {
                return Op::Lex(o, gen::near(self.r.pick(&old).as_str(), self.r));
            }
        }
        let t = self.lin(self.lex_of(o));
        Op::Lex(o, t)
    }
    fn re_op(&mut self) -> Op {
        let o = self.objs(|o| matches!(o, Obj::Re(_)));
        let o = *self.r.pick(&o);
        let t = self.rin(self.lex_of(o));
        if self.r.chance(1, 2) {
            Op::Nfa(o, t)
        } else {
            Op::Dfa(o, t)
        }
    }
    fn gen_op(&mut self) -> Op {
        let o = self.objs(|o| matches!(o, Obj::Parser(_)));
        Op::Gen(*self.r.pick(&o))
    }
    fn build_op(&mut self, g: usize, gen: bool) -> Op {
        let inputs = self.pins(g, 3);
        Op::Build { g, arena: self.r.chance(1, 2), gen, keep: self.r.chance(1, 3), inputs }
    }
    fn mklex_op(&mut self) -> Op {
        let l = self.lexset();
        let inputs = (0..self.r.range(1, 4)).map(|_| self.lin(l)).collect();
        Op::MkLex { l, inputs }
    }
    fn mkre_op(&mut self) -> Op {
        let i = self.regex();
        let inputs = (0..self.r.range(1, 5)).map(|_| self.rin(i)).collect();
        Op::MkRe { r: i, inputs }
    }
    /// Failing on purpose
    fn fail_op(&mut self) -> Op {
        let has = !self.objs(|o| matches!(o, Obj::Parser(_))).is_empty();
        match self.r.below(6) {
            0 | 1 if has => {
                let o = self.objs(|o| matches!(o, Obj::Parser(_)));
                let o = *self.r.pick(&o);
                let g = self.gram_of(o);
                let t = self.pin(g);
                Op::Parse(o, mutate(&format!("{}$", t), self.r))
            }
            2 => {
                self.p.res.push(self.r.pick(&["a{2,3}", "^a", "a$", "x{4}", "\\ba", "[", "(", "a**{", "b{2,}", "\\B"]).to_string());
                Op::MkRe { r: self.p.res.len() - 1, inputs: vec!["a".into()] }
            }
            3 => {
                let bad = self.r.pick(&["a{2,3}", "^a", "a$", "x{4}"]).to_string();
                let mut l = tokset(self.r);
                l.push(Tok { name: "bad".into(), re: bad, lit: false, val: true });
                self.p.lexes.push(l);
                Op::MkLex { l: self.p.lexes.len() - 1, inputs: vec!["a".into()] }
            }
            _ => {
                let g = self.bad();
                self.build_op(g, false)
            }
        }
    }
    fn noise_op(&mut self) -> Op {
        match self.r.below(6) {
            0 | 1 => {
                let g = self.any();
                let gen = self.r.chance(1, 4);
                self.build_op(g, gen)
            }
            2 => self.mklex_op(),
            3 => self.mkre_op(),
            4 => self.fail_op(),
            _ => Op::Sleep(1 << self.r.range(4, 20)),
        }
    }
    /// Many clients that do the same at once, briefly: races in one operation show in short runs first
    fn storm(&mut self, prop: &str) {
        let kind = match prop {
            "C01" => 0,
            "C02" => 5 + self.r.below(2),
            "C03" => 4,
            _ => self.r.below(8),
        };
        match kind {
            0..=4 => drop(self.parser()),
            5 => drop(self.lexer()),
            6 => drop(self.recog()),
            _ => (),
        }
        let n = self.clients(3, 8);
        let mut last: Option<Op> = None;
        for _ in 0..self.r.range(1, 2) {
            for c in 0..n {
                let op = match last.take() {
                    Some(op) if self.r.chance(2, 3) => op,
                    _ => match kind {
                        0..=3 => self.parse_op(),
                        4 => self.gen_op(),
                        5 => self.lex_op(),
                        6 => self.re_op(),
                        _ => self.build_any(false),
                    },
                };
                last = Some(op.clone());
                self.p.clients[c].push(op);
            }
        }
        if self.r.chance(3, 4) {
            self.p.sched.spurious = 0;
        }
        if self.r.chance(2, 3) && self.p.sched.mode != Mode::Hot {
            self.p.sched.mode = Mode::Hot;
            self.p.sched.a = *self.r.pick(&[1, 3, 8]);
            self.p.sched.b = *self.r.pick(&[500, 5000, 50_000, 500_000]);
        }
    }
    /// One call, in which an allocation fails: there is no other way to meet code that copes with that than to try
    /// often
    fn starved(&mut self, prop: &str) {
        self.clients(1, 1);
        let op = match (prop, self.r.below(3)) {
            ("C01", _) => {
                self.parser();
                self.parse_op()
            }
            ("C02", 0) => {
                self.lexer();
                self.lex_op()
            }
            ("C02", 1) => {
                self.recog();
                self.re_op()
            }
            ("C02", _) => {
                if self.r.chance(1, 2) {
                    self.mklex_op()
                } else {
                    self.mkre_op()
                }
            }
            ("C03", _) => {
                self.parser();
                self.gen_op()
            }
            _ => {
                let g = self.any();
                self.build_op(g, false)
            }
        };
        self.p.clients[0].push(op);
        let most = 1 << self.r.below(13);
        self.p.env.oom = (1 + self.r.below(2) * self.r.below(2), 1 + self.r.below(most));
    }
    /// A history of hundreds to tens of thousands of calls: a small thing, used the same way again and again
    fn again(&mut self, prop: &str) {
        let kind = match prop {
            "C01" => 0,
            "C02" => 1 + self.r.below(3),
            "C03" => 5,
            "C04" => 4,
            "C06" => *self.r.pick(&[0, 0, 0, 4, 5]),
            _ => self.r.below(6),
        };
        let n = self.clients(1, 2);
        match kind {
            0 | 5 => drop(self.parser()),
            1 => drop(self.lexer()),
            2 | 3 => drop(self.recog()),
            _ => (),
        }
        for c in 0..n {
            for _ in 0..self.r.range(1, 3) {
                let mut o = match kind {
                    0 => self.parse_op(),
                    1 => self.lex_op(),
                    2 => self.re_op(),
                    3 => self.mkre_op(),
                    4 if self.r.chance(1, 6) => self.mklex_op(),
                    4 => {
                        let g = self.any();
                        Op::Build { g, arena: self.r.chance(1, 3), gen: false, keep: false, inputs: vec![] }
                    }
                    _ => self.gen_op(),
                };
                if let Op::Parse(_, t) | Op::Lex(_, t) | Op::Nfa(_, t) | Op::Dfa(_, t) = &mut o {
                    if t.len() > 12 {
                        *t = t.chars().take(8).collect();
                    }
                }
                self.p.clients[c].push(o);
            }
        }
        self.p.again = match kind {
            0 => *self.r.pick(&[300, 9000, 66_000]),
            1 | 2 => *self.r.pick(&[300, 5000, 33_000, 66_000]),
            _ => *self.r.pick(&[20, 80, 300]),
        };
        // a class of hundreds of ranges takes its time, and so does a deep grammar
        let slow = |t: &str| t.len() > 60 || ["\\p", "\\P", "\\w", "\\W", "\\d", "\\s"].iter().any(|c| t.contains(c));
        if self.p.res.iter().any(|t| slow(t)) || self.p.lexes.iter().flatten().any(|t| slow(&t.re)) {
            self.p.again = self.p.again.min(5);
        }
        if self.p.grams.iter().any(|g| g.nts.len() > 12 || g.text().len() > 3000) {
            self.p.again = self.p.again.min(40);
        }
        if prop == "C06" {
            self.p.fault = rand_faults(self.r, false);
        }
        if prop == "C07" {
            self.p.again = self.p.again.min(*self.r.pick(&[30, 80, 150]));
            self.p.rounds = self.r.range(3, 4);
            self.p.env.guard = 0;
        }
        self.p.sched.max_switches = 3000;
    }
    fn clients(&mut self, lo: usize, hi: usize) -> usize {
        let n = self.r.range(lo, hi);
        self.p.clients = vec![vec![]; n];
        n
    }
    fn reuse_g(&mut self) -> Option<usize> {
        let v: Vec<usize> = (0..self.ms.len()).filter(|i| matches!(&self.ms[*i], Some(m) if m.builds == Some(true))).collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(&v))
        }
    }
    /// A grammar that takes up the place another one had
    fn twin(&mut self) -> Option<usize> {
        let v: Vec<usize> = (0..self.p.grams.len()).filter(|i| self.p.grams[*i].raw.is_none() && !self.p.grams[*i].nts.is_empty() && self.p.grams[*i].terminals().len() < 30).collect();
        if v.is_empty() {
            return None;
        }
        let i = *self.r.pick(&v);
        let g = gen::twin(&self.p.grams[i].clone(), self.r);
        let m = M::new(&g);
        self.p.grams.push(g);
        self.ms.push(m);
        Some(self.p.grams.len() - 1)
    }
    /// Builds of grammars that look alike, one after the other, each in an arena of its own
    fn twins(&mut self, c: usize) {
        self.good();
        let mut v = vec![self.p.grams.len() - 1];
        for _ in 0..self.r.range(2, 5) {
            if self.r.chance(1, 4) {
                v.push(*self.r.pick(&v.clone()));
                continue;
            }
            let base = *self.r.pick(&v.clone());
            let g = gen::twin(&self.p.grams[base].clone(), self.r);
            let m = M::new(&g);
            self.p.grams.push(g);
            self.ms.push(m);
            v.push(self.p.grams.len() - 1);
        }
        for g in v {
            let inputs = self.pins(g, 2);
            self.p.clients[c].push(Op::Build { g, arena: false, gen: false, keep: false, inputs });
        }
    }
    fn build_any(&mut self, gen: bool) -> Op {
        if self.r.chance(1, 8) {
            if let Some(g) = self.twin() {
                return self.build_op(g, gen);
            }
        }
        let g = match self.reuse_g() {
            Some(g) if self.r.chance(2, 5) => g,
            _ => match self.r.below(5) {
                0..=2 => self.good(),
                3 => self.any(),
                _ => self.bad(),
            },
        };
        self.build_op(g, gen)
    }
    /// a parser handed from thread to thread
    fn handoff(&mut self) {
        let g = self.good();
        let slot = self.r.below(2) as usize;
        if self.p.publisher(slot).is_some() {
            return;
        }
        let n = self.p.clients.len();
        let c = self.r.below(n as u64) as usize;
        self.p.clients[c].insert(0, Op::Publish { g, slot });
        for c in 0..n {
            if self.r.chance(1, 2) {
                let inputs = (0..self.r.range(1, 3)).map(|_| self.pin(g)).collect();
                let take = self.r.chance(1, 4);
                self.p.clients[c].push(Op::Use { slot, inputs, take });
            }
        }
    }
}

pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let mut b = B::new(r);
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C08" if b.r.chance(1, if prop == "C01" { 70 } else { 100 }) => b.again(prop),
        "C01" | "C02" | "C03" | "C04" if b.r.chance(1, 4) => b.starved(prop),
        "C06" if b.r.chance(1, 80) => b.again(prop),
        "C07" if b.r.chance(1, 14) => b.again(prop),
        "C01" | "C02" | "C03" | "C05" if b.r.chance(1, 10) => b.storm(prop),
        "C08" if b.r.chance(1, 4) => b.storm(prop),
        "C01" => {
            let profile = b.r.below(12);
            match profile {
                // a long history on one or two threads
                0 | 1 => {
                    let n = b.r.range(1, 2);
                    for _ in 0..b.r.range(1, 2) {
                        b.parser();
                    }
                    b.clients(n, n);
                    let k = if b.r.chance(1, 3) { 150 } else { b.r.range(20, 60) };
                    for c in 0..n {
                        for _ in 0..k {
                            let o = b.parse_op();
                            b.p.clients[c].push(o);
                        }
                    }
                    b.p.sched.max_switches = 1000;
                }
                // long inputs
                2 => {
                    let o = b.parser();
                    let g = b.gram_of(o);
                    let n = b.clients(2, 3);
                    for c in 0..n {
                        for _ in 0..b.r.range(1, 2) {
                            let size = *b.r.pick(&[60, 120, 400]);
                            let mut t = b.long(g, size);
                            if b.r.chance(1, 3) {
                                t = mutate(&t, b.r);
                            }
                            b.p.clients[c].push(Op::Parse(o, t));
                        }
                    }
                }
                _ => {
                    if b.r.chance(1, 24) {
                        b.wide_parser();
                    } else {
                        for _ in 0..b.r.range(1, 3) {
                            b.parser();
                        }
                    }
                    let n = b.clients(2, 6);
                    for c in 0..n {
                        for _ in 0..b.r.range(1, 5) {
                            let o = if b.r.chance(1, 8) { b.noise_op() } else { b.parse_op() };
                            b.p.clients[c].push(o);
                        }
                    }
                    // the same input on several threads
                    if b.r.chance(1, 3) {
                        let o = b.parse_op();
                        for c in 0..n {
                            b.p.clients[c].push(o.clone());
                        }
                    }
                    if b.r.chance(1, 3) {
                        b.handoff();
                    }
                }
            }
            if b.r.chance(1, 5) {
                b.p.fault = rand_faults(b.r, true);
            }
        }
        "C02" => {
            for _ in 0..b.r.range(1, 3) {
                b.lexer();
            }
            for _ in 0..b.r.range(1, 3) {
                b.recog();
            }
            let hist = b.r.chance(1, 8);
            let n = if hist { b.clients(1, 2) } else { b.clients(2, 6) };
            for c in 0..n {
                for _ in 0..if hist { b.r.range(40, 150) } else { b.r.range(2, 10) } {
                    let o = match b.r.below(20) {
                        0 => b.noise_op(),
                        1 | 2 => b.mklex_op(),
                        3..=5 => b.mkre_op(),
                        6..=12 => b.lex_op(),
                        _ => b.re_op(),
                    };
                    b.p.clients[c].push(o);
                }
            }
            if b.r.chance(1, 12) {
                // a long text
                let o = b.objs(|o| matches!(o, Obj::Lexer(_)))[0];
                let l = b.lex_of(o);
                let ts = b.p.lexes[l].clone();
                let t = lex_input(&ts, b.r, 600);
                b.p.clients[0].push(Op::Lex(o, t));
            }
            if b.r.chance(1, 5) {
                b.p.fault = rand_faults(b.r, true);
            }
        }
        "C03" => {
            for _ in 0..b.r.range(0, 2) {
                b.parser();
            }
            let n = b.clients(1, 5);
            let has = !b.p.objs.is_empty();
            for c in 0..n {
                for _ in 0..b.r.range(1, 4) {
                    let o = match b.r.below(10) {
                        0..=3 if has => b.gen_op(),
                        0..=6 => {
                            let g = match b.reuse_g() {
                                Some(g) if b.r.chance(1, 2) => g,
                                _ => b.good(),
                            };
                            b.build_op(g, true)
                        }
                        7 if has => b.parse_op(),
                        _ => b.noise_op(),
                    };
                    b.p.clients[c].push(o);
                }
            }
            if b.r.chance(1, 40) {
                let g = b.wide();
                let o = b.build_op(g, true);
                b.p.clients[0].push(o);
            }
            if b.r.chance(1, 6) {
                b.p.fault = rand_faults(b.r, false);
            }
        }
        "C04" => {
            let profile = b.r.below(10);
            let n = if profile < 2 { b.clients(1, 2) } else { b.clients(2, 6) };
            for c in 0..n {
                let k = if profile == 0 { b.r.range(15, 40) } else { b.r.range(1, 5) };
                for _ in 0..k {
                    let gen = b.r.chance(1, 12);
                    let o = b.build_any(gen);
                    b.p.clients[c].push(o);
                }
            }
            if b.r.chance(1, 4) {
                b.twins(0);
            }
            if b.r.chance(1, 40) {
                let g = b.wide();
                let o = b.build_op(g, false);
                b.p.clients[0].push(o);
            }
            if b.r.chance(1, 4) {
                // everybody builds the same grammar at once
                let g = b.any();
                for c in 0..n {
                    let o = b.build_op(g, false);
                    b.p.clients[c].push(o);
                }
            }
            if b.r.chance(1, 4) {
                b.handoff();
            }
        }
        "C05" => {
            for _ in 0..b.r.range(1, 2) {
                b.parser();
            }
            if b.r.chance(1, 2) {
                b.lexer();
            }
            if b.r.chance(1, 2) {
                b.recog();
            }
            // now and then very many failures on one thread
            let many = b.r.chance(1, 14);
            let n = if many { b.clients(1, 2) } else { b.clients(1, 6) };
            let k = if b.r.chance(1, 8) { 30 } else { 6 };
            for c in 0..n {
                if many {
                    for _ in 0..b.r.range(60, 400) {
                        let o = if b.r.chance(1, 12) { b.fail_op() } else { b.parse_op() };
                        b.p.clients[c].push(match o {
                            Op::Parse(o, t) if b.r.chance(2, 3) => Op::Parse(o, format!("{}$", t)),
                            o => o,
                        });
                    }
                    continue;
                }
                for _ in 0..b.r.range(2, k) {
                    let lx = !b.objs(|o| matches!(o, Obj::Lexer(_))).is_empty();
                    let rx = !b.objs(|o| matches!(o, Obj::Re(_))).is_empty();
                    let o = match b.r.below(12) {
                        0..=4 => b.fail_op(),
                        5 | 6 => b.parse_op(),
                        7 if lx => b.lex_op(),
                        8 if rx => b.re_op(),
                        9 => b.gen_op(),
                        _ => {
                            let gen = b.r.chance(1, 6);
                            b.build_any(gen)
                        }
                    };
                    b.p.clients[c].push(o);
                }
            }
            if b.r.chance(1, 4) {
                b.handoff();
            }
        }
        "C06" => {
            for _ in 0..b.r.range(1, 2) {
                b.parser();
            }
            b.lexer();
            if b.r.chance(1, 2) {
                b.recog();
            }
            let n = b.clients(1, 5);
            for c in 0..n {
                for _ in 0..b.r.range(1, 6) {
                    let rx = !b.objs(|o| matches!(o, Obj::Re(_))).is_empty();
                    let o = match b.r.below(12) {
                        0..=4 => b.parse_op(),
                        5 | 6 => b.lex_op(),
                        7 if rx => b.re_op(),
                        8 => b.gen_op(),
                        9 => b.fail_op(),
                        _ => {
                            let gen = b.r.chance(1, 3);
                            b.build_any(gen)
                        }
                    };
                    b.p.clients[c].push(o);
                }
            }
            b.p.fault = rand_faults(b.r, false);
        }
        "C07" => {
            b.p.rounds = b.r.range(3, 4);
            b.p.vary = b.r.chance(1, 2);
            b.p.env.guard = *b.r.pick(&[0, 0, 8, 64, 1 << 40]);
            for _ in 0..b.r.range(0, 2) {
                b.parser();
            }
            if b.r.chance(1, 2) {
                b.lexer();
            }
            if b.r.chance(1, 2) {
                b.recog();
            }
            let n = b.clients(1, 4);
            for c in 0..n {
                for _ in 0..b.r.range(1, 4) {
                    let px = !b.objs(|o| matches!(o, Obj::Parser(_))).is_empty();
                    let lx = !b.objs(|o| matches!(o, Obj::Lexer(_))).is_empty();
                    let rx = !b.objs(|o| matches!(o, Obj::Re(_))).is_empty();
                    let o = match b.r.below(12) {
                        0 | 1 if px => b.parse_op(),
                        2 if lx => b.lex_op(),
                        3 if rx => b.re_op(),
                        4 | 5 if px => b.gen_op(),
                        6 | 7 => b.fail_op(),
                        8 => b.mklex_op(),
                        9 => b.mkre_op(),
                        _ => {
                            let gen = b.r.chance(1, 3);
                            b.build_any(gen)
                        }
                    };
                    b.p.clients[c].push(o);
                }
                if !b.p.objs.is_empty() && b.r.chance(1, 4) {
                    let o = b.r.below(b.p.objs.len() as u64) as usize;
                    b.p.clients[c].push(Op::Drop(o));
                }
            }
            if b.r.chance(1, 3) {
                b.handoff();
            }
            if b.r.chance(1, 5) {
                b.p.fault = rand_faults(b.r, false);
            }
        }
        _ => {
            // C08
            let px = b.r.range(1, 2);
            for _ in 0..px {
                b.parser();
            }
            b.lexer();
            b.recog();
            let n = b.clients(2, 8);
            for c in 0..n {
                for _ in 0..b.r.range(1, 4) {
                    let o = match b.r.below(14) {
                        0..=3 => b.parse_op(),
                        4 | 5 => b.lex_op(),
                        6 => b.re_op(),
                        7 | 8 => b.gen_op(),
                        9 => b.fail_op(),
                        10 => {
                            let o = b.objs(|o| matches!(o, Obj::Parser(_)));
                            let o = *b.r.pick(&o);
                            let g = b.gram_of(o);
                            let size = *b.r.pick(&[60, 200, 600]);
                            let t = b.long(g, size);
                            Op::Parse(o, t)
                        }
                        11 => {
                            let g = if b.r.chance(1, 8) { gen::wide_grammar(b.r, false) } else { big_grammar(b.r) };
                            b.p.grams.push(g.clone());
                            b.ms.push(M::new(&g));
                            let g = b.p.grams.len() - 1;
                            let t = b.long(g, 30);
                            Op::Build { g, arena: false, gen: b.r.chance(1, 4), keep: false, inputs: vec![t] }
                        }
                        _ => {
                            let gen = b.r.chance(1, 3);
                            b.build_any(gen)
                        }
                    };
                    b.p.clients[c].push(o);
                }
            }
            if b.r.chance(1, 10) {
                let (g, t) = if b.r.chance(1, 2) {
                    gen::flat(b.r)
                } else {
                    let shape = b.r.below(6) as usize;
                    let n = b.r.range(1, 4) * [90, 900, 170, 600, 200, 15][shape];
                    gen::deep(b.r, shape, n)
                };
                b.ms.push(M::new(&g));
                b.p.grams.push(g);
                b.p.objs.push(Obj::Parser(b.p.grams.len() - 1));
                let o = b.p.objs.len() - 1;
                b.p.clients[0].push(Op::Parse(o, t));
                match b.r.below(4) {
                    0 => {
                        let g = gen::long_text(b.r);
                        b.ms.push(M::new(&g));
                        b.p.grams.push(g);
                        let g = b.p.grams.len() - 1;
                        b.p.clients[0].push(Op::Build { g, arena: b.r.chance(1, 2), gen: false, keep: false, inputs: vec![] });
                    }
                    1 => {
                        let o = b.objs(|o| matches!(o, Obj::Re(_)))[0];
                        let t = b.p.res[b.lex_of(o)].clone();
                        let x = sample_re(&t, b.r).chars().next().unwrap_or('a');
                        let n = b.r.range(10_000, 40_000);
                        let t: String = std::iter::repeat(x).take(n).collect();
                        let o = if b.r.chance(1, 2) { Op::Nfa(o, t) } else { Op::Dfa(o, t) };
                        b.p.clients[0].push(o);
                    }
                    2 => {
                        let o = b.objs(|o| matches!(o, Obj::Lexer(_)))[0];
                        let ts = b.p.lexes[b.lex_of(o)].clone();
                        let mut t = String::new();
                        let x = lex_input(&ts, b.r, 4);
                        let m = *b.r.pick(&[4_000, 30_000]);
                        while !x.is_empty() && t.len() < m {
                            t.push_str(&x);
                            t.push_str(*b.r.pick(&["", " ", "   \n"]));
                        }
                        b.p.clients[0].push(Op::Lex(o, t));
                    }
                    _ => (),
                }
            }
            if b.r.chance(1, 3) {
                b.handoff();
            }
            if b.r.chance(2, 3) {
                b.p.sched.stalls = *b.r.pick(&[20, 100, 300]);
            }
            if b.r.chance(1, 2) {
                b.p.fault = rand_faults(b.r, b.r.0 % 2 == 0);
            }
        }
    }
    if prop == "C03" {
        b.p.env.elsewhere = b.r.chance(1, 4);
    }
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C06") && b.p.again == 0 && b.p.env.oom.0 == 0 && b.r.chance(1, 16) {
        let (call, at) = (1 << b.r.below(6), 1 << b.r.below(13));
        b.p.env.oom = (1 + b.r.below(call), 1 + b.r.below(at));
    }
    b.p
}

/// Deep or wide grammars and regexes: what recursion or a quadratic loop would stumble over
pub fn big_grammar(r: &mut Rng) -> G {
    let mut nts = vec![];
    let body = |v: Vec<Sym>, i: usize| Body { syms: v.into_iter().map(|s| (None, s)).collect(), code: format!("\"c{}\"", i) };
    match r.below(4) {
        0 => {
            let n = r.range(20, 60);
            for i in 0..n {
                let mut v = vec![Sym::Nt(format!("N{}", i + 1))];
                if i % 3 == 0 {
                    v.insert(0, Sym::Lit(format!("{}", (b'a' + (i % 26) as u8) as char)));
                }
                nts.push(Nt { name: format!("N{}", i), ty: "\"t\"".into(), bodies: vec![body(v, i)] });
            }
            nts.push(Nt { name: format!("N{}", n), ty: "\"t\"".into(), bodies: vec![body(vec![Sym::Re("[0-9]+".into())], n)] });
        }
        1 => {
            let n = r.range(10, 40);
            let mut bs = vec![];
            for i in 0..n {
                bs.push(body(vec![Sym::Lit(format!("k{}", i)), Sym::Re("[0-9]+".into())], i));
            }
            nts.push(Nt { name: "S".into(), ty: "\"t\"".into(), bodies: bs });
        }
        2 => {
            // one body with very many symbols
            let n = r.range(20, 60);
            let v = (0..n).map(|i| if i % 4 == 3 { Sym::Nt("A".into()) } else { Sym::Lit(format!("l{}", i % 9)) }).collect();
            nts.push(Nt { name: "S".into(), ty: "\"t\"".into(), bodies: vec![body(v, 0)] });
            nts.push(Nt { name: "A".into(), ty: "\"t\"".into(), bodies: vec![body(vec![Sym::Lit("x".into())], 1)] });
        }
        _ => {
            // nested groups and repetitions in a token
            let d = r.range(4, 30);
            let t = format!("{}a{}", "(".repeat(d), ")?".repeat(d));
            nts.push(Nt { name: "S".into(), ty: "\"t\"".into(), bodies: vec![body(vec![Sym::Re(format!("b{}", t)), Sym::Lit(";".into())], 0)] });
        }
    }
    G { nts, start: Some(0), raw: None, style: 0 }
}

/// Is every token's spelling unique, as the TypeScript artifacts need? (see KNOWN_FINDINGS)
pub fn distinct_kinds(g: &G) -> bool {
    let mut v: Vec<String> = g
        .terminals()
        .into_iter()
        .map(|s| match s {
            Sym::Lit(x) | Sym::Re(x) | Sym::Nt(x) => x,
        })
        .map(|x| crate::ts::spelled(&x))
        .collect();
    v.push("EOF".into());
    let n = v.len();
    v.sort();
    v.dedup();
    v.len() == n
}

/// One crash-and-restart story: the processes in order, and the inputs the artifacts are tried on
pub fn story(seed: u64) -> (Vec<Plan>, Vec<String>) {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let mut wide = false;
    let (g, m) = loop {
        let (g, m) = if r.chance(1, 30) {
            let g = gen::wide_grammar(r, false);
            wide = true;
            let m = M::new(&g).unwrap();
            (g, m)
        } else {
            good_grammar(r)
        };
        if distinct_kinds(&g) && m.builds == Some(true) {
            break (g, m);
        }
    };
    let inputs: Vec<String> = (0..24).map(|i| gen::input(&m, r, if i % 6 == 0 { 40 } else { 10 })).collect();
    let runs = r.range(1, 4);
    let mut v = vec![];
    for i in 0..runs {
        let mut b = B::new(r);
        b.p.grams.push(g.clone());
        b.ms.push(None);
        b.p.env.elsewhere = b.r.chance(1, 4);
        let n = b.clients(1, if wide { 2 } else { 4 });
        let mask = if i == 0 { 3 } else { 0 }; // decided from the disk, unless forced
        let force = if i > 0 && b.r.chance(1, 2) { 1 + b.r.below(3) as u8 } else { mask };
        let chunk = *b.r.pick(&[64, 512, 4096]);
        for _ in 0..b.r.below(3) {
            let o = b.noise_op();
            b.p.clients[0].push(o);
        }
        b.p.clients[0].push(Op::Disk { g: 0, mask: force, chunk });
        for c in 1..n {
            for _ in 0..b.r.range(1, 3) {
                let o = match b.r.below(3) {
                    0 => b.noise_op(),
                    1 => Op::Build { g: 0, arena: false, gen: true, keep: false, inputs: vec![] },
                    _ => b.build_any(false),
                };
                b.p.clients[c].push(o);
            }
        }
        if i + 1 < runs {
            // a point of this process's life, as a fraction of its steps; made a step count once known
            b.p.crash = Some((usize::MAX, b.r.below(1_000_000)));
        }
        if b.r.chance(1, 6) {
            b.p.fault = rand_faults(b.r, false);
        }
        v.push(b.p);
    }
    (v, inputs)
}
