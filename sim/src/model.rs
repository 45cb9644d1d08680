//! Independent oracles: regex matching on the HIR, maximal munch, Earley recognition, LALR(1) conflicts.
use regex_syntax::hir::{Class, Hir, HirKind, Literal, RepetitionKind};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

// ---------------------------------------------------------------- regular expressions

pub fn parse_re(t: &str) -> Option<Hir> {
    regex_syntax::Parser::new().parse(t).ok()
}
/// The HIR of a literal
pub fn lit_re(t: &str) -> Hir {
    parse_re(&regex::escape(t)).unwrap()
}

/// Does the expression stay within what the crate supports?
pub fn supported(h: &Hir) -> bool {
    match h.kind() {
        HirKind::Empty | HirKind::Literal(_) | HirKind::Class(_) => true,
        HirKind::Anchor(_) | HirKind::WordBoundary(_) => false,
        HirKind::Repetition(r) => !matches!(r.kind, RepetitionKind::Range(_)) && supported(&r.hir),
        HirKind::Group(g) => supported(&g.hir),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().all(supported),
    }
}

fn class_has(c: &Class, x: char) -> bool {
    match c {
        Class::Unicode(u) => u.ranges().iter().any(|r| r.start() <= x && x <= r.end()),
        Class::Bytes(b) => b.ranges().iter().any(|r| (r.start() as u32) <= x as u32 && x as u32 <= r.end() as u32),
    }
}
fn lit_is(l: &Literal, x: char) -> bool {
    match l {
        Literal::Unicode(c) => *c == x,
        Literal::Byte(b) => *b as u32 == x as u32,
    }
}

/// Positions where a match of `h` starting at one of `from` can end
fn ends(h: &Hir, s: &[char], from: &BTreeSet<usize>) -> BTreeSet<usize> {
    match h.kind() {
        HirKind::Empty => from.clone(),
        HirKind::Literal(l) => from.iter().filter(|i| **i < s.len() && lit_is(l, s[**i])).map(|i| i + 1).collect(),
        HirKind::Class(c) => from.iter().filter(|i| **i < s.len() && class_has(c, s[**i])).map(|i| i + 1).collect(),
        HirKind::Anchor(_) | HirKind::WordBoundary(_) => BTreeSet::new(),
        HirKind::Group(g) => ends(&g.hir, s, from),
        HirKind::Concat(v) => v.iter().fold(from.clone(), |f, e| if f.is_empty() { f } else { ends(e, s, &f) }),
        HirKind::Alternation(v) => {
            let mut o = BTreeSet::new();
            for e in v {
                o.extend(ends(e, s, from));
            }
            o
        }
        HirKind::Repetition(r) => {
            let mut o = match r.kind {
                RepetitionKind::ZeroOrOne | RepetitionKind::ZeroOrMore => from.clone(),
                _ => BTreeSet::new(),
            };
            let mut front = from.clone();
            loop {
                let nx = ends(&r.hir, s, &front);
                let new: BTreeSet<usize> = nx.difference(&o).cloned().collect();
                o.extend(new.iter());
                if new.is_empty() || r.kind == RepetitionKind::ZeroOrOne {
                    return o;
                }
                front = new;
            }
        }
    }
}

pub fn full(h: &Hir, s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    ends(h, &c, &BTreeSet::from([0])).contains(&c.len())
}

fn nullable(h: &Hir) -> bool {
    match h.kind() {
        HirKind::Empty => true,
        HirKind::Literal(_) | HirKind::Class(_) | HirKind::Anchor(_) | HirKind::WordBoundary(_) => false,
        HirKind::Group(g) => nullable(&g.hir),
        HirKind::Concat(v) => v.iter().all(nullable),
        HirKind::Alternation(v) => v.iter().any(nullable),
        HirKind::Repetition(r) => r.kind != RepetitionKind::OneOrMore || nullable(&r.hir),
    }
}
/// Can a match begin with `c`?
fn begins(h: &Hir, c: char) -> bool {
    match h.kind() {
        HirKind::Empty | HirKind::Anchor(_) | HirKind::WordBoundary(_) => false,
        HirKind::Literal(l) => lit_is(l, c),
        HirKind::Class(k) => class_has(k, c),
        HirKind::Group(g) => begins(&g.hir, c),
        HirKind::Alternation(v) => v.iter().any(|e| begins(e, c)),
        HirKind::Repetition(r) => begins(&r.hir, c),
        HirKind::Concat(v) => {
            for e in v {
                if begins(e, c) {
                    return true;
                }
                if !nullable(e) {
                    return false;
                }
            }
            false
        }
    }
}

/// Maximal munch over `toks` (earlier wins ties). Returns (token, byte range) and the byte position where it stopped.
pub fn munch(toks: &[Hir], input: &str) -> (Vec<(usize, usize, usize)>, usize) {
    let c: Vec<char> = input.chars().collect();
    let mut at: Vec<usize> = input.char_indices().map(|(i, _)| i).collect();
    at.push(input.len());
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let mut best = (0, 0);
        let win = &c[i..];
        for (k, h) in toks.iter().enumerate() {
            if !begins(h, c[i]) {
                continue;
            }
            if let Some(e) = ends(h, win, &BTreeSet::from([0])).iter().max() {
                if *e > best.0 {
                    best = (*e, k);
                }
            }
        }
        if best.0 > 0 {
            out.push((best.1, at[i], at[i + best.0]));
            i += best.0;
        } else if (c[i] == ' ' || c[i] == '\n') && !toks.iter().any(|h| begins(h, c[i])) {
            i += 1;
        } else {
            break;
        }
    }
    (out, at[i])
}

// ---------------------------------------------------------------- grammars

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sym {
    Lit(String),
    Re(String),
    Nt(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Body {
    pub syms: Vec<(Option<String>, Sym)>,
    pub code: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Nt {
    pub name: String,
    pub ty: String,
    pub bodies: Vec<Body>,
}
/// A grammar; `raw` overrides the text (malformed grammars)
#[derive(Clone, Debug, PartialEq, Default)]
pub struct G {
    pub nts: Vec<Nt>,
    pub start: Option<usize>,
    pub raw: Option<String>,
    pub style: u8,
}

impl G {
    pub fn text(&self) -> String {
        if let Some(r) = &self.raw {
            return r.clone();
        }
        let mut o = String::new();
        for (i, n) in self.nts.iter().enumerate() {
            let start = self.start == Some(i);
            let exp = start || self.style & 1 == 0 || (i + self.style as usize) % 2 == 0;
            o.push_str(&format!(
                "{}{}{}: ({}) = [",
                if exp { "export " } else { "" },
                if start { "start " } else { "" },
                n.name,
                n.ty
            ));
            for (k, b) in n.bodies.iter().enumerate() {
                o.push_str(if self.style & 2 == 0 { "\n    " } else { "\n" });
                for (bind, s) in &b.syms {
                    let t = match s {
                        Sym::Lit(t) => format!("\"{}\"", t),
                        Sym::Re(t) => format!("r\"{}\"", t),
                        Sym::Nt(t) => t.clone(),
                    };
                    match bind {
                        Some(x) => o.push_str(&format!("<{}: {}> ", x, t)),
                        None => o.push_str(&format!("{} ", t)),
                    }
                }
                o.push_str(&format!("=> ({})", b.code));
                if k + 1 < n.bodies.len() || self.style & 4 != 0 {
                    o.push(',');
                }
            }
            o.push_str("\n]\n");
            if self.style & 8 == 0 {
                o.push('\n');
            }
        }
        o
    }

    /// Terminals in the order their ties are decided
    pub fn terminals(&self) -> Vec<Sym> {
        let mut s = BTreeSet::new();
        for n in &self.nts {
            for b in &n.bodies {
                for (_, y) in &b.syms {
                    if !matches!(y, Sym::Nt(_)) {
                        s.insert(y.clone());
                    }
                }
            }
        }
        s.into_iter().collect()
    }
    pub fn hirs(&self) -> Option<Vec<Hir>> {
        self.terminals()
            .iter()
            .map(|t| match t {
                Sym::Lit(x) => Some(lit_re(x)),
                Sym::Re(x) => parse_re(x).filter(supported),
                _ => None,
            })
            .collect()
    }
}

/// A grammar compiled for the oracles: nonterminals and terminals as numbers
pub struct M {
    pub hirs: Vec<Hir>,
    pub names: Vec<String>,
    pub terms: Vec<Sym>,
    /// (lhs, rhs): rhs < 0 is terminal -1-t, otherwise nonterminal
    pub prods: Vec<(usize, Vec<i32>)>,
    pub by: Vec<Vec<usize>>,
    pub start: usize,
    pub builds: Option<bool>,
    /// items times lookaheads over all LR(1) states: how much work building it is
    pub cost: u64,
}

impl M {
    /// None when the oracle has no opinion on the grammar
    pub fn new(g: &G) -> Option<M> {
        if g.raw.is_some() {
            return None;
        }
        let terms = g.terminals();
        // a nonterminal may be defined in several places
        let mut names: Vec<String> = vec![];
        for n in &g.nts {
            if !names.contains(&n.name) {
                names.push(n.name.clone());
            }
        }
        let idx: HashMap<&str, usize> = names.iter().enumerate().map(|(i, n)| (n.as_str(), i)).collect();
        let tix: BTreeMap<&Sym, usize> = terms.iter().enumerate().map(|(i, t)| (t, i)).collect();
        let hirs = match g.hirs() {
            Some(h) => h,
            None => vec![],
        };
        let ok_hirs = hirs.len() == terms.len();
        let mut prods = vec![];
        let mut by = vec![vec![]; names.len()];
        let mut undef = vec![false; names.len()];
        for n in &g.nts {
            let i = idx[n.name.as_str()];
            for b in &n.bodies {
                let mut r = vec![];
                for (_, s) in &b.syms {
                    match s {
                        Sym::Nt(x) => match idx.get(x.as_str()) {
                            Some(k) => r.push(*k as i32),
                            None => undef[i] = true,
                        },
                        t => r.push(-1 - tix[t] as i32),
                    }
                }
                by[i].push(prods.len());
                prods.push((i, r));
            }
        }
        let start = g.start.map_or(0, |i| idx[g.nts[i].name.as_str()]);
        let mut m = M { hirs, names, terms, prods, by, start, builds: None, cost: 0 };
        if g.start.is_none() {
            m.builds = Some(false);
            return Some(m);
        }
        if !ok_hirs {
            m.builds = Some(false);
            return Some(m);
        }
        let reach = m.reachable();
        if (0..undef.len()).any(|i| undef[i] && reach[i]) || (0..m.by.len()).any(|i| reach[i] && m.by[i].is_empty()) {
            m.builds = Some(false);
            return Some(m);
        }
        let prod = m.productive();
        if (0..m.by.len()).any(|i| reach[i] && !prod[i]) {
            return Some(m); // no opinion
        }
        let (b, c) = m.lalr_ok(900);
        m.builds = b;
        m.cost = c;
        Some(m)
    }

    fn reachable(&self) -> Vec<bool> {
        let mut r = vec![false; self.by.len()];
        let mut w = vec![self.start];
        r[self.start] = true;
        while let Some(i) = w.pop() {
            for &p in &self.by[i] {
                for &x in &self.prods[p].1 {
                    if x >= 0 && !r[x as usize] {
                        r[x as usize] = true;
                        w.push(x as usize);
                    }
                }
            }
        }
        r
    }
    fn productive(&self) -> Vec<bool> {
        let mut r = vec![false; self.by.len()];
        loop {
            let mut ch = false;
            for (l, rhs) in &self.prods {
                if !r[*l] && rhs.iter().all(|x| *x < 0 || r[*x as usize]) {
                    r[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                return r;
            }
        }
    }

    /// Earley recognition (no empty productions)
    pub fn derives(&self, input: &[usize]) -> bool {
        let n = input.len();
        type It = (usize, usize, usize); // production, dot, origin
        let mut sets: Vec<BTreeSet<It>> = vec![BTreeSet::new(); n + 1];
        let mut want: Vec<HashMap<usize, Vec<It>>> = vec![HashMap::new(); n + 1];
        let mut w: VecDeque<It> = VecDeque::new();
        for &p in &self.by[self.start] {
            sets[0].insert((p, 0, 0));
        }
        let mut accept = false;
        for i in 0..=n {
            w.extend(sets[i].iter().cloned());
            let mut predicted = vec![false; self.by.len()];
            while let Some((p, d, o)) = w.pop_front() {
                let rhs = &self.prods[p].1;
                if d == rhs.len() {
                    let l = self.prods[p].0;
                    if i == n && o == 0 && l == self.start {
                        accept = true;
                    }
                    let adv: Vec<It> = want[o].get(&l).cloned().unwrap_or_default();
                    for (q, e, oo) in adv {
                        let it = (q, e + 1, oo);
                        if sets[i].insert(it) {
                            w.push_back(it);
                        }
                    }
                } else if rhs[d] >= 0 {
                    let x = rhs[d] as usize;
                    want[i].entry(x).or_default().push((p, d, o));
                    if !predicted[x] {
                        predicted[x] = true;
                        for &q in &self.by[x] {
                            if sets[i].insert((q, 0, i)) {
                                w.push_back((q, 0, i));
                            }
                        }
                    }
                } else if i < n && input[i] == (-1 - rhs[d]) as usize {
                    sets[i + 1].insert((p, d + 1, o));
                }
            }
        }
        accept
    }

    /// Canonical LR(1), states merged by core; true when no two actions compete
    fn lalr_ok(&self, cap: usize) -> (Option<bool>, u64) {
        let mut cost = 0u64;
        const EOF: usize = usize::MAX;
        // FIRST
        let nn = self.by.len();
        let mut first: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); nn];
        loop {
            let mut ch = false;
            for (l, r) in self.prods.iter().filter(|p| !p.1.is_empty()) {
                let add: Vec<usize> = if r[0] < 0 { vec![(-1 - r[0]) as usize] } else { first[r[0] as usize].iter().cloned().collect() };
                for a in add {
                    ch |= first[*l].insert(a);
                }
            }
            if !ch {
                break;
            }
        }
        // production usize::MAX is the augmented one
        type It = (usize, usize);
        type Set = BTreeMap<It, BTreeSet<usize>>;
        let aug = vec![self.start as i32];
        let rhs = |p: usize| if p == usize::MAX { &aug } else { &self.prods[p].1 };
        let closure = |mut s: Set| -> Set {
            let mut w: Vec<(It, usize)> = s.iter().flat_map(|(k, v)| v.iter().map(move |t| (*k, *t))).collect();
            while let Some(((p, d), la)) = w.pop() {
                let r = rhs(p);
                if d < r.len() && r[d] >= 0 {
                    let las: Vec<usize> = if d + 1 < r.len() {
                        if r[d + 1] < 0 {
                            vec![(-1 - r[d + 1]) as usize]
                        } else {
                            first[r[d + 1] as usize].iter().cloned().collect()
                        }
                    } else {
                        vec![la]
                    };
                    for &q in &self.by[r[d] as usize] {
                        for &t in &las {
                            if s.entry((q, 0)).or_default().insert(t) {
                                w.push(((q, 0), t));
                            }
                        }
                    }
                }
            }
            s
        };
        let mut init = Set::new();
        init.insert((usize::MAX, 0), BTreeSet::from([EOF]));
        let mut states: HashMap<Set, ()> = HashMap::new();
        let mut merged: BTreeMap<Vec<It>, Set> = BTreeMap::new();
        let mut w = vec![init];
        while let Some(k) = w.pop() {
            if states.contains_key(&k) {
                continue;
            }
            if states.len() >= cap || cost > 1_000_000 {
                return (None, u64::MAX);
            }
            states.insert(k.clone(), ());
            let full = closure(k.clone());
            cost += full.values().map(|x| x.len() as u64).sum::<u64>();
            let core: Vec<It> = k.keys().cloned().collect();
            let m = merged.entry(core).or_default();
            for (it, la) in &full {
                m.entry(*it).or_default().extend(la.iter());
            }
            let mut next: BTreeMap<i32, Set> = BTreeMap::new();
            for ((p, d), la) in &full {
                let r = rhs(*p);
                if *d < r.len() {
                    next.entry(r[*d]).or_default().insert((*p, d + 1), la.clone());
                }
            }
            w.extend(next.into_values());
        }
        for s in merged.values() {
            let mut shifts = BTreeSet::new();
            let mut reds: HashMap<usize, usize> = HashMap::new();
            for ((p, d), la) in s {
                let r = rhs(*p);
                if *d < r.len() {
                    if r[*d] < 0 {
                        shifts.insert((-1 - r[*d]) as usize);
                    }
                } else {
                    for &t in la {
                        if let Some(o) = reds.insert(t, *p) {
                            if o != *p {
                                return (Some(false), cost);
                            }
                        }
                    }
                }
            }
            if reds.keys().any(|t| shifts.contains(t)) {
                return (Some(false), cost);
            }
        }
        (Some(true), cost)
    }

    /// Whether `input` is a sentence; also the token sequence length
    pub fn accepts(&self, input: &str) -> (bool, usize) {
        let (t, stop) = munch(&self.hirs, input);
        if stop != input.len() {
            // trailing blanks are skipped by munch, so this is text no token starts at
            return (false, t.len());
        }
        let ids: Vec<usize> = t.iter().map(|x| x.0).collect();
        (self.derives(&ids), ids.len())
    }
}
