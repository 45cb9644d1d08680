//! Executes a plan inside a simulated process, and reads back what happened.
use crate::gen::{tok_hir, Tok};
use crate::json::J;
use crate::model::*;
use crate::plan::*;
use crate::rt::{self, *};
use bumpalo::Bump;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use typelalr::lalr::Lalr;
use typelalr::lex::dfa::DFA;
use typelalr::lex::lex::{Lex, Token, TokenDef};
use typelalr::lex::nfa::NFA;
use typelalr::parser::{ast, Grammar};

// ---------------------------------------------------------------- are the objects shareable at all?

struct Probe<T>(std::marker::PhantomData<T>);
trait Shareable {
    fn ok(&self) -> bool;
}
trait NotShareable {
    fn ok(&self) -> bool;
}
impl<T: Send + Sync> Shareable for Probe<T> {
    fn ok(&self) -> bool {
        true
    }
}
impl<T> NotShareable for &Probe<T> {
    fn ok(&self) -> bool {
        false
    }
}
/// Types that can't be shared between threads
pub fn unshareable() -> Vec<&'static str> {
    let mut v = vec![];
    macro_rules! p {
        ($t:ty, $n:expr) => {
            if !(&Probe::<$t>(std::marker::PhantomData)).ok() {
                v.push($n)
            }
        };
    }
    p!(Lalr<'static>, "Lalr");
    p!(Lex, "Lex");
    p!(NFA, "NFA");
    p!(DFA, "DFA");
    p!(Grammar<'static>, "Grammar");
    v
}

// ---------------------------------------------------------------- expectations of the oracles

#[derive(Clone, Debug, Default)]
pub struct Exp {
    pub accept: Option<bool>,
    pub builds: Option<bool>,
    pub toks: Option<Vec<(String, Option<String>)>>,
}
pub type Exps = HashMap<(u32, u32, u32), Exp>;

pub struct Models {
    pub g: Vec<Option<M>>,
    pub l: Vec<Option<Vec<regex_syntax::hir::Hir>>>,
    pub r: Vec<Option<regex_syntax::hir::Hir>>,
}
pub fn models(p: &Plan) -> Models {
    Models {
        g: p.grams.iter().map(M::new).collect(),
        l: p.lexes.iter().map(|l| l.iter().map(|t| tok_hir(t).filter(supported)).collect()).collect(),
        r: p.res.iter().map(|r| parse_re(r).filter(supported)).collect(),
    }
}
fn exp_lex(ts: &[Tok], h: &Option<Vec<regex_syntax::hir::Hir>>, t: &str) -> Option<Vec<(String, Option<String>)>> {
    let h = h.as_ref()?;
    Some(munch(h, t).0.into_iter().map(|(k, a, b)| (ts[k].name.clone(), if ts[k].val { Some(t[a..b].to_string()) } else { None })).collect())
}
/// Above this many tokens the oracles abstain
const ORACLE_MAX: usize = 260;
fn exp_parse(m: &Option<M>, t: &str) -> Option<bool> {
    let m = m.as_ref()?;
    if m.builds != Some(true) || t.len() > 6000 {
        return None;
    }
    let (toks, stop) = munch(&m.hirs, t);
    if stop != t.len() {
        return Some(false);
    }
    if toks.len() > ORACLE_MAX {
        return None;
    }
    Some(m.derives(&toks.iter().map(|x| x.0).collect::<Vec<_>>()))
}
fn exp_build(m: &Option<M>) -> Option<bool> {
    m.as_ref().and_then(|m| m.builds)
}

pub const GEN_LEX: u32 = 1000;
pub const GEN_PARSE: u32 = 1001;
pub const GEN_STATUS: u32 = 999;
pub const OBJ: u32 = 1 << 20;

pub fn expectations(p: &Plan, m: &Models) -> Exps {
    let mut e = Exps::new();
    for (i, o) in p.objs.iter().enumerate() {
        let b = match o {
            Obj::Parser(g) => exp_build(&m.g[*g]),
            Obj::Lexer(l) => m.l[*l].as_ref().map(|_| true),
            Obj::Re(r) => m.r[*r].as_ref().map(|_| true),
        };
        e.insert((OBJ, i as u32, 0), Exp { builds: b, ..Default::default() });
    }
    let g_of = |o: usize| match &p.objs[o] {
        Obj::Parser(g) => *g,
        _ => panic!("plan: not a parser"),
    };
    let r_of = |o: usize| match &p.objs[o] {
        Obj::Re(g) => *g,
        _ => panic!("plan: not a recogniser"),
    };
    for (c, ops) in p.clients.iter().enumerate() {
        for (k, op) in ops.iter().enumerate() {
            let key = |sub: usize| (c as u32, k as u32, sub as u32);
            match op {
                Op::Parse(o, t) => {
                    e.insert(key(0), Exp { accept: exp_parse(&m.g[g_of(*o)], t), ..Default::default() });
                }
                Op::Lex(o, t) => {
                    if let Obj::Lexer(l) = &p.objs[*o] {
                        e.insert(key(0), Exp { toks: exp_lex(&p.lexes[*l], &m.l[*l], t), ..Default::default() });
                    }
                }
                Op::Nfa(o, t) | Op::Dfa(o, t) => {
                    e.insert(key(0), Exp { accept: m.r[r_of(*o)].as_ref().map(|h| full(h, t)), ..Default::default() });
                }
                Op::Build { g, inputs, .. } => {
                    e.insert(key(0), Exp { builds: exp_build(&m.g[*g]), ..Default::default() });
                    for (i, t) in inputs.iter().enumerate() {
                        e.insert(key(1 + i), Exp { accept: exp_parse(&m.g[*g], t), ..Default::default() });
                    }
                }
                Op::Publish { g, .. } | Op::Disk { g, .. } => {
                    e.insert(key(0), Exp { builds: exp_build(&m.g[*g]), ..Default::default() });
                }
                Op::Use { slot, inputs, .. } => {
                    if let Some(g) = p.publisher(*slot) {
                        for (i, t) in inputs.iter().enumerate() {
                            e.insert(key(1 + i), Exp { accept: exp_parse(&m.g[g], t), ..Default::default() });
                        }
                    }
                }
                Op::MkLex { l, inputs } => {
                    e.insert(key(0), Exp { builds: m.l[*l].as_ref().map(|_| true), ..Default::default() });
                    for (i, t) in inputs.iter().enumerate() {
                        e.insert(key(1 + i), Exp { toks: exp_lex(&p.lexes[*l], &m.l[*l], t), ..Default::default() });
                    }
                }
                Op::MkRe { r, inputs } => {
                    e.insert(key(0), Exp { builds: m.r[*r].as_ref().map(|_| true), ..Default::default() });
                    for (i, t) in inputs.iter().enumerate() {
                        let a = m.r[*r].as_ref().map(|h| full(h, t));
                        e.insert(key(1 + 2 * i), Exp { accept: a, ..Default::default() });
                        e.insert(key(2 + 2 * i), Exp { accept: a, ..Default::default() });
                    }
                }
                Op::Gen(_) | Op::Drop(_) | Op::Sleep(_) => (),
            }
        }
    }
    e
}

// ---------------------------------------------------------------- inside the simulated process

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| match p.downcast_ref::<String>() {
        Some(s) => s.clone(),
        None => match p.downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => "panic of an unknown type".into(),
        },
    })
}

/// A parser with everything it borrows from
struct Built {
    lalr: Option<Box<Lalr<'static>>>,
    ast: Option<Box<Vec<ast::Production<'static>>>>,
    bump: Option<Box<Bump>>,
}
unsafe impl Send for Built {}
unsafe impl Sync for Built {}
impl Drop for Built {
    fn drop(&mut self) {
        self.lalr = None;
        self.ast = None;
        self.bump = None;
    }
}
fn build(bump: &Bump, text: &str) -> Result<Built, String> {
    // the borrows are kept alive by `Built`, or by the client for its arena
    let bump: &'static Bump = unsafe { std::mem::transmute(bump) };
    guarded(move || {
        let ast = Box::new(typelalr::parse_grammar(bump, text));
        let r: &'static [ast::Production<'static>] = unsafe { std::mem::transmute(&ast[..]) };
        let g = Grammar::grammar_from_ast_productions(bump, r);
        let lalr = Box::new(Lalr::new(g));
        Built { lalr: Some(lalr), ast: Some(ast), bump: None }
    })
}
fn build_owned(text: &str) -> Result<Built, String> {
    let b = Box::new(Bump::new());
    let mut r = build(&b, text)?;
    r.bump = Some(b);
    Ok(r)
}
impl Built {
    fn parse(&self, t: &str) -> Result<String, String> {
        let l = self.lalr.as_ref().unwrap();
        guarded(|| l.parse(t))
    }
    fn generate(&self) -> Result<(String, String), String> {
        let b = Bump::new();
        let bs: &'static Bump = unsafe { std::mem::transmute(&b) };
        let ast: &'static [ast::Production<'static>] = unsafe { std::mem::transmute(&self.ast.as_ref().unwrap()[..]) };
        let l: &'static Lalr<'static> = unsafe { std::mem::transmute(&**self.lalr.as_ref().unwrap()) };
        let r = guarded(|| typelalr::codegen::parse_gen::generate(bs, ast, l));
        drop(b);
        match r {
            Ok(Ok(x)) => Ok(x),
            Ok(Err(_)) => Err("generate returned an error".into()),
            Err(e) => Err(e),
        }
    }
}

enum Live {
    P(Built),
    L(Lex),
    R(NFA, DFA),
}
struct Sh(Live);
unsafe impl Send for Sh {}
unsafe impl Sync for Sh {}

fn mk_lexer(ts: &[Tok]) -> Result<Lex, String> {
    guarded(|| {
        let v: Vec<(TokenDef, regex_syntax::hir::Hir)> = ts
            .iter()
            .enumerate()
            .map(|(i, t)| (TokenDef { name: t.name.clone(), with_val: t.val, token_idx: Some(i as u32) }, tok_hir(t).unwrap()))
            .collect();
        Lex::from_tokens(v)
    })
}
fn mk_re(r: &str) -> Result<(NFA, DFA), String> {
    guarded(|| {
        let h = parse_re(r).unwrap();
        (NFA::from_regex(&h), DFA::from_nfa(NFA::from_regex(&h)))
    })
}

struct W {
    plan: &'static Plan,
    exps: &'static Exps,
    slots: Vec<Mutex<Option<Built>>>,
}
static mut SLOT_DUMMY: u8 = 0;

fn put_verdict(c: u32, k: u32, sub: u32, r: Result<String, String>, st: u64) {
    match r {
        Ok(s) => put(c, k, sub, 0, st, s.as_bytes()),
        Err(e) => put(c, k, sub, 1, st, e.as_bytes()),
    }
}
fn put_tokens(w: &W, c: u32, k: u32, sub: u32, r: Result<Vec<Token>, String>, st: u64) {
    match r {
        Ok(v) => {
            let mut s = String::from("U");
            if let Some(Exp { toks: Some(want), .. }) = w.exps.get(&(c, k, sub)) {
                let same = want.len() == v.len()
                    && want.iter().zip(&v).all(|((nm, val), t)| match val {
                        Some(x) => Token::new_with_val(nm.clone(), x.clone()) == *t,
                        None => Token::new(nm.clone()) == *t,
                    });
                s = String::from(if same { "E" } else { "N" });
            }
            s.push_str(&format!("{:?}", v));
            put(c, k, sub, 0, st, s.as_bytes())
        }
        Err(e) => put(c, k, sub, 1, st, e.as_bytes()),
    }
}
/// One timed call
fn call<T>(k: u32, f: impl FnOnce() -> T) -> (T, u64) {
    op_begin(k as i32);
    let r = f();
    let n = op_end();
    (r, n)
}

fn put_gen(c: u32, k: u32, r: Result<(String, String), String>, st: u64) -> Option<(String, String)> {
    match r {
        Ok((l, p)) => {
            put(c, k, GEN_STATUS, 0, st, b"");
            put(c, k, GEN_LEX, 0, 0, l.as_bytes());
            put(c, k, GEN_PARSE, 0, 0, p.as_bytes());
            Some((l, p))
        }
        Err(e) => {
            put(c, k, GEN_STATUS, 1, st, e.as_bytes());
            None
        }
    }
}

/// What a client holds on to between operations; fields drop in this order
struct Mine {
    in_arena: Vec<Built>,
    kept: Vec<Built>,
    objs: Vec<Option<Arc<Sh>>>,
    arena: Option<Box<Bump>>,
}

/// What a call reads: a text that lives as long as the program, one read into the client's line buffer over the last
/// one, or one on the heap that is gone after the call
enum Text {
    Fixed(&'static str),
    Heap(String),
}
impl std::ops::Deref for Text {
    type Target = str;
    fn deref(&self) -> &str {
        match self {
            Text::Fixed(s) => s,
            Text::Heap(s) => s,
        }
    }
}
const LINE: usize = 1 << 14;
static mut LINES: [[u8; LINE]; 8] = [[0; LINE]; 8];
fn input(c: u32, k: u32, sub: u32, t: &'static str) -> Text {
    let c = c as usize;
    match (c as u32 * 5 + k * 3 + sub) % 4 {
        0 | 1 if t.len() <= LINE && c < 8 => unsafe {
            let line = std::ptr::addr_of_mut!(LINES[c]) as *mut u8;
            std::ptr::copy_nonoverlapping(t.as_ptr(), line, t.len());
            Text::Fixed(std::str::from_utf8_unchecked(std::slice::from_raw_parts(line, t.len())))
        },
        2 => Text::Fixed(t),
        _ => Text::Heap(t.to_string()),
    }
}

/// A client that goes through its operations again and again begins no new pass after that many steps
const AGAIN_STEPS: u64 = 250_000_000;

fn client(w: &W, c: u32, mine: &mut Mine) {
    let plan = w.plan;
    let since = rt::steps();
    for pass in 0..=plan.again {
        if pass > 0 && rt::steps() - since > AGAIN_STEPS {
            break;
        }
        for (k, op) in plan.clients[c as usize].iter().enumerate() {
            op_allow(plan.op_limits.get(c as usize).and_then(|v| v.get(k)).copied().unwrap_or(u64::MAX));
            let k = k as u32;
            match op {
                Op::Parse(o, t) => match mine.objs[*o].as_deref() {
                    Some(Sh(Live::P(b))) => {
                        let t = input(c, k, 0, t);
                        let (r, st) = call(k, || b.parse(&t));
                        put_verdict(c, k, 0, r, st)
                    }
                    _ => put(c, k, 0, 2, 0, b""),
                },
                Op::Lex(o, t) => match mine.objs[*o].as_deref() {
                    Some(Sh(Live::L(l))) => {
                        let t = input(c, k, 0, t);
                        let (r, st) = call(k, || guarded(|| l.lex(&t)));
                        put_tokens(w, c, k, 0, r, st)
                    }
                    _ => put(c, k, 0, 2, 0, b""),
                },
                Op::Nfa(o, t) => match mine.objs[*o].as_deref() {
                    Some(Sh(Live::R(a, _))) => {
                        let t = input(c, k, 0, t);
                        let (r, st) = call(k, || guarded(|| a.simulate(&t)));
                        put_verdict(c, k, 0, r.map(|b| b.to_string()), st)
                    }
                    _ => put(c, k, 0, 2, 0, b""),
                },
                Op::Dfa(o, t) => match mine.objs[*o].as_deref() {
                    Some(Sh(Live::R(_, d))) => {
                        let t = input(c, k, 0, t);
                        let (r, st) = call(k, || guarded(|| d.test(&t)));
                        put_verdict(c, k, 0, r.map(|b| b.to_string()), st)
                    }
                    _ => put(c, k, 0, 2, 0, b""),
                },
                Op::Gen(o) => match mine.objs[*o].as_deref() {
                    Some(Sh(Live::P(b))) => {
                        let (r, st) = call(k, || b.generate());
                        put_gen(c, k, r, st);
                    }
                    _ => put(c, k, 0, 2, 0, b""),
                },
                Op::Build { g, arena, gen, keep, inputs } => {
                    let text = plan.grams[*g].text();
                    let (r, st) = if *arena {
                        if mine.arena.is_none() {
                            mine.arena = Some(Box::new(Bump::new()));
                        }
                        let b: &Bump = mine.arena.as_ref().unwrap();
                        call(k, || build(b, &text))
                    } else {
                        call(k, || build_owned(&text))
                    };
                    match r {
                        Err(e) => put(c, k, 0, 1, st, e.as_bytes()),
                        Ok(b) => {
                            put(c, k, 0, 0, st, b"");
                            for (i, t) in inputs.iter().enumerate() {
                                let t = input(c, k, i as u32, t);
                                let (r, st) = call(k, || b.parse(&t));
                                put_verdict(c, k, 1 + i as u32, r, st);
                            }
                            if *gen {
                                let (r, st) = call(k, || b.generate());
                                put_gen(c, k, r, st);
                            }
                            if *keep && pass == 0 {
                                if *arena {
                                    mine.in_arena.push(b)
                                } else {
                                    mine.kept.push(b)
                                }
                            } else {
                                call(k, || drop(b));
                            }
                        }
                    }
                }
                Op::MkLex { l, inputs } => {
                    let ts = &plan.lexes[*l];
                    let (r, st) = call(k, || mk_lexer(ts));
                    match r {
                        Err(e) => put(c, k, 0, 1, st, e.as_bytes()),
                        Ok(l) => {
                            put(c, k, 0, 0, st, b"");
                            for (i, t) in inputs.iter().enumerate() {
                                let t = input(c, k, i as u32, t);
                                let (r, st) = call(k, || guarded(|| l.lex(&t)));
                                put_tokens(w, c, k, 1 + i as u32, r, st);
                            }
                        }
                    }
                }
                Op::MkRe { r, inputs } => {
                    let (r, st) = call(k, || mk_re(&plan.res[*r]));
                    match r {
                        Err(e) => put(c, k, 0, 1, st, e.as_bytes()),
                        Ok((a, d)) => {
                            put(c, k, 0, 0, st, b"");
                            for (i, t) in inputs.iter().enumerate() {
                                let t = input(c, k, i as u32, t);
                                let (r, st) = call(k, || guarded(|| a.simulate(&t)));
                                put_verdict(c, k, 1 + 2 * i as u32, r.map(|b| b.to_string()), st);
                                let (r, st) = call(k, || guarded(|| d.test(&t)));
                                put_verdict(c, k, 2 + 2 * i as u32, r.map(|b| b.to_string()), st);
                            }
                        }
                    }
                }
                Op::Publish { g, slot } => {
                    let text = plan.grams[*g].text();
                    let (r, st) = call(k, || build_owned(&text));
                    match r {
                        Err(e) => put(c, k, 0, 1, st, e.as_bytes()),
                        Ok(b) => {
                            put(c, k, 0, 0, st, b"");
                            let old = w.slots[*slot].lock().unwrap().replace(b);
                            drop(old);
                        }
                    }
                }
                Op::Use { slot, inputs, take } => {
                    let mut b = None;
                    for _ in 0..40 {
                        b = w.slots[*slot].lock().unwrap().take();
                        if b.is_some() {
                            break;
                        }
                        std::thread::yield_now();
                    }
                    match b {
                        None => put(c, k, 0, 2, 0, b""),
                        Some(b) => {
                            for (i, t) in inputs.iter().enumerate() {
                                let t = input(c, k, i as u32, t);
                                let (r, st) = call(k, || b.parse(&t));
                                put_verdict(c, k, 1 + i as u32, r, st);
                            }
                            if *take {
                                drop(b)
                            } else {
                                let old = w.slots[*slot].lock().unwrap().replace(b);
                                drop(old);
                            }
                        }
                    }
                }
                Op::Disk { g, mask, chunk } => {
                    let text = plan.grams[*g].text();
                    let (r, st) = call(k, || build_owned(&text));
                    match r {
                        Err(e) => put(c, k, 0, 1, st, e.as_bytes()),
                        Ok(b) => {
                            put(c, k, 0, 0, st, b"");
                            let (r, st) = call(k, || b.generate());
                            match r {
                                Err(e) => put(c, k, GEN_STATUS, 1, st, e.as_bytes()),
                                Ok((l, p)) => {
                                    put(c, k, GEN_STATUS, 0, st, b"");
                                    for (i, a) in [(0, l), (1, p)] {
                                        if mask & (1 << i) != 0 {
                                            for ch in a.as_bytes().chunks((*chunk).max(1)) {
                                                disk_write(i, ch);
                                            }
                                            disk_commit(i);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                Op::Drop(o) if plan.again == 0 => mine.objs[*o] = None,
                Op::Drop(_) => (),
                Op::Sleep(ns) => std::thread::sleep(std::time::Duration::from_nanos(*ns)),
            }
        }
    }
}

fn round(plan: &'static Plan, exps: &'static Exps) {
    let mut objs: Vec<Option<Arc<Sh>>> = vec![];
    for (i, o) in plan.objs.iter().enumerate() {
        let (r, st) = call(-1i32 as u32, || match o {
            Obj::Parser(g) => build_owned(&plan.grams[*g].text()).map(Live::P),
            Obj::Lexer(l) => mk_lexer(&plan.lexes[*l]).map(Live::L),
            Obj::Re(r) => mk_re(&plan.res[*r]).map(|(a, d)| Live::R(a, d)),
        });
        match r {
            Ok(x) => {
                put(OBJ, i as u32, 0, 0, st, b"");
                objs.push(Some(Arc::new(Sh(x))))
            }
            Err(e) => {
                put(OBJ, i as u32, 0, 1, st, e.as_bytes());
                objs.push(None)
            }
        }
    }
    unsafe { AGAIN = plan.again > 0 };
    mark_shared();
    let only = if plan.each { Some(fork_each(plan.clients.len())) } else { None };
    let nslots = 1 + plan.clients.iter().flatten().filter_map(|o| match o {
        Op::Publish { slot, .. } | Op::Use { slot, .. } => Some(*slot),
        _ => None,
    }).max().unwrap_or(0);
    let w = Arc::new(W { plan, exps, slots: (0..nslots).map(|_| Mutex::new(None)).collect() });
    let mut hs = vec![];
    for c in 0..plan.clients.len() {
        if only.map_or(false, |o| o != c) {
            continue;
        }
        let w = w.clone();
        let objs = objs.clone();
        hs.push(std::thread::spawn(move || {
            let mut mine = Mine { in_arena: vec![], kept: vec![], objs, arena: None };
            client(&w, c as u32, &mut mine);
            drop(mine);
            drop(w);
        }));
    }
    if plan.root_drops_first {
        objs.clear();
    }
    for h in hs {
        if h.join().is_err() {
            violate("harness", format_args!("a client thread panicked"));
        }
    }
    drop(objs);
    drop(w);
}

/// Reference runs that share a build: this process, with the object just built in it, is copied once per client, and
/// each copy goes on with that client alone. Returns in the copies only; the original stops itself after each one, for
/// the worker to read the results.
fn fork_each(n: usize) -> usize {
    unsafe {
        let shm = rt::SHM;
        let head = std::slice::from_raw_parts_mut(shm as *mut u8, std::ptr::addr_of!((*shm).trace) as usize - shm as usize);
        let mut keep = [0u8; HEAD];
        if head.len() > HEAD {
            violate("harness", format_args!("HEAD is {} too small", head.len() - HEAD));
        }
        keep[..head.len()].copy_from_slice(head);
        let reslen = (*shm).reslen;
        for i in 0..n {
            head.copy_from_slice(&keep[..head.len()]);
            (*shm).reslen = reslen;
            let pid = libc::fork();
            if pid == 0 {
                limits();
                return i;
            }
            let mut status = 0;
            while libc::waitpid(pid, &mut status, 0) < 0 {}
            (*shm).each = status as u32;
            // another thread may be the one to take the signal, so this one waits until it has been let go
            libc::kill(rt::sc(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32, libc::SIGSTOP);
            while std::ptr::read_volatile(std::ptr::addr_of!((*shm).go)) == 0 {
                rt::sc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
            }
        }
        raw_exit(0)
    }
}
const HEAD: usize = 1 << 15;

fn limits() {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let it = libc::itimerval { it_interval: std::mem::zeroed(), it_value: libc::timeval { tv_sec: 90, tv_usec: 0 } };
        setitimer(2, &it, std::ptr::null_mut());
        let it = libc::itimerval { it_interval: std::mem::zeroed(), it_value: libc::timeval { tv_sec: 200, tv_usec: 0 } };
        setitimer(0, &it, std::ptr::null_mut());
    }
}

/// Body of the forked child
pub fn child(plan: &'static Plan, exps: &'static Exps, shm: *mut Shm) -> ! {
    let cfg: &'static RunCfg = Box::leak(Box::new(RunCfg {
        sched: plan.sched.clone(),
        fault: plan.fault.clone(),
        env: plan.env.clone(),
        step_limit: plan.step_limit,
        op_limit: plan.op_limit,
        crash: plan.crash,
    }));
    unsafe {
        SLOT_DUMMY = 1;
    }
    if !plan.hook {
        std::panic::set_hook(Box::new(|_| ()));
    }
    rt::begin(cfg, shm);
    // the harness's own thread has a history; nothing under test runs on it
    let root = std::thread::spawn(move || {
        for r in 0..plan.rounds.max(1) {
            if r > 0 {
                // only the first round's results are recorded
                unsafe { rt::RECORD = false }
            }
            if r > 0 && plan.vary {
                let own = Box::into_raw(Box::new(plan.varied(r)));
                unsafe {
                    round(&*own, exps);
                    drop(Box::from_raw(own));
                }
            } else {
                round(plan, exps);
            }
            if plan.each {
                rt::end();
                raw_exit(0);
            }
            note_mem();
        }
    });
    if root.join().is_err() {
        violate("harness", format_args!("the root thread panicked"));
    }
    rt::end();
    raw_exit(0)
}

// ---------------------------------------------------------------- reading a run back

#[derive(Clone, Debug)]
pub struct Rec {
    pub kind: u8,
    pub steps: u64,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug)]
pub enum End {
    Done,
    Crashed,
    Violation(String, String),
    Signal(i32),
    Exit(i32),
}
#[derive(Clone)]
pub struct Outcome {
    pub end: End,
    pub recs: HashMap<(u32, u32, u32), Rec>,
    pub loghash: u64,
    pub ileave: u64,
    pub steps: u64,
    pub now: u64,
    pub cur_op: Vec<i32>,
    pub ooms: u64,
    /// out of memory, which ended the process
    pub oom_end: bool,
    pub maxop: u64,
    pub mem: Vec<[i64; 2]>,
    pub trace: Vec<Ent>,
    pub faults: Vec<FEnt>,
    pub disk: [Option<Vec<u8>>; 2],
    /// files that were being written when the process ended
    pub torn: [bool; 2],
    pub own: Vec<u64>,
    pub disk_at: [u64; 2],
    pub st: Stats,
}
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub switches: u64,
    pub preempts: u64,
    pub hot: u64,
    pub hot_preempts: u64,
    pub allocs: u64,
    pub writes: u64,
    pub rands: u64,
    pub clocks: u64,
    pub clock_jumps: u64,
    pub fwaits: u64,
    pub spurious: u64,
    pub timeouts: u64,
    pub stalls: u64,
    pub tjumps: u64,
    pub threads: u64,
    pub getenvs: u64,
    pub fired: [u64; 16],
}

/// Go on as the program whose functions and statics are elsewhere in memory, with this plan and these results
fn exec_elsewhere(plan: &Plan, shm: *mut Shm) -> ! {
    unsafe {
        let fd = libc::memfd_create(c"plan".as_ptr(), 0);
        let limits = plan.op_limits.iter().map(|c| J::Arr(c.iter().map(|x| J::Int(*x as i128)).collect())).collect();
        let t = J::Arr(vec![plan.to_json(), J::Arr(limits)]).dump();
        let mut at = 0;
        while at < t.len() {
            let n = rt::sc(libc::SYS_write, fd as i64, t.as_ptr().add(at) as i64, (t.len() - at) as i64, 0, 0, 0);
            if n <= 0 {
                raw_exit(97);
            }
            at += n as usize;
        }
        libc::lseek(fd, 0, libc::SEEK_SET);
        let shm = rt::shm_fd(shm);
        libc::dup2(fd, 101);
        libc::dup2(shm, 100);
        let exe = std::fs::read_link("/proc/self/exe").unwrap_or_default().with_file_name("simtl2");
        let exe = std::ffi::CString::new(exe.to_string_lossy().as_bytes()).unwrap();
        let argv = [c"simtl2".as_ptr(), c"plan".as_ptr(), std::ptr::null()];
        let env = [c"SIMTL=1".as_ptr(), std::ptr::null()];
        libc::execve(exe.as_ptr(), argv.as_ptr(), env.as_ptr());
        raw_exit(98)
    }
}
/// The other side
pub fn elsewhere() -> ! {
    let mut t = String::new();
    let mut f: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(101) };
    let j = match std::io::Read::read_to_string(&mut f, &mut t).map_err(|e| e.to_string()).and_then(|_| J::parse(&t)) {
        Ok(J::Arr(j)) if j.len() == 2 => j,
        _ => raw_exit(99),
    };
    drop((t, f));
    let mut p = Plan::from_json(&j[0]);
    p.op_limits = j[1].a().iter().map(|c| c.a().iter().map(|x| x.u()).collect()).collect();
    let p: &'static Plan = Box::leak(Box::new(p));
    let exps = Box::leak(Box::new(expectations(p, &models(p))));
    child(p, exps, rt::map_shm(100))
}

/// Start a child; its pid
fn start(plan: &Plan, exps: &Exps, shm: *mut Shm) -> i32 {
    unsafe {
        let end = std::ptr::addr_of!((*shm).trace) as usize - shm as usize;
        std::ptr::write_bytes(shm as *mut u8, 0, end);
        (*shm).disk_len = [0; 4];
        (*shm).disk_commit = [0; 4];
        (*shm).reslen = 0;
    }
    // the child only reads them
    let plan: &'static Plan = unsafe { std::mem::transmute(plan) };
    let exps: &'static Exps = unsafe { std::mem::transmute(exps) };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        limits();
        if plan.env.elsewhere && !plan.each {
            exec_elsewhere(plan, shm);
        }
        child(plan, exps, shm);
    }
    if pid < 0 {
        eprintln!("fork failed");
        raw_exit(3);
    }
    pid
}

/// One outcome per client of a plan with `each` set
pub fn run_each(plan: &Plan, exps: &Exps, shm: *mut Shm) -> Vec<Outcome> {
    let pid = start(plan, exps, shm);
    let mut v = vec![];
    let mut status = 0;
    loop {
        unsafe {
            while libc::waitpid(pid, &mut status, libc::WUNTRACED) < 0 {}
            if libc::WIFSTOPPED(status) {
                if libc::WSTOPSIG(status) == libc::SIGSTOP && v.len() < plan.clients.len() {
                    v.push(outcome(shm, (*shm).each as i32));
                }
                std::ptr::write_volatile(std::ptr::addr_of_mut!((*shm).go), 1);
                libc::kill(pid, libc::SIGCONT);
                continue;
            }
        }
        break;
    }
    // it did not come to all of them
    while v.len() < plan.clients.len() {
        v.push(outcome(shm, status));
    }
    v
}

pub fn run(plan: &Plan, exps: &Exps, shm: *mut Shm) -> Outcome {
    let pid = start(plan, exps, shm);
    let mut status = 0;
    unsafe {
        while libc::waitpid(pid, &mut status, 0) < 0 {}
    }
    outcome(shm, status)
}

fn outcome(shm: *mut Shm, status: i32) -> Outcome {
    let s = unsafe { &mut *shm };
    let txt = |b: &[u8]| String::from_utf8_lossy(&b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())]).into_owned();
    let end = if libc::WIFSIGNALED(status) {
        End::Signal(libc::WTERMSIG(status))
    } else if s.done == 2 {
        End::Violation(txt(&s.vclass), txt(&s.vmsg))
    } else if s.done == 1 && libc::WEXITSTATUS(status) == 0 {
        if s.crash_tid > 0 {
            End::Crashed
        } else {
            End::Done
        }
    } else {
        End::Exit(libc::WEXITSTATUS(status))
    };
    let mut recs = HashMap::new();
    let b = &s.res[..(s.reslen as usize).min(RESBUF)];
    let mut i = 0;
    let u32at = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let u64at = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    while i + 29 <= b.len() {
        let n = u64at(i + 21) as usize;
        recs.insert((u32at(i), u32at(i + 4), u32at(i + 8)), Rec { kind: b[i + 12], steps: u64at(i + 13), data: b[i + 29..i + 29 + n].to_vec() });
        i += 29 + n;
    }
    let disk = [0, 1].map(|k: usize| if s.disk_commit[k] == 1 { Some(s.disk[k][..s.disk_len[k] as usize].to_vec()) } else { None });
    Outcome {
        end,
        recs,
        loghash: s.loghash,
        ileave: s.ileave,
        steps: s.steps,
        now: s.now,
        cur_op: s.cur_op[..].to_vec(),
        ooms: s.ooms as u64,
        oom_end: s.oom_end > 0,
        maxop: s.maxop,
        mem: s.mem[..s.nmem as usize].to_vec(),
        trace: s.trace[..s.ntrace as usize].to_vec(),
        faults: s.faults[..s.nfault as usize].to_vec(),
        disk,
        torn: [0, 1].map(|k: usize| s.disk_len[k] > 0 && s.disk_commit[k] != 1),
        own: s.own[..].to_vec(),
        disk_at: s.disk_at,
        st: Stats {
            switches: s.switches,
            preempts: s.preempts,
            hot: s.hot,
            hot_preempts: s.hot_preempts,
            allocs: s.allocs,
            writes: s.writes,
            rands: s.rands,
            clocks: s.clocks,
            clock_jumps: s.clock_jumps,
            fwaits: s.fwaits,
            spurious: s.spurious,
            timeouts: s.timeouts,
            stalls: s.stalls,
            tjumps: s.tjumps,
            threads: s.threads,
            getenvs: s.getenvs,
            fired: s.fired,
        },
    }
}
extern "C" {
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}
