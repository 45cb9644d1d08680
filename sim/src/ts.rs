//! Reads the generated artifacts (a parser for the TypeScript declarations they consist of) and runs them.
use crate::model::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
enum K {
    Id(String),
    Num(String),
    Str(String),
    Tmpl(String),
    P(&'static str),
    End,
}
struct Tk {
    k: K,
    nl: bool,
    at: usize,
}

const PUNCT: [&str; 19] = ["...", "=>", "{", "}", "[", "]", "(", ")", "<", ">", "|", "&", "?", ":", ";", ",", "=", ".", "-"];

fn tokens(t: &str) -> Result<Vec<Tk>, String> {
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    let mut nl = false;
    while i < b.len() {
        let c = b[i];
        if c == '\n' {
            nl = true;
            i += 1;
            continue;
        }
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c == '/' && b.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                if b[i] == '\n' {
                    nl = true
                }
                i += 1;
            }
            i += 2;
            continue;
        }
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
            continue;
        }
        let at = i;
        let k = if c.is_ascii_digit() {
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            if i < b.len() && (b[i].is_alphabetic() || b[i] == '_') {
                return Err(format!("identifier right after a number at {}", i));
            }
            K::Num(b[at..i].iter().collect())
        } else if c.is_alphabetic() || c == '_' || c == '$' {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '$') {
                i += 1;
            }
            K::Id(b[at..i].iter().collect())
        } else if c == '"' || c == '\'' || c == '`' {
            i += 1;
            let mut o = String::new();
            loop {
                if i >= b.len() || (b[i] == '\n' && c != '`') {
                    return Err(format!("unterminated string at {}", at));
                }
                if b[i] == c {
                    i += 1;
                    break;
                }
                if b[i] == '\\' {
                    i += 1;
                    if i >= b.len() {
                        return Err("unterminated escape".into());
                    }
                    match b[i] {
                        'n' => o.push('\n'),
                        't' => o.push('\t'),
                        'r' => o.push('\r'),
                        x => o.push(x),
                    }
                } else {
                    o.push(b[i]);
                }
                i += 1;
            }
            if c == '`' {
                K::Tmpl(o)
            } else {
                K::Str(o)
            }
        } else {
            let mut f = None;
            for p in PUNCT {
                let q: Vec<char> = p.chars().collect();
                if b[i..].starts_with(&q) {
                    f = Some(p);
                    break;
                }
            }
            match f {
                Some(p) => {
                    i += p.len();
                    K::P(p)
                }
                None => return Err(format!("unexpected {:?} at {}", c, i)),
            }
        };
        v.push(Tk { k, nl, at });
        nl = false;
    }
    v.push(Tk { k: K::End, nl: true, at: i });
    Ok(v)
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Str(String),
    Num(String),
    Tmpl(String),
    Id(String, Vec<T>),
    Obj(Vec<(String, T)>),
    Tup(Vec<T>),
    Cond(Box<[T; 4]>),
    Idx(Box<T>, Box<T>),
    Arr(Box<T>),
    Union(Vec<T>),
    Inter(Vec<T>),
    Infer(String, Option<Box<T>>),
    Rest(Box<T>),
    Op(String, Box<T>),
}

#[derive(Debug, Default)]
pub struct Module {
    pub imports: Vec<String>,
    pub params: BTreeMap<String, Vec<String>>,
    pub types: BTreeMap<String, T>,
    pub mods: BTreeMap<String, Module>,
}

struct P {
    t: Vec<Tk>,
    i: usize,
    noc: bool,
}
type R<X> = Result<X, String>;
impl P {
    fn pk(&self) -> &K {
        &self.t[self.i].k
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.pk(), K::P(q) if *q == p)
    }
    fn isid(&self, p: &str) -> bool {
        matches!(self.pk(), K::Id(q) if q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.is(p) || self.isid(p);
        if r {
            self.i += 1
        }
        r
    }
    fn want(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(format!("expected `{}` but found {:?} at {}", p, self.pk(), self.t[self.i].at))
        }
    }
    fn id(&mut self) -> R<String> {
        if let K::Id(x) = self.pk() {
            let x = x.clone();
            self.i += 1;
            Ok(x)
        } else {
            Err(format!("expected a name but found {:?} at {}", self.pk(), self.t[self.i].at))
        }
    }
    fn items(&mut self, top: bool) -> R<Module> {
        let mut m = Module::default();
        loop {
            while self.eat(";") {}
            match self.pk() {
                K::End if top => return Ok(m),
                K::P("}") if !top => {
                    self.i += 1;
                    return Ok(m);
                }
                _ => (),
            }
            if self.eat("import") {
                self.want("*")?;
                continue;
            }
            self.eat("export");
            self.eat("declare");
            if self.eat("module") || self.eat("namespace") {
                let n = self.id()?;
                self.want("{")?;
                let c = self.items(false)?;
                if m.mods.insert(n.clone(), c).is_some() {
                    return Err(format!("module {} twice", n));
                }
            } else {
                self.want("type")?;
                let n = self.id()?;
                let mut params = vec![];
                if self.eat("<") {
                    while !self.eat(">") {
                        params.push(self.id()?);
                        if self.eat("extends") {
                            self.ty()?;
                        }
                        if !self.is(">") {
                            self.want(",")?;
                        }
                    }
                }
                self.want("=")?;
                let t = self.ty()?;
                if !self.eat(";") && !self.t[self.i].nl && !self.is("}") {
                    return Err(format!("junk after type {} at {}: {:?}", n, self.t[self.i].at, self.pk()));
                }
                if m.types.insert(n.clone(), t).is_some() {
                    return Err(format!("type {} twice", n));
                }
                m.params.insert(n, params);
            }
        }
    }
    fn with<X>(&mut self, noc: bool, f: impl FnOnce(&mut Self) -> R<X>) -> R<X> {
        let o = std::mem::replace(&mut self.noc, noc);
        let r = f(self);
        self.noc = o;
        r
    }
    fn ty(&mut self) -> R<T> {
        let a = self.union()?;
        if !self.noc && !self.t[self.i].nl && self.eat("extends") {
            let b = self.with(true, |p| p.union())?;
            self.want("?")?;
            let c = self.with(false, |p| p.ty())?;
            self.want(":")?;
            let d = self.with(false, |p| p.ty())?;
            return Ok(T::Cond(Box::new([a, b, c, d])));
        }
        Ok(a)
    }
    fn union(&mut self) -> R<T> {
        self.eat("|");
        let mut v = vec![self.inter()?];
        while self.eat("|") {
            v.push(self.inter()?)
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { T::Union(v) })
    }
    fn inter(&mut self) -> R<T> {
        self.eat("&");
        let mut v = vec![self.unary()?];
        while self.eat("&") {
            v.push(self.unary()?)
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { T::Inter(v) })
    }
    fn unary(&mut self) -> R<T> {
        if self.isid("keyof") || self.isid("readonly") || self.isid("unique") {
            let o = self.id()?;
            return Ok(T::Op(o, Box::new(self.unary()?)));
        }
        if self.eat("infer") {
            let n = self.id()?;
            if self.isid("extends") {
                let save = self.i;
                self.i += 1;
                let c = self.with(true, |p| p.union());
                match c {
                    Ok(c) if self.noc || !self.is("?") => return Ok(T::Infer(n, Some(Box::new(c)))),
                    _ => self.i = save,
                }
            }
            return Ok(T::Infer(n, None));
        }
        let mut a = self.prim()?;
        while self.is("[") && !self.t[self.i].nl {
            self.i += 1;
            if self.eat("]") {
                a = T::Arr(Box::new(a));
            } else {
                let b = self.with(false, |p| p.ty())?;
                self.want("]")?;
                a = T::Idx(Box::new(a), Box::new(b));
            }
        }
        Ok(a)
    }
    fn prim(&mut self) -> R<T> {
        let k = self.pk().clone();
        match k {
            K::Str(s) => {
                self.i += 1;
                Ok(T::Str(s))
            }
            K::Num(s) => {
                self.i += 1;
                Ok(T::Num(s))
            }
            K::Tmpl(s) => {
                self.i += 1;
                Ok(T::Tmpl(s))
            }
            K::Id(_) => {
                let mut n = self.id()?;
                while self.is(".") {
                    self.i += 1;
                    n = format!("{}.{}", n, self.id()?);
                }
                let mut a = vec![];
                if self.is("<") && !self.t[self.i].nl {
                    self.i += 1;
                    loop {
                        a.push(self.with(false, |p| p.ty())?);
                        if self.eat(">") {
                            break;
                        }
                        self.want(",")?;
                    }
                }
                Ok(T::Id(n, a))
            }
            K::P("(") => {
                self.i += 1;
                let t = self.with(false, |p| p.ty())?;
                self.want(")")?;
                Ok(t)
            }
            K::P("[") => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat("]") {
                    let rest = self.eat("...");
                    if let (K::Id(_), K::P(":")) = (self.pk(), &self.t[self.i + 1].k) {
                        self.i += 2;
                    }
                    let t = self.with(false, |p| p.ty())?;
                    self.eat("?");
                    v.push(if rest { T::Rest(Box::new(t)) } else { t });
                    if !self.is("]") {
                        self.want(",")?;
                    }
                }
                Ok(T::Tup(v))
            }
            K::P("{") => {
                self.i += 1;
                let mut v: Vec<(String, T)> = vec![];
                while !self.eat("}") {
                    let key = match self.pk().clone() {
                        K::Id(x) | K::Str(x) | K::Num(x) => x,
                        x => return Err(format!("bad member {:?} at {}", x, self.t[self.i].at)),
                    };
                    self.i += 1;
                    self.eat("?");
                    self.want(":")?;
                    let t = self.with(false, |p| p.ty())?;
                    if v.iter().any(|(k, _)| *k == key) {
                        return Err(format!("member {:?} twice", key));
                    }
                    v.push((key, t));
                    if !self.is("}") && !self.eat(",") && !self.eat(";") && !self.t[self.i].nl {
                        return Err(format!("members not separated at {}", self.t[self.i].at));
                    }
                }
                Ok(T::Obj(v))
            }
            k => Err(format!("expected a type but found {:?} at {}", k, self.t[self.i].at)),
        }
    }
}

fn module(t: &str) -> R<Module> {
    // imports are the only statements that aren't types
    let mut o = String::new();
    let mut imports = vec![];
    for l in t.lines() {
        match l.trim_start().strip_prefix("import ") {
            None => o.push_str(l),
            // import * as L from "./lex"
            Some(x) => imports.extend(x.split_whitespace().skip_while(|w| *w != "as").nth(1).map(|w| w.to_string())),
        }
        o.push('\n');
    }
    let mut p = P { t: tokens(&o)?, i: 0, noc: false };
    let mut m = p.items(true)?;
    m.imports = imports;
    Ok(m)
}
pub fn ty(t: &str) -> R<T> {
    let mut p = P { t: tokens(t)?, i: 0, noc: false };
    let r = p.ty()?;
    if *p.pk() != K::End {
        return Err(format!("junk after a type: {:?}", p.pk()));
    }
    Ok(r)
}

// ---------------------------------------------------------------- decoding

impl T {
    fn get(&self, k: &str) -> R<&T> {
        match self {
            T::Obj(v) => v.iter().find(|(a, _)| a == k).map(|(_, t)| t).ok_or_else(|| format!("no member {:?}", k)),
            _ => Err(format!("not an object type, looking for {:?}", k)),
        }
    }
    fn has(&self, k: &str) -> bool {
        self.get(k).is_ok()
    }
    fn members(&self) -> R<&[(String, T)]> {
        match self {
            T::Obj(v) => Ok(v),
            _ => Err("expected an object type".into()),
        }
    }
    fn tup(&self) -> R<&[T]> {
        match self {
            T::Tup(v) => Ok(v),
            _ => Err("expected a tuple type".into()),
        }
    }
    fn num(&self) -> R<usize> {
        match self {
            T::Num(n) => n.parse().map_err(|_| "bad number".to_string()),
            x => Err(format!("expected a number, found {:?}", x)),
        }
    }
    fn string(&self) -> R<&str> {
        match self {
            T::Str(n) => Ok(n),
            x => Err(format!("expected a string, found {:?}", x)),
        }
    }
}
fn key(k: &str) -> R<usize> {
    k.parse().map_err(|_| format!("key {:?} is not a number", k))
}

pub struct LexArt {
    defs: HashMap<usize, (String, bool)>,
    states: Vec<(Vec<usize>, Vec<(u32, u32)>, bool)>,
    nfa: HashMap<usize, Vec<usize>>,
}
enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}
pub struct ParseArt {
    kinds: HashMap<String, usize>,
    prods: BTreeMap<usize, (String, Vec<usize>)>,
    action: HashMap<(usize, usize), Act>,
    goto: HashMap<(usize, String), usize>,
    tokens: BTreeMap<usize, (String, String)>,
    /// production -> (popped, kind, code)
    emit: BTreeMap<usize, (usize, String, T)>,
    defs: Module,
    actions: Module,
}

pub fn lex_art(t: &str) -> R<LexArt> {
    let m = module(t)?;
    let res = |x: &T| -> R<T> {
        match x {
            T::Id(n, _) => m.types.get(n).cloned().ok_or_else(|| format!("type {} is not declared", n)),
            x => Ok(x.clone()),
        }
    };
    let g = |n: &str| m.types.get(n).ok_or_else(|| format!("type {} is not declared", n));
    let mut a = LexArt { defs: HashMap::new(), states: vec![], nfa: HashMap::new() };
    for (k, d) in g("Tokens")?.members()? {
        let d = res(d)?;
        let val = match d.get("hasValue")? {
            T::Id(x, _) => x == "true",
            _ => return Err("hasValue".into()),
        };
        a.defs.insert(key(k)?, (d.get("kind")?.string()?.to_string(), val));
    }
    for s in g("States")?.tup()? {
        let s = res(s)?;
        let to = s.get("to")?.tup()?.iter().map(|x| x.num()).collect::<R<Vec<_>>>()?;
        let labels = s.get("labels")?.tup()?.iter().map(|x| Ok((x.get("from")?.num()? as u32, x.get("to")?.num()? as u32))).collect::<R<Vec<_>>>()?;
        if to.len() != labels.len() {
            return Err("a state has more targets than labels or the other way round".into());
        }
        let acc = matches!(s.get("accepting"), Ok(T::Id(x, _)) if x == "true");
        a.states.push((to, labels, acc));
    }
    for (k, v) in g("DFAtoNFA")?.members()? {
        a.nfa.insert(key(k)?, v.tup()?.iter().map(|x| x.num()).collect::<R<Vec<_>>>()?);
    }
    Ok(a)
}

fn par_uses(t: &str, x: &str) -> bool {
    let x = format!(" {}.", x);
    t.contains(&x)
}

pub fn parse_art(t: &str) -> R<ParseArt> {
    let m = module(t)?;
    let td = m.mods.get("type_defs").ok_or("no module type_defs")?;
    let ac = m.mods.get("actions").ok_or("no module actions")?;
    let g = |n: &str| td.types.get(n).ok_or_else(|| format!("type {} is not declared", n));
    let mut a = ParseArt { kinds: HashMap::new(), prods: BTreeMap::new(), action: HashMap::new(), goto: HashMap::new(), tokens: BTreeMap::new(), emit: BTreeMap::new(), defs: Module::default(), actions: Module::default() };
    for (k, v) in g("TokenKindToIdx")?.members()? {
        a.kinds.insert(k.clone(), v.num()?);
    }
    for (k, v) in g("Tokens")?.members()? {
        let val = if v.has("value") { v.get("value")?.string()?.to_string() } else { String::new() };
        a.tokens.insert(key(k)?, (v.get("kind")?.string()?.to_string(), val));
    }
    for (k, v) in g("Productions")?.members()? {
        let toks = v.get("tokens")?.tup()?.iter().map(|x| x.num()).collect::<R<Vec<_>>>()?;
        a.prods.insert(key(k)?, (v.get("name")?.string()?.to_string(), toks));
    }
    for (s, row) in g("Action")?.members()? {
        for (t, v) in row.members()? {
            let x = if v.has("shift") {
                Act::Shift(v.get("shift")?.num()?)
            } else if v.has("reduce") {
                Act::Reduce(v.get("reduce")?.num()?)
            } else if v.has("accept") {
                Act::Accept
            } else {
                return Err("an action that is none".into());
            };
            a.action.insert((key(s)?, key(t)?), x);
        }
    }
    for (s, row) in g("Goto")?.members()? {
        for (t, v) in row.members()? {
            a.goto.insert((key(s)?, t.clone()), v.num()?);
        }
    }
    // EmitProduction: a chain of conditions on the production index
    let mut e = ac.types.get("EmitProduction").ok_or("no EmitProduction")?;
    while let T::Cond(c) = e {
        let idx = c[1].num()?;
        let f = match &c[2] {
            T::Id(n, _) => n.strip_prefix("actions.").unwrap_or(n).to_string(),
            x => return Err(format!("EmitProduction selects {:?}", x)),
        };
        let act = ac.types.get(&f).ok_or_else(|| format!("{} is not declared", f))?;
        let pop = match act {
            T::Cond(c) => match &c[0] {
                T::Id(_, args) if args.len() == 2 => args[1].num()?,
                _ => return Err(format!("{} pops nothing", f)),
            },
            _ => return Err(format!("{} is not a condition", f)),
        };
        let mut x = act;
        while let T::Cond(c) = x {
            x = &c[2];
        }
        let first = x.tup()?.first().ok_or("an action pushes nothing")?;
        a.emit.entry(idx).or_insert((pop, first.get("kind")?.string()?.to_string(), first.get("value")?.clone()));
        e = &c[3];
    }
    let mut m = m;
    for x in ["L", "U"] {
        if par_uses(t, x) && !m.imports.iter().any(|i| i == x) {
            return Err(format!("{} is used but not imported", x));
        }
    }
    a.defs = m.mods.remove("type_defs").unwrap();
    a.actions = m.mods.remove("actions").unwrap();
    Ok(a)
}

// ---------------------------------------------------------------- the actions, evaluated

type Env = HashMap<String, T>;
fn st(x: &str) -> T {
    T::Str(x.to_string())
}
impl ParseArt {
    /// The type `t` stands for; what a name bound to nothing stands for is left as it is
    fn eval(&self, t: &T, env: &Env, fuel: &mut u32) -> R<T> {
        if *fuel == 0 {
            return Err("an action does not end".into());
        }
        *fuel -= 1;
        Ok(match t {
            T::Id(n, args) => {
                let plain = n.rsplit('.').next().unwrap();
                if let (Some(v), true) = (env.get(n), args.is_empty()) {
                    return Ok(v.clone());
                }
                let vs = args.iter().map(|a| self.eval(a, env, fuel)).collect::<R<Vec<_>>>()?;
                if plain == "PopNStackWithValue" && vs.len() == 2 {
                    let (all, k) = (vs[0].tup()?, vs[1].num()?);
                    if k > all.len() {
                        return Ok(T::Id("never".into(), vec![]));
                    }
                    let mut vals = all[..k].to_vec();
                    vals.reverse();
                    return Ok(T::Tup(vec![T::Tup(all[k..].to_vec()), T::Tup(vals)]));
                }
                if !args.is_empty() {
                    let ps = self.actions.params.get(plain).ok_or_else(|| format!("{} is not declared", n))?;
                    if ps.len() != vs.len() {
                        return Err(format!("{} takes {} arguments", n, ps.len()));
                    }
                    let e: Env = ps.iter().cloned().zip(vs).collect();
                    return self.eval(&self.actions.types[plain], &e, fuel);
                }
                t.clone()
            }
            T::Cond(c) => {
                let v = self.eval(&c[0], env, fuel)?;
                let mut e = env.clone();
                if self.fits(&v, &c[1], &mut e, fuel)? {
                    self.eval(&c[2], &e, fuel)?
                } else {
                    self.eval(&c[3], env, fuel)?
                }
            }
            T::Tup(v) => {
                let mut o = vec![];
                for x in v {
                    match x {
                        T::Rest(y) => match self.eval(y, env, fuel)? {
                            T::Tup(w) => o.extend(w),
                            y => o.push(T::Rest(Box::new(y))),
                        },
                        x => o.push(self.eval(x, env, fuel)?),
                    }
                }
                T::Tup(o)
            }
            T::Obj(v) => T::Obj(v.iter().map(|(k, x)| Ok((k.clone(), self.eval(x, env, fuel)?))).collect::<R<Vec<_>>>()?),
            T::Idx(a, b) => {
                let (a, b) = (self.eval(a, env, fuel)?, self.eval(b, env, fuel)?);
                match (&a, &b) {
                    (T::Obj(_), T::Str(k)) if a.has(k) => a.get(k)?.clone(),
                    (T::Obj(_), T::Str(_)) => T::Id("undefined".into(), vec![]),
                    _ => T::Idx(Box::new(a), Box::new(b)),
                }
            }
            T::Arr(a) => T::Arr(Box::new(self.eval(a, env, fuel)?)),
            T::Union(v) => T::Union(v.iter().map(|x| self.eval(x, env, fuel)).collect::<R<Vec<_>>>()?),
            T::Inter(v) => T::Inter(v.iter().map(|x| self.eval(x, env, fuel)).collect::<R<Vec<_>>>()?),
            T::Op(o, a) => T::Op(o.clone(), Box::new(self.eval(a, env, fuel)?)),
            x => x.clone(),
        })
    }
    /// Does the value extend the pattern? Values of nonterminals are taken to be of the type they were given (see C24)
    fn fits(&self, v: &T, pat: &T, env: &mut Env, fuel: &mut u32) -> R<bool> {
        Ok(match pat {
            T::Infer(n, c) => {
                let ok = match c {
                    Some(c) => self.fits(v, c, env, fuel)?,
                    None => true,
                };
                if ok {
                    env.insert(n.clone(), v.clone());
                }
                ok
            }
            T::Str(_) | T::Num(_) => v == pat,
            T::Tup(ps) => match v {
                T::Tup(vs) if vs.len() == ps.len() => {
                    for (v, p) in vs.iter().zip(ps) {
                        if !self.fits(v, p, env, fuel)? {
                            return Ok(false);
                        }
                    }
                    true
                }
                _ => false,
            },
            T::Obj(ps) => {
                for (k, p) in ps {
                    if !v.has(k) || !self.fits(v.get(k)?, p, env, fuel)? {
                        return Ok(false);
                    }
                }
                true
            }
            T::Arr(p) => match v {
                T::Tup(vs) => {
                    for v in vs {
                        if !self.fits(v, p, env, fuel)? {
                            return Ok(false);
                        }
                    }
                    true
                }
                _ => false,
            },
            T::Id(n, a) if a.is_empty() => match n.as_str() {
                "string" => matches!(v, T::Str(_)),
                "any" | "unknown" => true,
                "L.Token" => v.has("kind"),
                "Symbol" | "type_defs.Symbol" => v.has("kind"),
                _ => match env.get(n) {
                    Some(w) => v == w,
                    None if self.actions.types.contains_key(n.trim_start_matches("actions.")) => true,
                    None => return Err(format!("{} is not declared", n)),
                },
            },
            p => return Err(format!("unexpected pattern {:?}", p)),
        })
    }
}

impl LexArt {
    /// (kind, byte range) of the tokens, and where lexing stopped
    pub fn lex(&self, input: &str) -> R<(Vec<(String, usize, usize, bool)>, usize)> {
        let c: Vec<char> = input.chars().collect();
        let mut at: Vec<usize> = input.char_indices().map(|(i, _)| i).collect();
        at.push(input.len());
        let mut out = vec![];
        let mut i = 0;
        while i < c.len() {
            let mut st = 0;
            let mut j = i;
            let mut best = None;
            while j < c.len() {
                let s = self.states.get(st).ok_or("state out of range")?;
                let x = c[j] as u32;
                match s.1.iter().position(|(a, b)| *a <= x && x < *b) {
                    None => break,
                    Some(k) => {
                        st = s.0[k];
                        j += 1;
                        if self.states.get(st).ok_or("state out of range")?.2 {
                            best = Some((j, st));
                        }
                    }
                }
            }
            match best {
                Some((e, st)) => {
                    let n = self.nfa.get(&st).ok_or("accepting state without NFA states")?;
                    let d = n.iter().find_map(|x| self.defs.get(x)).ok_or("accepting state without token")?;
                    out.push((d.0.clone(), at[i], at[e], d.1));
                    i = e;
                }
                None if (c[i] == ' ' || c[i] == '\n') && j == i => i += 1,
                None => break,
            }
        }
        Ok((out, at[i]))
    }
}

/// Accepts? Every reduction has to be by the production whose symbols are there, and its action has to make of them
/// what the grammar's code for that production says
pub fn parse(l: &LexArt, p: &ParseArt, g: &G, input: &str) -> R<bool> {
    let (toks, stop) = l.lex(input)?;
    if stop != input.len() {
        return Ok(false);
    }
    let mut ids = vec![];
    for (k, ..) in &toks {
        ids.push(*p.kinds.get(k).ok_or_else(|| format!("kind {:?} has no index", k))?);
    }
    ids.push(*p.kinds.get("EOF").ok_or("EOF has no index")?);
    let mut st = vec![0usize];
    // topmost first, as the actions have it
    let mut symbols: Vec<T> = vec![];
    let mut i = 0;
    let mut fuel = 200_000;
    loop {
        fuel -= 1;
        if fuel == 0 {
            return Err("the tables loop".into());
        }
        match p.action.get(&(*st.last().unwrap(), ids[i])) {
            None => return Ok(false),
            Some(Act::Accept) => return Ok(true),
            Some(Act::Shift(s)) => {
                st.push(*s);
                if let Some((k, a, b, val)) = toks.get(i) {
                    let mut t = vec![("kind".to_string(), self::st(k))];
                    if *val {
                        t.push(("value".into(), self::st(&input[*a..*b])));
                    }
                    symbols.push(T::Obj(vec![("kind".into(), self::st("token")), ("token".into(), T::Obj(t))]));
                }
                if i + 1 < ids.len() {
                    i += 1
                }
            }
            Some(Act::Reduce(r)) => {
                let (name, toks) = p.prods.get(r).ok_or("reduce by no production")?;
                // what the action pops has to agree with the tables
                let pop = p.emit.get(r).ok_or_else(|| format!("production {} has no action", r))?.0;
                if pop != toks.len() || st.len() <= pop {
                    return Err(format!("production {} has {} symbols but its action pops {}", r, toks.len(), pop));
                }
                st.truncate(st.len() - toks.len());
                p.reduce(*r, g, name, toks, &mut symbols)?;
                let g = p.goto.get(&(*st.last().unwrap(), name.clone())).ok_or_else(|| format!("no goto on {}", name))?;
                st.push(*g);
            }
        }
    }
}

impl ParseArt {
    fn reduce(&self, r: usize, g: &G, name: &str, toks: &[usize], symbols: &mut Vec<T>) -> R<()> {
        let kids = symbols.split_off(symbols.len().checked_sub(toks.len()).ok_or("too few symbols")?);
        let mut vals = vec![];
        for (k, t) in kids.iter().zip(toks) {
            let (kind, text) = self.tokens.get(t).ok_or("undeclared token")?;
            let tok = kind != "nonterminal";
            let there = if tok { k.get("kind")?.string()? == "token" && k.get("token")?.get("kind")?.string()? == text } else { k.get("kind")?.string()? == text };
            if !there {
                return Err(format!("production {} of {} is reduced where its symbol {:?} is {:?}", r, name, text, k));
            }
            vals.push(if tok { k.get("token")?.get("value").cloned().unwrap_or(st("")) } else { k.get("value")?.clone() });
        }
        let syms: Vec<(String, String)> = toks.iter().map(|t| self.tokens[t].clone()).collect();
        // equal productions of one nonterminal would be a conflict
        let b = match g.nts.iter().filter(|n| n.name == name).flat_map(|n| n.bodies.iter()).find(|b| b.syms.len() == syms.len() && b.syms.iter().zip(&syms).all(|((_, y), s)| want_sym(y) == *s)) {
            Some(b) => b,
            None => return Err(format!("reduction by {} of {:?}, which is no production", name, syms)),
        };
        let env: Env = b.syms.iter().zip(vals).filter_map(|((n, _), v)| Some((n.clone()?, v))).collect();
        let mut fuel = 100_000;
        let want = self.eval(&ty(&b.code)?, &env, &mut fuel)?;
        let mut top: Vec<T> = kids;
        top.reverse();
        top.extend(symbols.last().cloned());
        let e = [("s".to_string(), T::Tup(top)), ("i".to_string(), T::Num(r.to_string()))].into_iter().collect();
        let ps = self.actions.params.get("EmitProduction").ok_or("no EmitProduction")?;
        if ps.len() != 2 {
            return Err("EmitProduction takes no two arguments".into());
        }
        let call = T::Id("EmitProduction".into(), vec![T::Id("i".into(), vec![]), T::Id("s".into(), vec![])]);
        let got = self.eval(&call, &e, &mut fuel)?;
        let mut want = vec![T::Obj(vec![("kind".into(), st(name)), ("value".into(), want)])];
        want.extend(symbols.last().cloned());
        if got != T::Tup(want.clone()) {
            return Err(format!("action of production {} of {} makes {:?}, expected {:?}", r, name, got, want));
        }
        symbols.push(want.swap_remove(0));
        Ok(())
    }
}
fn want_sym(y: &Sym) -> (String, String) {
    match y {
        Sym::Lit(t) => ("strlit".to_string(), spelled(t)),
        Sym::Re(t) => ("regex".to_string(), spelled(t)),
        Sym::Nt(t) => ("nonterminal".to_string(), t.clone()),
    }
}

/// Every production with its own code and length, nothing else
pub fn pairing(p: &ParseArt, g: &G) -> R<()> {
    let mut want: Vec<(String, Vec<(String, String)>, T)> = vec![];
    for n in &g.nts {
        match p.actions.types.get(&n.name) {
            Some(t) if *t == ty(&n.ty)? => (),
            t => return Err(format!("the type of {} is {:?} instead of {:?}", n.name, t, n.ty)),
        }
        for b in &n.bodies {
            let syms = b
                .syms
                .iter()
                .map(|(_, y)| want_sym(y))
                .collect();
            want.push((n.name.clone(), syms, ty(&b.code)?));
        }
    }
    for (i, (name, toks)) in &p.prods {
        let mut syms = vec![];
        for t in toks {
            syms.push(p.tokens.get(t).cloned().ok_or_else(|| format!("token {} is not declared", t))?);
        }
        let e = match p.emit.get(i) {
            Some(e) => e,
            None if *i == 0 => continue, // the augmented production has no action
            None => return Err(format!("production {} has no action", i)),
        };
        if e.0 != toks.len() {
            return Err(format!("action of production {} pops {} of {} symbols", i, e.0, toks.len()));
        }
        if e.1 != *name {
            return Err(format!("action of production {} ({}) makes a {}", i, name, e.1));
        }
        match want.iter().position(|w| w.0 == *name && w.1 == syms && w.2 == e.2) {
            Some(k) => {
                want.swap_remove(k);
            }
            None => return Err(format!("production {} ({} of {:?}) is paired with the code {:?}", i, name, syms, e.2)),
        }
    }
    match want.first() {
        None => Ok(()),
        Some(w) => Err(format!("production {} of {:?} is missing", w.0, w.1)),
    }
}

/// Check one pair of artifacts against grammar and inputs. Err((class, message))
pub fn check_pair(lex: &str, par: &str, g: &G, m: &M, inputs: &[String]) -> Result<(u64, u64), (String, String)> {
    let e = |c: &str| {
        let c = c.to_string();
        move |x: String| (c.clone(), x)
    };
    let l = lex_art(lex).map_err(e("artifact-syntax"))?;
    let p = parse_art(par).map_err(e("artifact-syntax"))?;
    pairing(&p, g).map_err(e("artifact-pairing"))?;
    let (mut yes, mut no) = (0, 0);
    for t in inputs {
        let (toks, stop) = munch(&m.hirs, t);
        let (got, gstop) = l.lex(t).map_err(e("artifact-lexer"))?;
        let want: Vec<(String, usize, usize)> = toks
            .iter()
            .map(|(k, a, b)| {
                let n = match &m.terms[*k] {
                    Sym::Lit(x) | Sym::Re(x) | Sym::Nt(x) => spelled(x),
                };
                (n, *a, *b)
            })
            .collect();
        if got.iter().map(|x| (x.0.clone(), x.1, x.2)).ne(want.iter().cloned()) || stop != gstop {
            return Err(("artifact-lexer".into(), format!("input {:?}: lexer artifact yields {:?} up to {}, expected {:?} up to {}", t, got, gstop, want, stop)));
        }
        if toks.len() > 260 {
            continue;
        }
        let acc = stop == t.len() && m.derives(&toks.iter().map(|x| x.0).collect::<Vec<_>>());
        let r = parse(&l, &p, g, t).map_err(e("artifact-parser"))?;
        if r != acc {
            return Err(("artifact-parser".into(), format!("input {:?}: the artifacts {} it, expected the opposite", t, if r { "accept" } else { "refuse" })));
        }
        if acc {
            yes += 1
        } else {
            no += 1
        }
    }
    Ok((yes, no))
}

/// A terminal as TypeScript reads it
pub fn spelled(x: &str) -> String {
    let mut o = String::new();
    let mut c = x.chars();
    while let Some(k) = c.next() {
        o.push(if k != '\\' {
            k
        } else {
            match c.next() {
                Some('n') => '\n',
                Some('t') => '\t',
                Some('r') => '\r',
                Some(k) => k,
                None => '\\',
            }
        })
    }
    o
}
