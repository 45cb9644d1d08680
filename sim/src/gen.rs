//! Generators of grammars, token sets, regular expressions and inputs.
use crate::model::*;
use crate::rt::Rng;
use regex_syntax::hir::{Class, Hir, HirKind, Literal, RepetitionKind};

const LITS: &[&str] = &[
    "+", "-", "*", "/", "(", ")", "[", "]", "{", "}", ",", ";", ":", "=", "==", "=>", "<", "<=", "!", "!=", "if", "else", "then", "let",
    "in", "fn", "é", "λ", "→", "日本", "a", "b", "c", "d", "aa", "ab", "abc", "while", "do", ".", "..", "...", "x", "y", "1", "a b", "&&", "||",
    "ελ", "😀", "_", "EOL", "?", "@",
    "IF", "If", "TRUE", "true", "null", "0", "10", "007", "__proto__", "constructor", "${x}", "`", "'", "//", "/*", "-1",
];
const RES: &[&str] = &[
    "[0-9]+", "[a-z]+", "[a-zA-Z_][a-zA-Z0-9_]*", "[1-9][0-9]*", "(ab)+", "a(b|c)*d", "[α-ω]+", "é+", "x?y", "[0-9]+[.][0-9]+", "#[a-z]*",
    "0|[1-9][0-9]*", "[A-Z][a-z]*", "(a|b)*c", "[à-ÿ]+", "日+", "'[^']*'", "[ぁ-ん]", "--?", "[a-f0-9][a-f0-9]", "ab?c?", "(foo|foobar)", "[^a-z \n]",
    "~.", "%[ ]?[a-z]+", "[😀-😎]+", "if|fi", "=+", "(xy?)+z", "[a-m]+[n-z]*",
    "[A-Z0-9]+", "[I-T][F-R]", "//[^\n]*", "\\\\", "\\\\[a-z]", "[^\\\\ ]\\\\+", "[a-z]+|[0-9]", "(a|b)(a|b|c)*;", "[!-~]",
    "(?i)if", "(?i)[k-s]+", "[[:alpha:]]+", "[[:punct:]]",
];
/// What a grammar's text cannot spell
const CLASSES: &[&str] = &["\\d+", "\\s+", "\\p{Greek}+", "\\d+[.]\\d*", "[\\d\\s]", "\\p{Sc}?\\d", "\\P{Greek}"];
const HUGE: &[&str] = &["\\w+", "\\pL+", "\\W", "[\\pL_]\\d?"];
const NAMES: [&str; 24] = [
    "Expr", "Term", "Factor", "List", "Item", "Stmt", "Block", "Atom", "Pair", "Value", "S", "A", "B", "C", "Decl", "Args", "Num", "Op",
    "Prog", "Tail", "Head", "X_1", "_y", "Obj",
];

/// A class of very many ranges
fn scattered(r: &mut Rng) -> String {
    let (from, to) = *r.pick(&[(0x4e00, 0x9f00), (0x3b1, 0x2000), (0x61, 0x17f), (0x1f600, 0x20000)]);
    let n = r.range(20, 140);
    let c: std::collections::BTreeSet<char> = (0..n).filter_map(|_| char::from_u32(r.range(from, to) as u32)).filter(|c| c.is_alphanumeric()).collect();
    let c: String = c.into_iter().collect();
    format!("[{}z]", c)
}
pub fn rand_re(r: &mut Rng, d: usize) -> String {
    if r.chance(1, 150) {
        return scattered(r);
    }
    match r.below(if d == 0 { 5 } else { 12 }) {
        0 | 1 => r.pick(&["a", "b", "c", "x", "0", "é", "λ", "日", "😀", "_", "ü", "ß"]).to_string(),
        2 => r.pick(&["[a-c]", "[0-9]", "[^a]", "[à-ü]", "[b-y]", "[α-ω]", "[a-z0-9]", "[ぁ-ん]", ".", "[😀-😎]", "[^b-y \n]", "[ax-z]"]).to_string(),
        3 => r.pick(&["ab", "abc", "aa", "xé", "日本", "0x"]).to_string(),
        4 => r.pick(&["[a-z]", "[a-d]", "[c-f]", "[e-k]"]).to_string(),
        5 | 6 => format!("{}{}", rand_re(r, d - 1), rand_re(r, d - 1)),
        7 => format!("({}|{})", rand_re(r, d - 1), rand_re(r, d - 1)),
        8 => format!("({})*", rand_re(r, d - 1)),
        9 => format!("({})+", rand_re(r, d - 1)),
        10 => format!("({})?", rand_re(r, d - 1)),
        _ => format!("({}|{}|{})", rand_re(r, d - 1), rand_re(r, d - 1), rand_re(r, d - 1)),
    }
}

/// A random string of the language of `h`, mostly short
pub fn sample(h: &Hir, r: &mut Rng, o: &mut String, len: u64) {
    match h.kind() {
        HirKind::Empty | HirKind::Anchor(_) | HirKind::WordBoundary(_) => (),
        HirKind::Literal(Literal::Unicode(c)) => o.push(*c),
        HirKind::Literal(Literal::Byte(b)) => o.push(*b as char),
        HirKind::Class(Class::Unicode(c)) => {
            let rg = r.pick(c.ranges());
            let (a, b) = (rg.start() as u32, rg.end() as u32);
            let x = match r.below(4) {
                0 => a,
                1 => b,
                2 => a + r.below((b - a + 1).min(90) as u64) as u32,
                _ => a + r.below((b - a + 1) as u64) as u32,
            };
            o.push(char::from_u32(x).unwrap_or(rg.start()));
        }
        HirKind::Class(Class::Bytes(c)) => {
            let rg = r.pick(c.ranges());
            o.push(rg.start() as char)
        }
        HirKind::Group(g) => sample(&g.hir, r, o, len),
        HirKind::Concat(v) => v.iter().for_each(|e| sample(e, r, o, len)),
        HirKind::Alternation(v) => sample(r.pick(v), r, o, len),
        HirKind::Repetition(p) => {
            let k = match p.kind {
                RepetitionKind::ZeroOrOne => r.below(2),
                RepetitionKind::ZeroOrMore => r.below(len),
                _ => 1 + r.below(len),
            };
            for i in 0..k {
                if o.len() > 1500 && (i > 0 || !matches!(p.kind, RepetitionKind::OneOrMore)) {
                    break;
                }
                sample(&p.hir, r, o, len)
            }
        }
    }
}
pub fn sample_re(t: &str, r: &mut Rng) -> String {
    let mut o = String::new();
    let len = if r.chance(1, 30) { 120 } else { 4 };
    if let Some(h) = parse_re(t) {
        sample(&h, r, &mut o, len);
    }
    o
}

/// Remove, add, change characters
/// The same letters in another order, the same length with another letter, or a small change
pub fn near(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len();
    if n < 2 {
        return mutate(s, r);
    }
    let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
    match r.below(6) {
        0 | 1 => c.swap(i, j),
        2 => c.reverse(),
        3 => c[i] = c[j],
        4 => {
            // words in another order
            let mut w: Vec<&str> = s.split(' ').collect();
            let k = w.len();
            w.swap(i % k, j % k);
            return w.join(" ");
        }
        _ => return mutate(s, r),
    }
    c.into_iter().collect()
}
pub fn mutate(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let n = c.len();
        match r.below(11) {
            0 if n > 0 => {
                c.remove(r.below(n as u64) as usize);
            }
            1 if n > 0 => c.truncate(r.below(n as u64 + 1) as usize),
            2 => {
                let x = *r.pick(&['a', '0', ' ', '\n', 'é', '$', '+', '(', 'λ', '\t', '😀', '\u{0}', '\r', '"', '\\', '\u{10FFFF}', '\u{D7FF}', '\u{E000}', '\u{a0}']);
                c.insert(r.below(n as u64 + 1) as usize, x);
            }
            3 if n > 1 => {
                let i = r.below(n as u64 - 1) as usize;
                c.swap(i, i + 1);
            }
            4 if n > 0 => {
                let i = r.below(n as u64) as usize;
                let k = r.range(1, 4).min(n - i);
                let sl: Vec<char> = c[i..i + k].to_vec();
                for (j, x) in sl.into_iter().enumerate() {
                    c.insert(i + j, x);
                }
            }
            5 => c.push(*r.pick(&[' ', '\n', '$', 'a'])),
            6 => c.insert(0, *r.pick(&[' ', '\n', '$', 'a'])),
            7 if n > 0 => {
                let i = r.below(n as u64) as usize;
                let x = c[i] as u32;
                c[i] = char::from_u32(if r.chance(1, 2) { x + 1 } else { x.saturating_sub(1) }).unwrap_or('a');
            }
            8 if n > 0 => {
                // one that has some bits in common with it
                let i = r.below(n as u64) as usize;
                let x = c[i] as u32;
                let y = match r.below(4) {
                    0 => x + 0x10000,
                    1 => x + 0x100,
                    2 => x & 0xff,
                    _ => x & 0x7f,
                };
                c[i] = char::from_u32(y).unwrap_or('a');
            }
            9 if n > 0 && r.chance(1, 4) => c.reverse(),
            _ => (),
        }
    }
    c.into_iter().collect()
}

// ---------------------------------------------------------------- grammars

fn nt(x: &str) -> Sym {
    Sym::Nt(x.into())
}
fn lit(x: &str) -> Sym {
    Sym::Lit(x.into())
}
fn re(x: &str) -> Sym {
    Sym::Re(x.into())
}
fn mk(rules: &[(&str, Vec<Vec<Sym>>)]) -> G {
    G {
        nts: rules
            .iter()
            .map(|(n, b)| Nt {
                name: n.to_string(),
                ty: String::new(),
                bodies: b.iter().map(|s| Body { syms: s.iter().map(|x| (None, x.clone())).collect(), code: String::new() }).collect(),
            })
            .collect(),
        start: Some(0),
        raw: None,
        style: 0,
    }
}

fn lits(r: &mut Rng, k: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < k {
        let l = r.pick(&LITS).to_string();
        if !v.contains(&l) {
            v.push(l);
        }
    }
    v
}

fn template(r: &mut Rng) -> G {
    let l = lits(r, 12);
    let l = |i: usize| lit(&l[i]);
    let tok = re(r.pick(&RES[..12]));
    match r.below(14) {
        // layered expressions, left recursive
        0 => mk(&[
            ("Expr", vec![vec![nt("Expr"), l(0), nt("Term")], vec![nt("Term")]]),
            ("Term", vec![vec![nt("Term"), l(1), nt("Factor")], vec![nt("Factor")]]),
            ("Factor", vec![vec![l(2), nt("Expr"), l(3)], vec![tok]]),
        ]),
        // s-expressions
        1 => mk(&[
            ("Prog", vec![vec![nt("List")], vec![nt("Atom")]]),
            ("List", vec![vec![l(0), nt("Items"), l(1)], vec![l(0), l(1)]]),
            ("Items", vec![vec![nt("Items"), nt("Prog")], vec![nt("Prog")]]),
            ("Atom", vec![vec![tok], vec![l(2)]]),
        ]),
        // separated list, right recursive
        2 => mk(&[
            ("List", vec![vec![nt("Item"), l(0), nt("List")], vec![nt("Item")]]),
            ("Item", vec![vec![tok], vec![l(1), nt("List"), l(2)]]),
        ]),
        // objects
        3 => mk(&[
            ("Value", vec![vec![nt("Obj")], vec![tok], vec![l(4)]]),
            ("Obj", vec![vec![l(0), nt("Pairs"), l(1)], vec![l(0), l(1)]]),
            ("Pairs", vec![vec![nt("Pair")], vec![nt("Pairs"), l(2), nt("Pair")]]),
            ("Pair", vec![vec![l(5), l(3), nt("Value")]]),
        ]),
        // the classic LR(1) grammar C -> c C | d
        4 => mk(&[("S", vec![vec![nt("C"), nt("C")]]), ("C", vec![vec![l(0), nt("C")], vec![l(1)]])]),
        // common prefixes, several shifts of one terminal
        5 => mk(&[
            ("S", vec![vec![l(0), nt("A"), l(1)], vec![l(0), nt("B"), l(2)], vec![l(0), l(3)], vec![l(0), l(3), l(4)]]),
            ("A", vec![vec![l(5)], vec![l(6), nt("A")]]),
            ("B", vec![vec![l(7)], vec![l(6), nt("B")]]),
        ]),
        // states that merge
        6 => mk(&[
            ("S", vec![vec![l(0), nt("A"), l(1)], vec![l(2), nt("A"), l(3)], vec![l(4), nt("B")]]),
            ("A", vec![vec![l(5), nt("B"), l(6)], vec![l(7)]]),
            ("B", vec![vec![l(8), nt("A")], vec![l(9)]]),
        ]),
        // LR(1) but not LALR(1)
        7 => mk(&[
            ("S", vec![vec![l(0), nt("A"), l(1)], vec![l(2), nt("B"), l(1)], vec![l(0), nt("B"), l(3)], vec![l(2), nt("A"), l(3)]]),
            ("A", vec![vec![l(4)]]),
            ("B", vec![vec![l(4)]]),
        ]),
        // dangling else (conflict)
        8 => mk(&[("Stmt", vec![vec![lit("if"), tok.clone(), nt("Stmt")], vec![lit("if"), tok, nt("Stmt"), lit("else"), nt("Stmt")], vec![l(0)]])]),
        // ambiguous
        9 => mk(&[("Expr", vec![vec![nt("Expr"), l(0), nt("Expr")], vec![tok]])]),
        // statements
        10 => mk(&[
            ("Prog", vec![vec![nt("Prog"), nt("Stmt")], vec![nt("Stmt")]]),
            ("Stmt", vec![vec![nt("Decl"), l(0)], vec![nt("Block")], vec![l(1), l(0)]]),
            ("Decl", vec![vec![l(2), tok.clone(), l(3), nt("Expr")]]),
            ("Expr", vec![vec![nt("Expr"), l(4), nt("Atom")], vec![nt("Atom")]]),
            ("Atom", vec![vec![tok], vec![l(5), nt("Expr"), l(6)]]),
            ("Block", vec![vec![l(7), nt("Prog"), l(8)]]),
        ]),
        // chain of units
        11 => {
            let n = r.range(3, 14);
            let mut v: Vec<(String, Vec<Vec<Sym>>)> = vec![];
            for i in 0..n {
                let mut b = vec![vec![nt(&format!("N{}", i + 1))]];
                if r.chance(1, 3) {
                    b.push(vec![l(i % 9), nt(&format!("N{}", r.range(0, i)))]);
                }
                v.push((format!("N{}", i), b));
            }
            v.push((format!("N{}", n), vec![vec![tok], vec![l(9)]]));
            let v2: Vec<(&str, Vec<Vec<Sym>>)> = v.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
            mk(&v2)
        }
        // hidden mutual left recursion
        12 => mk(&[
            ("S", vec![vec![nt("A"), l(0)], vec![l(1)]]),
            ("A", vec![vec![nt("B"), l(2)], vec![l(3)]]),
            ("B", vec![vec![nt("S"), l(4)], vec![l(5)]]),
        ]),
        // overlapping tokens: keywords and identifiers
        _ => mk(&[
            ("S", vec![vec![nt("S"), nt("Item")], vec![nt("Item")]]),
            ("Item", vec![vec![lit("if"), re("[a-z]+")], vec![lit("let"), re("[a-z]+"), lit("="), re("[0-9]+")], vec![re("[a-z]+"), lit(".")], vec![re("[a-z0-9]+"), lit("!")]]),
        ]),
    }
}

/// Several start-to-end copies of parts to make bigger grammars
fn combine(r: &mut Rng) -> G {
    let k = r.range(2, 3);
    let mut rules: Vec<Nt> = vec![];
    let mut top = Nt { name: "Top".into(), ty: String::new(), bodies: vec![] };
    let ks = lits(r, 6);
    for i in 0..k {
        let mut g = template(r);
        let ren = |n: &str| format!("{}{}", n, i);
        for n in &mut g.nts {
            n.name = ren(&n.name);
            for b in &mut n.bodies {
                for s in &mut b.syms {
                    if let Sym::Nt(x) = &mut s.1 {
                        *x = ren(x);
                    }
                }
            }
        }
        top.bodies.push(Body { syms: vec![(None, lit(&ks[i])), (None, nt(&g.nts[0].name))], code: String::new() });
        rules.extend(g.nts);
    }
    rules.insert(0, top);
    G { nts: rules, start: Some(0), raw: None, style: 0 }
}

fn random(r: &mut Rng) -> G {
    let n = r.range(1, 5);
    let mut names: Vec<&str> = vec![];
    while names.len() < n {
        let x = *r.pick(&NAMES);
        if !names.contains(&x) {
            names.push(x);
        }
    }
    let nl = r.range(2, 7);
    let mut ts: Vec<Sym> = lits(r, nl).iter().map(|x| lit(x)).collect();
    for _ in 0..r.below(3) {
        ts.push(re(r.pick(&RES)));
    }
    let mut rules = vec![];
    for i in 0..n {
        let mut bodies: Vec<Vec<Sym>> = vec![];
        for _ in 0..r.range(1, 4) {
            let k = *r.pick(&[1, 1, 2, 2, 2, 3, 3, 4]);
            let b: Vec<Sym> = (0..k).map(|_| if r.chance(2, 5) { nt(names[r.below(n as u64) as usize]) } else { r.pick(&ts).clone() }).collect();
            if r.chance(1, 40) || !bodies.contains(&b) {
                bodies.push(b);
            }
        }
        if r.chance(3, 4) || i == n - 1 {
            let t = r.pick(&ts).clone();
            if !bodies.contains(&vec![t.clone()]) {
                bodies.push(vec![t]);
            }
        }
        rules.push((names[i], bodies));
    }
    mk(&rules)
}

/// Names, types, bindings, action codes, order, layout
fn dress(g: &mut G, r: &mut Rng) {
    g.style = r.below(16) as u8;
    if r.chance(1, 2) {
        // another order of the nonterminals
        let s = g.nts[g.start.unwrap_or(0)].name.clone();
        for i in (1..g.nts.len()).rev() {
            g.nts.swap(i, r.below(i as u64 + 1) as usize);
        }
        if g.start.is_some() {
            g.start = g.nts.iter().position(|n| n.name == s);
        }
    }
    if r.chance(1, 15) {
        // one spelling for two different things: a literal and a regex, or a literal and a nonterminal
        let ts = g.terminals();
        let ls: Vec<String> = ts.iter().filter_map(|t| if let Sym::Lit(x) = t { Some(x.clone()) } else { None }).collect();
        let mut to: Vec<String> = ts.iter().filter_map(|t| if let Sym::Re(x) = t { Some(x.clone()) } else { None }).filter(|x| !x.contains('\\')).collect();
        if to.is_empty() || r.chance(1, 3) {
            to = g.nts.iter().map(|n| n.name.clone()).collect();
            to.push("EOF".into());
            to.push("$".into());
        }
        if !ls.is_empty() {
            let (from, to) = (r.pick(&ls).clone(), r.pick(&to).clone());
            if !ls.contains(&to) {
                for b in g.nts.iter_mut().flat_map(|n| n.bodies.iter_mut()) {
                    for y in b.syms.iter_mut() {
                        if y.1 == Sym::Lit(from.clone()) {
                            y.1 = Sym::Lit(to.clone());
                        }
                    }
                }
            }
        }
    }
    let mut k = 0;
    let tag = r.below(1000);
    for n in g.nts.iter_mut() {
        n.ty = match r.below(4) {
            0 => String::new(),
            1 => "string".into(),
            2 => format!("{{ kind: \"{}\" }}", n.name),
            _ => format!("\"t{}\" | {{ v: number[] }}", tag),
        };
        for b in n.bodies.iter_mut() {
            k += 1;
            let named = r.chance(1, 2);
            let mut binds = vec![];
            for (i, s) in b.syms.iter_mut().enumerate() {
                if named && r.chance(2, 3) {
                    s.0 = Some(match r.below(12) {
                        // names the generated text uses itself
                        0 => r.pick(&["newStack", "poppedValues", "symbolStack", "prodIdx", "value", "kind", "token"]).to_string(),
                        1 => format!("var{}", i),
                        2 => format!("__{}", i),
                        _ => format!("{}{}", r.pick(&["v", "left", "x_", "op"]), i),
                    });
                    if binds.contains(s.0.as_ref().unwrap()) {
                        s.0 = Some(format!("v{}", i));
                    }
                    binds.push(s.0.clone().unwrap());
                }
            }
            b.code = match (r.below(3), binds.last()) {
                (0, _) | (_, None) => format!("\"k{}_{}\"", tag, k),
                (1, Some(x)) => format!("{{ kind: \"k{}_{}\", v: {} }}", tag, k, x),
                (_, Some(x)) => format!("[\"k{}_{}\", {}, (\"p\")]", tag, k, x),
            };
        }
    }
    if r.chance(1, 6) {
        // actions that read alike, though each has symbols of its own
        let all = r.chance(1, 2);
        let name = r.pick(&["v", "x", "value"]).to_string();
        let code = r.pick(&["[v]", "v", "{ kind: \"same\", v: v }"]).replace('v', &name).replace(&format!("{}:", name), "v:");
        for n in g.nts.iter_mut() {
            if !all && r.chance(1, 2) {
                continue;
            }
            for b in n.bodies.iter_mut() {
                for y in b.syms.iter_mut() {
                    y.0 = None;
                }
                if !b.syms.is_empty() {
                    let i = r.below(b.syms.len() as u64) as usize;
                    b.syms[i].0 = Some(name.clone());
                    b.code = code.clone();
                }
            }
        }
    }
    for n in g.nts.iter_mut() {
        if n.ty.is_empty() {
            n.ty = "\"u\"".into();
        }
    }
    if r.chance(1, 12) {
        // one nonterminal defined in two places
        let many: Vec<usize> = (0..g.nts.len()).filter(|i| g.nts[*i].bodies.len() > 1).collect();
        if !many.is_empty() {
            let i = *r.pick(&many);
            let k = r.range(1, g.nts[i].bodies.len() - 1);
            let rest = Nt { name: g.nts[i].name.clone(), ty: g.nts[i].ty.clone(), bodies: g.nts[i].bodies.split_off(k) };
            // after the first part, as a part that is not the start comes first otherwise
            let at = r.range(i + 1, g.nts.len());
            g.nts.insert(at, rest);
            g.start = g.start.map(|s| if s >= at { s + 1 } else { s });
        }
    }
}

/// Any grammar, buildable or not, that is not too much work
pub fn grammar(r: &mut Rng) -> G {
    let cap = if r.chance(1, 30) { 2500 } else { 700 };
    loop {
        let g = any_grammar(r);
        if cheap(&g, cap) {
            return g;
        }
    }
}
fn cheap(g: &G, cap: u64) -> bool {
    M::new(g).map_or(true, |m| m.cost <= cap)
}
fn any_grammar(r: &mut Rng) -> G {
    let mut g = match r.below(10) {
        0..=4 => template(r),
        5 | 6 => combine(r),
        _ => random(r),
    };
    if r.chance(1, 12) {
        // an extra, unreachable nonterminal (sometimes referring to nothing)
        let t = if r.chance(1, 2) { nt("Nowhere") } else { lit("zz") };
        g.nts.push(Nt { name: "Unused".into(), ty: String::new(), bodies: vec![Body { syms: vec![(None, t)], code: String::new() }] });
    }
    if r.chance(1, 20) {
        // a long body
        let i = r.below(g.nts.len() as u64) as usize;
        let k = g.nts[i].bodies.len();
        if k > 0 {
            let k = r.below(k as u64) as usize;
            let b = &mut g.nts[i].bodies[k];
            let more = r.range(5, 16);
            let (from, tail) = (r.below(b.syms.len() as u64 + 1) as usize, r.chance(2, 3));
            for j in 0..more {
                let t = if r.chance(1, 6) { re("[0-9]+") } else { lit(&format!("q{}", r.below(7))) };
                let at = if tail { b.syms.len() } else { from + j };
                b.syms.insert(at, (None, t));
            }
        }
    }
    dress(&mut g, r);
    g
}

/// More symbols than fit a machine word, or a byte, or productions, or states
pub fn wide_grammar(r: &mut Rng, huge: bool) -> G {
    loop {
        let n = if huge && r.chance(1, 10) { r.range(250, 300) } else { r.range(60, 100) };
        let g = wide(r, n);
        if cheap(&g, 26_000) {
            return g;
        }
    }
}
pub fn wide(r: &mut Rng, n: usize) -> G {
    let t = |i: usize| lit(&format!("k{}", i));
    let mut g = match if n > 120 { 3 } else { r.below(4) } {
        // one nonterminal that many terminals may follow
        0 => mk(&[("S", (0..n).map(|i| vec![nt("E"), t(i)]).collect()), ("E", vec![vec![lit("x")], vec![lit("("), nt("E"), lit(")")]])]),
        // a list of many kinds of item
        1 => {
            let names: Vec<String> = (0..n / 2).map(|i| format!("A{}", i)).collect();
            let mut v: Vec<(&str, Vec<Vec<Sym>>)> = vec![("S", vec![vec![nt("S"), nt("I")], vec![nt("I")]])];
            v.push(("I", names.iter().map(|x| vec![nt(x)]).collect()));
            for (i, x) in names.iter().enumerate() {
                v.push((x, vec![vec![t(i), re("[0-9]+")]]));
            }
            mk(&v)
        }
        // very many short alternatives
        3 => mk(&[("S", vec![vec![nt("I"), lit(";")], vec![nt("S"), nt("I"), lit(";")]]), ("I", (0..n).map(|i| vec![t(i)]).collect())]),
        // many operators
        _ => mk(&[("E", (0..n).map(|i| vec![nt("E"), t(i), nt("T")]).chain([vec![nt("T")]]).collect()), ("T", vec![vec![re("[0-9]+")], vec![lit("("), nt("E"), lit(")")]])]),
    };
    dress(&mut g, r);
    g
}

/// Long in one dimension: what is linear in it may not need a stack that is, too
pub fn deep(r: &mut Rng, shape: usize, n: usize) -> (G, String) {
    let (mut g, t) = match shape {
        // a chain of nonterminals
        0 => {
            let names: Vec<String> = (0..n).map(|i| format!("N{}", i)).collect();
            let mut v: Vec<(&str, Vec<Vec<Sym>>)> = (0..n - 1).map(|i| (names[i].as_str(), vec![vec![nt(&names[i + 1])]])).collect();
            v.push((&names[n - 1], vec![vec![lit("x")]]));
            (mk(&v), "x".to_string())
        }
        // a long literal
        1 => {
            let l: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
            (mk(&[("S", vec![vec![lit(&l)], vec![nt("S"), lit(";")]])]), format!("{};", l))
        }
        // a long body
        2 => {
            let b: Vec<Sym> = (0..n).map(|i| lit(["x", "y", "z"][i % 3])).collect();
            let t: String = (0..n).map(|i| ["x ", "y ", "z "][i % 3]).collect();
            (mk(&[("S", vec![b])]), t)
        }
        // a long sequence in a regex
        3 => (mk(&[("S", vec![vec![re(&"ab?".repeat(n / 2))]])]), "a".repeat(n / 2)),
        // every nonterminal reached in two ways
        5 => {
            let names: Vec<String> = (0..n + 1).map(|i| format!("N{}", i)).collect();
            let mut v = vec![("S", vec![vec![nt("M"), nt(&names[0])]]), ("M", vec![vec![lit("m")]])];
            let last = r.chance(1, 2);
            for i in 0..n {
                let x = |t: &str| if last { vec![nt(&names[i + 1]), lit(&format!("{}{}", t, i))] } else { vec![lit(&format!("{}{}", t, i)), nt(&names[i + 1])] };
                v.push((&names[i], vec![x("x"), x("y")]));
            }
            v.push((&names[n], vec![vec![lit("z")]]));
            let mut t = String::new();
            if !last {
                (0..n).for_each(|i| t.push_str(&format!("{}{} ", r.pick(&["x", "y"]), i)));
                t = format!("m {} z", t);
            } else {
                (0..n).rev().for_each(|i| t.push_str(&format!("{}{} ", r.pick(&["x", "y"]), i)));
                t = format!("m z {}", t);
            }
            (mk(&v), t)
        }
        // many branches
        _ => {
            let b: Vec<String> = (0..n).map(|i| format!("{}{}", (b'a' + (i % 26) as u8) as char, i)).collect();
            (mk(&[("S", vec![vec![re(&b.join("|"))], vec![nt("S"), lit(";")]])]), "a0;".to_string())
        }
    };
    dress(&mut g, r);
    (g, t)
}

/// Very many productions, refused once they have been read
pub fn long_text(r: &mut Rng) -> G {
    let n = r.range(300, 2500);
    let names: Vec<String> = (0..n).map(|i| format!("N{}", i)).collect();
    let mut v: Vec<(&str, Vec<Vec<Sym>>)> = names.iter().map(|x| (x.as_str(), vec![vec![lit("x"), re("[0-9]+")]])).collect();
    let mut all: Vec<Vec<Sym>> = vec![vec![lit("s")]];
    if r.chance(1, 2) {
        all = (0..n).map(|i| vec![lit(&format!("k{}", i)), lit("x")]).collect();
        v.truncate(3);
    }
    all.push(vec![nt("Missing")]);
    v.insert(0, ("S", all));
    let mut g = mk(&v);
    if r.chance(1, 3) {
        let t = g.text();
        g.raw = Some(format!("{}\n]]", t));
    }
    g
}

/// A flat list of very many items: no nesting in the grammar, so nothing may need a deep stack
pub fn flat(r: &mut Rng) -> (G, String) {
    let sep = r.pick(&["", ",", ";"]).to_string();
    let mut again = vec![nt("S")];
    if !sep.is_empty() {
        again.push(lit(&sep));
    }
    again.push(nt("I"));
    let mut g = mk(&[("S", vec![again, vec![nt("I")]]), ("I", vec![vec![lit("a")], vec![re("[0-9]+")], vec![lit("("), lit(")")]])]);
    dress(&mut g, r);
    let n = r.range(15_000, 40_000);
    let mut t = String::new();
    match r.below(4) {
        // one long token, or blanks without end
        0 => {
            (0..n).for_each(|_| t.push(*r.pick(&['0', '7'])));
            t.push_str(&format!("{}a", sep));
        }
        1 => {
            let b = *r.pick(&[" ", "\n", " \n"]);
            let (i, j) = (r.range(0, n), r.range(0, n));
            t = format!("{}a{}{}7{}{}a", b.repeat(i), sep, b.repeat(j), b.repeat(n), sep);
        }
        _ => {
            for i in 0..n {
                if i > 0 {
                    t.push_str(&sep);
                }
                t.push_str(r.pick(&["a ", "7 ", "() "]));
            }
        }
    }
    if r.chance(1, 4) {
        t.push(')');
    }
    (g, t)
}

/// A grammar the oracle says builds
/// Another grammar whose text has the same length, and everything in it the same place
pub fn twin(g: &G, r: &mut Rng) -> G {
    let mut g = g.clone();
    for _ in 0..r.range(1, 3) {
        match r.below(6) {
            0..=3 => {
                let ts = g.terminals();
                if ts.is_empty() {
                    continue;
                }
                let old = r.pick(&ts).clone();
                let (text, is_re) = match &old {
                    Sym::Re(x) => (x.clone(), true),
                    Sym::Lit(x) => (x.clone(), false),
                    _ => continue,
                };
                let same: Vec<&str> = if is_re { RES } else { LITS }.iter().copied().filter(|x| x.len() == text.len() && **x != *text).collect();
                let new = if !same.is_empty() && r.chance(1, 2) {
                    r.pick(&same).to_string()
                } else {
                    let mut c: Vec<char> = text.chars().collect();
                    let at: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_alphanumeric() && (*i == 0 || c[*i - 1] != '\\')).collect();
                    if at.is_empty() {
                        continue;
                    }
                    let i = *r.pick(&at);
                    c[i] = match c[i] {
                        'z' => 'y',
                        'Z' => 'Y',
                        '9' => '8',
                        x => (x as u8 + 1) as char,
                    };
                    c.into_iter().collect()
                };
                if is_re && !parse_re(&new).map_or(false, |h| supported(&h)) {
                    continue;
                }
                let new = if is_re { Sym::Re(new) } else { Sym::Lit(new) };
                for y in g.nts.iter_mut().flat_map(|n| n.bodies.iter_mut()).flat_map(|b| b.syms.iter_mut()) {
                    if y.1 == old {
                        y.1 = new.clone();
                    }
                }
            }
            4 => {
                // two nonterminals change places
                let i = r.below(g.nts.len() as u64) as usize;
                let a = g.nts[i].name.clone();
                let others: Vec<String> = g.nts.iter().map(|n| n.name.clone()).filter(|x| *x != a && x.len() == a.len()).collect();
                if others.is_empty() {
                    continue;
                }
                let b = r.pick(&others).clone();
                for y in g.nts.iter_mut().flat_map(|n| n.bodies.iter_mut()).flat_map(|b| b.syms.iter_mut()) {
                    if let Sym::Nt(x) = &mut y.1 {
                        if *x == a {
                            *x = b.clone();
                        } else if *x == b {
                            *x = a.clone();
                        }
                    }
                }
            }
            _ => {
                let i = r.below(g.nts.len() as u64) as usize;
                let n = g.nts[i].bodies.len();
                if n > 0 {
                    let k = r.below(n as u64) as usize;
                    g.nts[i].bodies[k].syms.reverse();
                }
            }
        }
    }
    g
}
pub fn good_grammar(r: &mut Rng) -> (G, M) {
    loop {
        let g = grammar(r);
        if let Some(m) = M::new(&g) {
            if m.builds == Some(true) {
                return (g, m);
            }
        }
    }
}

/// A grammar that can't be built, or text that is no grammar
pub fn bad_grammar(r: &mut Rng) -> G {
    loop {
        let g = any_bad_grammar(r);
        if cheap(&g, 1500) {
            return g;
        }
    }
}
fn any_bad_grammar(r: &mut Rng) -> G {
    let mut g = grammar(r);
    match r.below(9) {
        0 => {
            g.start = None;
        }
        1 => {
            let i = g.start.unwrap_or(0);
            g.nts[i].bodies[0].syms.push((None, nt("Missing")));
        }
        2 => {
            let i = r.below(g.nts.len() as u64) as usize;
            let b = g.nts[i].bodies[0].clone();
            g.nts[i].bodies.push(Body { syms: b.syms, code: "\"dup\"".into() });
        }
        3 => {
            let i = g.start.unwrap_or(0);
            let t = *r.pick(&["a{2,3}", "^a", "[a", "a$", "(", "*", "\\b", "x{3}", "a**{", "[z-a]"]);
            let t = if t == "\\b" { "[" } else { t };
            g.nts[i].bodies.push(Body { syms: vec![(None, re(t))], code: "\"re\"".into() });
        }
        4 => {
            let t = g.text();
            g.raw = Some(mutate_text(&t, r));
        }
        5 => {
            let t = g.text();
            let k = r.below(t.len() as u64) as usize;
            let t: String = t.chars().take(k).collect();
            g.raw = Some(t);
        }
        6 => g.raw = Some(r.pick(&["", "export", "export start S: () = [", "x", "export start S: () = []", "export start S: () = [\n => (1)\n]", "\u{0}", "export start S () = []", "export start S: () = [\n \"a\" => (\"x\")\n] ]"]).to_string()),
        7 => {
            let i = g.start.unwrap_or(0);
            let n = g.nts[i].name.clone();
            g.nts[i].bodies.push(Body { syms: vec![(None, nt(&n))], code: "\"self\"".into() });
        }
        _ => {
            // ambiguity
            let i = g.start.unwrap_or(0);
            let n = g.nts[i].name.clone();
            g.nts[i].bodies.push(Body { syms: vec![(None, nt(&n)), (None, nt(&n))], code: "\"amb\"".into() });
        }
    }
    g
}

fn mutate_text(t: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 3) {
        let n = c.len();
        if n == 0 {
            break;
        }
        let i = r.below(n as u64) as usize;
        match r.below(3) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, *r.pick(&['"', '[', ']', '(', ')', '=', '>', '<', ',', ':', '\\', '#', 'é', 'q'])),
            _ => c[i] = *r.pick(&['"', '[', ']', '(', ')', '=', '>', '<', ',', ':', ' ', '\n']),
        }
    }
    c.into_iter().collect()
}

/// A random sentence as terminals
pub fn sentence(m: &M, r: &mut Rng, size: usize) -> Vec<usize> {
    // cheapest production of each nonterminal, to finish
    let nn = m.by.len();
    let mut cost = vec![u32::MAX; nn];
    let mut best = vec![0; nn];
    loop {
        let mut ch = false;
        for (p, (l, rhs)) in m.prods.iter().enumerate() {
            let mut c: u32 = 1;
            for x in rhs {
                c = c.saturating_add(if *x < 0 { 1 } else { cost[*x as usize] });
            }
            if c < cost[*l] {
                cost[*l] = c;
                best[*l] = p;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut out = vec![];
    let mut st: Vec<i32> = vec![m.start as i32];
    let mut fuel = size;
    while let Some(x) = st.pop() {
        if x < 0 {
            out.push((-1 - x) as usize);
        } else {
            if cost[x as usize] == u32::MAX {
                return out;
            }
            let p = if fuel == 0 || st.len() > 400 {
                best[x as usize]
            } else {
                fuel -= 1;
                let cand: Vec<usize> = m.by[x as usize]
                    .iter()
                    .cloned()
                    .filter(|p| m.prods[*p].1.iter().all(|y| *y < 0 || cost[*y as usize] < u32::MAX))
                    .collect();
                if fuel > 30 && r.chance(3, 4) {
                    // keep growing
                    *cand.iter().max_by_key(|p| m.prods[**p].1.iter().filter(|y| **y >= 0).count() * 8 + r.below(8) as usize).unwrap()
                } else {
                    *r.pick(&cand)
                }
            };
            for y in m.prods[p].1.iter().rev() {
                st.push(*y);
            }
        }
    }
    out
}

pub fn spell(m: &M, toks: &[usize], r: &mut Rng) -> String {
    let mut o = String::new();
    let style = r.below(5);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            match style {
                0 => (),
                1 | 2 => o.push(' '),
                3 => o.push_str(*r.pick(&[" ", "\n", "  ", " \n "])),
                _ => {
                    if r.chance(1, 2) {
                        o.push(' ')
                    }
                }
            }
        }
        match &m.terms[*t] {
            Sym::Lit(x) => o.push_str(x),
            _ => {
                let mut x = String::new();
                let len = if r.chance(1, 40) { 150 } else { 4 };
                sample(&m.hirs[*t], r, &mut x, len);
                o.push_str(&x)
            }
        }
    }
    if r.chance(1, 6) {
        o.push_str(*r.pick(&[" ", "\n", "  "]));
    }
    if r.chance(1, 8) {
        o.insert_str(0, *r.pick(&[" ", "\n"]));
    }
    o
}

/// An input for a parser: often a sentence, often nearly one
pub fn input(m: &M, r: &mut Rng, size: usize) -> String {
    let size = r.range(0, size);
    let mut t = sentence(m, r, size);
    match r.below(10) {
        0..=4 => spell(m, &t, r),
        5 => {
            if !t.is_empty() {
                let i = r.below(t.len() as u64) as usize;
                t.remove(i);
            }
            spell(m, &t, r)
        }
        6 => {
            let i = r.below(t.len() as u64 + 1) as usize;
            t.insert(i, r.below(m.terms.len() as u64) as usize);
            spell(m, &t, r)
        }
        7 => {
            if r.chance(1, 6) {
                String::new()
            } else {
                let k = r.range(0, 6);
                let t: Vec<usize> = (0..k).map(|_| r.below(m.terms.len() as u64) as usize).collect();
                spell(m, &t, r)
            }
        }
        _ => {
            let s = spell(m, &t, r);
            mutate(&s, r)
        }
    }
}

// ---------------------------------------------------------------- token sets for lexers

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub name: String,
    pub re: String,
    pub lit: bool,
    pub val: bool,
}
pub fn tokset(r: &mut Rng) -> Vec<Tok> {
    let n = r.range(1, 7);
    let mut v: Vec<Tok> = vec![];
    for i in 0..n {
        let k = r.below(10);
        let (re, lit) = if k < 4 {
            (r.pick(&LITS).to_string(), true)
        } else if k < 7 {
            match r.below(120) {
                0 if r.chance(1, 30) => (r.pick(&HUGE).to_string(), false),
                1..=12 => (r.pick(&CLASSES).to_string(), false),
                _ => (r.pick(&RES).to_string(), false),
            }
        } else {
            let d = r.range(1, 3);
            (rand_re(r, d), false)
        };
        if v.iter().any(|t| t.re == re && t.lit == lit) && r.chance(3, 4) {
            continue;
        }
        let name = if r.chance(1, 12) && !v.is_empty() { v[0].name.clone() } else if r.chance(1, 2) { re.clone() } else { format!("T{}", i) };
        v.push(Tok { name, re, lit, val: r.chance(1, 2) });
    }
    v
}
/// Many words: an automaton of some hundreds of states
pub fn big_tokset(r: &mut Rng) -> Vec<Tok> {
    let total = *r.pick(&[80, 150, 300, 450]);
    let alpha: &[char] = if r.chance(1, 4) { &['a', 'é', '日', 'b'] } else { &['a', 'b', 'c', 'd', 'e', 'f'] };
    let mut words: Vec<String> = vec![];
    let mut left = total;
    while left > 0 {
        let mut w = String::new();
        if !words.is_empty() && r.chance(1, 3) {
            let x = r.pick(&words).clone();
            let n = r.range(1, x.chars().count());
            w = x.chars().take(n).collect();
        }
        let m = *r.pick(&[4, 12, 40]);
        let n = r.range(1, m);
        for _ in 0..n {
            w.push(*r.pick(alpha));
        }
        left -= (n as i64).min(left);
        if !words.contains(&w) {
            words.push(w);
        }
    }
    let mut v: Vec<Tok> = words.into_iter().map(|w| Tok { name: w.clone(), re: w, lit: true, val: r.chance(1, 2) }).collect();
    if r.chance(1, 2) {
        let at = r.range(0, v.len());
        let re = r.pick(&["[a-z]+", "[a-f]", "[^ ]+", "[a-f][a-f]?"]).to_string();
        v.insert(at, Tok { name: "T".into(), re, lit: false, val: true });
    }
    v
}
pub fn tok_hir(t: &Tok) -> Option<Hir> {
    if t.lit {
        Some(lit_re(&t.re))
    } else {
        parse_re(&t.re)
    }
}
pub fn lex_input(ts: &[Tok], r: &mut Rng, size: usize) -> String {
    let mut o = String::new();
    for _ in 0..r.range(0, size) {
        match r.below(12) {
            0 => o.push(' '),
            1 => o.push('\n'),
            2 if r.chance(1, 4) => o.push_str(*r.pick(&["$", "\t", "a", "é", "日", "\r", "\u{a0}"])),
            _ => {
                let t = r.pick(ts);
                if t.lit {
                    o.push_str(&t.re)
                } else {
                    let x = sample_re(&t.re, r);
                    o.push_str(&x)
                }
            }
        }
    }
    if r.chance(1, 4) {
        o = mutate(&o, r);
    }
    o
}
