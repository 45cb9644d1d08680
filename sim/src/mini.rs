//! Shrinks a failing case while it keeps failing the same way.
use crate::judge::*;
use crate::model::*;
use crate::plan::*;
use crate::rt::*;
use std::time::Instant;

struct S<'a> {
    cx: &'a mut Ctx,
    best: Case,
    v: V,
    t0: Instant,
    secs: u64,
}
impl<'a> S<'a> {
    fn over(&self) -> bool {
        self.t0.elapsed().as_secs() >= self.secs
    }
    fn keep(&mut self, c: Case) -> bool {
        if self.over() {
            return false;
        }
        match self.cx.eval(&c, false) {
            Some(v) if v.class == self.v.class => {
                self.best = c;
                self.v = v;
                true
            }
            _ => false,
        }
    }
    fn edit(&mut self, f: impl FnOnce(&mut Case)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        self.keep(c)
    }
    /// remove as much as possible of a list of length `n`
    fn ddmin(&mut self, len: impl Fn(&Case) -> usize, cut: impl Fn(&mut Case, usize, usize)) {
        let mut size = (len(&self.best) + 1) / 2;
        while size >= 1 && !self.over() {
            let mut i = 0;
            while i < len(&self.best) && !self.over() {
                let to = (i + size).min(len(&self.best));
                if !self.edit(|c| cut(c, i, to)) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size = (size + 1) / 2;
        }
    }
}

/// Drop what no client refers to
fn compact(p: &mut Plan) {
    let mut obj = vec![false; p.objs.len()];
    for o in p.clients.iter().flatten() {
        if let Op::Parse(i, _) | Op::Lex(i, _) | Op::Nfa(i, _) | Op::Dfa(i, _) | Op::Gen(i) | Op::Drop(i) = o {
            obj[*i] = true;
        }
    }
    let map: Vec<usize> = obj.iter().scan(0, |n, b| { let x = *n; *n += *b as usize; Some(x) }).collect();
    let mut k = 0;
    p.objs.retain(|_| { k += 1; obj[k - 1] });
    for o in p.clients.iter_mut().flatten() {
        if let Op::Parse(i, _) | Op::Lex(i, _) | Op::Nfa(i, _) | Op::Dfa(i, _) | Op::Gen(i) | Op::Drop(i) = o {
            *i = map[*i];
        }
    }
}
fn compact_grams(p: &mut Plan) {
    let (mut g, mut l, mut r) = (vec![false; p.grams.len()], vec![false; p.lexes.len()], vec![false; p.res.len()]);
    for o in &p.objs {
        match o {
            Obj::Parser(i) => g[*i] = true,
            Obj::Lexer(i) => l[*i] = true,
            Obj::Re(i) => r[*i] = true,
        }
    }
    for o in p.clients.iter().flatten() {
        match o {
            Op::Build { g: i, .. } | Op::Publish { g: i, .. } | Op::Disk { g: i, .. } => g[*i] = true,
            Op::MkLex { l: i, .. } => l[*i] = true,
            Op::MkRe { r: i, .. } => r[*i] = true,
            _ => (),
        }
    }
    let mk = |v: &Vec<bool>| -> Vec<usize> { v.iter().scan(0, |n, b| { let x = *n; *n += *b as usize; Some(x) }).collect() };
    let (mg, ml, mr) = (mk(&g), mk(&l), mk(&r));
    let mut k = 0;
    p.grams.retain(|_| { k += 1; g[k - 1] });
    k = 0;
    p.lexes.retain(|_| { k += 1; l[k - 1] });
    k = 0;
    p.res.retain(|_| { k += 1; r[k - 1] });
    for o in p.objs.iter_mut() {
        match o {
            Obj::Parser(i) => *i = mg[*i],
            Obj::Lexer(i) => *i = ml[*i],
            Obj::Re(i) => *i = mr[*i],
        }
    }
    for o in p.clients.iter_mut().flatten() {
        match o {
            Op::Build { g: i, .. } | Op::Publish { g: i, .. } | Op::Disk { g: i, .. } => *i = mg[*i],
            Op::MkLex { l: i, .. } => *i = ml[*i],
            Op::MkRe { r: i, .. } => *i = mr[*i],
            _ => (),
        }
    }
}

fn strings(o: &mut Op) -> Vec<&mut String> {
    match o {
        Op::Parse(_, t) | Op::Lex(_, t) | Op::Nfa(_, t) | Op::Dfa(_, t) => vec![t],
        Op::Build { inputs, .. } | Op::MkLex { inputs, .. } | Op::MkRe { inputs, .. } | Op::Use { inputs, .. } => inputs.iter_mut().collect(),
        _ => vec![],
    }
}
fn cut_chars(t: &str, a: usize, b: usize) -> String {
    t.chars().enumerate().filter(|(i, _)| *i < a || *i >= b).map(|x| x.1).collect()
}

pub fn minimise(cx: &mut Ctx, case: Case, v: V, secs: u64) -> (Case, V) {
    let mut st = S { cx, best: case, v, t0: Instant::now(), secs };
    let multi = st.best.prop == "C09";
    // a calm world first
    for i in 0..st.best.plans.len() {
        st.edit(|c| { c.plans[i].sched = quiet_sched(); c.plans[i].fault = no_faults(); c.plans[i].env = plain_env(); c.plans[i].hook = false; });
        st.edit(|c| c.plans[i].sched = quiet_sched());
        st.edit(|c| c.plans[i].fault = no_faults());
        st.edit(|c| c.plans[i].env = plain_env());
        st.edit(|c| c.plans[i].env.vars.clear());
        st.edit(|c| c.plans[i].env.clock_jumps = 0);
        st.edit(|c| c.plans[i].env.guard = 0);
        st.edit(|c| c.plans[i].env.oom = (0, 0));
        st.edit(|c| c.plans[i].hook = false);
        st.edit(|c| c.plans[i].vary = false);
        st.edit(|c| c.plans[i].env.elsewhere = false);
        if !st.edit(|c| c.plans[i].again = 0) {
            // the smallest number of repetitions
            let mut lo = 0;
            while lo + 1 < st.best.plans[i].again && !st.over() {
                let mid = (lo + st.best.plans[i].again) / 2;
                if !st.edit(|c| c.plans[i].again = mid) {
                    lo = mid;
                }
            }
        }
        st.edit(|c| { c.plans[i].sched.stalls = 0; c.plans[i].sched.spurious = 0 });
        if multi {
            st.edit(|c| c.plans[i].crash = None);
        }
    }
    if multi {
        while st.best.plans.len() > 1 && st.edit(|c| { c.plans.remove(0); for o in c.plans[0].clients[0].iter_mut() { if let Op::Disk { mask, .. } = o { *mask = 0 } } }) {}
        st.ddmin(|c| c.inputs.len(), |c, a, b| { c.inputs.drain(a..b); });
    }
    for i in 0..st.best.plans.len() {
        // whole clients, then operations
        let mut k = st.best.plans[i].clients.len();
        while k > 0 {
            k -= 1;
            if multi && k == 0 {
                break;
            }
            if st.best.plans[i].clients.len() > 1 {
                st.edit(|c| { c.plans[i].clients.remove(k); });
            }
        }
        for k in 0..st.best.plans[i].clients.len() {
            st.ddmin(|c| c.plans[i].clients[k].len(), |c, a, b| { c.plans[i].clients[k].drain(a..b); });
        }
        if !multi {
            let mut k = st.best.plans[i].clients.len();
            while k > 0 {
                k -= 1;
                if st.best.plans[i].clients[k].is_empty() && st.best.plans[i].clients.len() > 1 {
                    st.edit(|c| { c.plans[i].clients.remove(k); });
                }
            }
            st.edit(|c| compact(&mut c.plans[i]));
            st.edit(|c| compact_grams(&mut c.plans[i]));
        }
        // fewer parts of operations, shorter inputs
        for k in 0..st.best.plans[i].clients.len() {
            for j in 0..st.best.plans[i].clients[k].len() {
                let n = strings(&mut st.best.clone().plans[i].clients[k][j]).len();
                if n > 1 {
                    for x in (0..n).rev() {
                        st.edit(|c| if let Op::Build { inputs, .. } | Op::MkLex { inputs, .. } | Op::MkRe { inputs, .. } | Op::Use { inputs, .. } = &mut c.plans[i].clients[k][j] { if x < inputs.len() { inputs.remove(x); } });
                    }
                }
                if let Op::Build { .. } = st.best.plans[i].clients[k][j] {
                    st.edit(|c| if let Op::Build { gen, .. } = &mut c.plans[i].clients[k][j] { *gen = false });
                    st.edit(|c| if let Op::Build { arena, keep, .. } = &mut c.plans[i].clients[k][j] { *arena = false; *keep = false });
                }
                let n = strings(&mut st.best.clone().plans[i].clients[k][j]).len();
                for x in 0..n {
                    st.ddmin(
                        |c| { let mut c = c.clone(); strings(&mut c.plans[i].clients[k][j])[x].chars().count() },
                        |c, a, b| { let mut v = strings(&mut c.plans[i].clients[k][j]); *v[x] = cut_chars(v[x], a, b); },
                    );
                }
            }
        }
    }
    if multi {
        for x in 0..st.best.inputs.len() {
            st.ddmin(|c| c.inputs[x].chars().count(), |c, a, b| c.inputs[x] = cut_chars(&c.inputs[x], a, b));
        }
    }
    // smaller grammars
    let ng = st.best.plans[0].grams.len();
    for g in 0..ng {
        let gram = |c: &mut Case, f: &dyn Fn(&mut G)| {
            for p in c.plans.iter_mut() {
                if g < p.grams.len() && (g == 0 || c.prop != "C09") {
                    f(&mut p.grams[g]);
                }
            }
        };
        let mut t = st.best.plans[0].grams[g].nts.len();
        while t > 0 {
            t -= 1;
            let mut b = st.best.plans[0].grams[g].nts[t].bodies.len();
            while b > 0 {
                b -= 1;
                if st.best.plans[0].grams[g].nts[t].bodies.len() > 1 {
                    st.edit(|c| gram(c, &|x| { x.nts[t].bodies.remove(b); }));
                }
                let mut y = st.best.plans[0].grams[g].nts[t].bodies.get(b).map_or(0, |b| b.syms.len());
                while y > 0 {
                    y -= 1;
                    if st.best.plans[0].grams[g].nts[t].bodies.get(b).map_or(0, |b| b.syms.len()) > 1 {
                        st.edit(|c| gram(c, &|x| { x.nts[t].bodies[b].syms.remove(y); }));
                    }
                }
            }
            if st.best.plans[0].grams[g].nts.len() > 1 {
                st.edit(|c| gram(c, &|x| {
                    x.nts.remove(t);
                    x.start = match x.start { Some(s) if s > t => Some(s - 1), Some(s) if s == t => Some(0), s => s };
                }));
            }
        }
        st.edit(|c| gram(c, &|x| x.style = 0));
    }
    // lexers and recognisers
    for l in 0..st.best.plans[0].lexes.len() {
        st.ddmin(|c| c.plans[0].lexes[l].len(), |c, a, b| { c.plans[0].lexes[l].drain(a..b); });
    }
    if !multi {
        // the schedule as a list of switches
        if st.best.plans[0].sched.mode != Mode::Coop && !st.over() {
            st.cx.eval(&st.best.clone(), false);
            if let Some(o) = st.cx.last.clone() {
                if o.trace.len() < MAX_TRACE {
                    let ok = st.edit(|c| {
                        let old = &c.plans[0].sched;
                        let mut n = quiet_sched();
                        n.mode = Mode::Trace;
                        n.seed = old.seed;
                        n.spurious = old.spurious;
                        n.max_switches = u64::MAX >> 1;
                        n.trace = o.trace.clone();
                        c.plans[0].sched = n;
                    });
                    if ok {
                        st.ddmin(|c| c.plans[0].sched.trace.len(), |c, a, b| { c.plans[0].sched.trace.drain(a..b); });
                        for i in 0..st.best.plans[0].sched.trace.len().min(60) {
                            if st.best.plans[0].sched.trace[i].stall > 0 {
                                st.edit(|c| c.plans[0].sched.trace[i].stall = 0);
                            }
                        }
                    }
                }
            }
        }
        // the faults as a list
        if !st.best.plans[0].fault.explicit && st.best.plans[0].fault.rate > 0 && !st.over() {
            st.cx.eval(&st.best.clone(), false);
            if let Some(o) = st.cx.last.clone() {
                if o.faults.len() < MAX_FAULTS {
                    let ok = st.edit(|c| {
                        c.plans[0].fault.explicit = true;
                        c.plans[0].fault.rate = 0;
                        c.plans[0].fault.list = o.faults.clone();
                    });
                    if ok {
                        st.ddmin(|c| c.plans[0].fault.list.len(), |c, a, b| { c.plans[0].fault.list.drain(a..b); });
                    }
                }
            }
        }
    }
    // the log hash of the final version
    let b = st.best.clone();
    for _ in 0..2 {
        if let Some(v) = st.cx.eval(&b, false) {
            st.v = v;
            break;
        }
    }
    (st.best, st.v)
}
