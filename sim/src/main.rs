//! Driver: `check PROP TIER SEED SECS`, `replay FILE`, `runs PROP SEED N` (determinism self-test).
mod gen;
mod json;
mod judge;
mod mini;
mod model;
mod plan;
mod props;
mod rt;
mod ts;
mod world;
use json::*;
use judge::*;
use rt::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Write};
use std::time::Instant;

extern "C" {
    fn personality(p: u64) -> i32;
}

/// Start over with an empty environment and without address randomisation
fn reexec() {
    if std::env::vars_os().count() == 1 && std::env::var_os("SIMTL").is_some() {
        return;
    }
    unsafe {
        personality(0x0040000);
        let exe = c"/proc/self/exe";
        let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut argv: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        argv.push(std::ptr::null());
        let env = [c"SIMTL=1".as_ptr(), std::ptr::null()];
        libc::execve(exe.as_ptr(), argv.as_ptr(), env.as_ptr());
    }
}

/// Flags shared by the workers
#[repr(C)]
struct Ctl {
    stop: std::sync::atomic::AtomicU32,
}

fn shared<T>() -> *mut T {
    unsafe {
        libc::mmap(
            std::ptr::null_mut(), std::mem::size_of::<T>().max(4096), libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0,
        ) as *mut T
    }
}

pub fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let p = prop.bytes().fold(7u64, |a, b| hash2(a, b as u64));
    hash3(seed, p, i)
}

fn pin(w: usize) {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &all)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

/// What one worker reports
fn worker(prop: &str, seed: u64, w: usize, nw: usize, secs: u64, max: u64, ctl: *mut Ctl, out: i32) -> ! {
    pin(w);
    let t0 = Instant::now();
    let mut cx = Ctx::new();
    let mut found: Option<J> = None;
    let mut rechecks = 0;
    let mut differ: Vec<u64> = vec![];
    let mut unstable: Vec<J> = vec![];
    let mut k = 0u64;
    let stop = unsafe { &(*ctl).stop };
    use std::sync::atomic::Ordering::SeqCst;
    while t0.elapsed().as_secs() < secs && stop.load(SeqCst) == 0 {
        let i = k * nw as u64 + w as u64;
        k += 1;
        if i >= max {
            break;
        }
        let case = make(prop, case_seed(seed, prop, i));
        let (case, v) = cx.judge(case);
        if let Some(v) = v {
            if v.class == "harness" {
                found = Some(obj(vec![("harness", s(v.msg))]));
                stop.store(1, SeqCst);
                break;
            }
            // it has to happen again before it is believed
            let again = (0..2).filter_map(|_| cx.eval(&case, false)).find(|x| x.class == v.class);
            match again {
                None => {
                    unstable.push(obj(vec![("index", n(i)), ("class", s(v.class)), ("msg", s(v.msg))]));
                    continue;
                }
                Some(v) => {
                    stop.store(1, SeqCst);
                    let t1 = Instant::now();
                    let (case, v) = mini::minimise(&mut cx, case, v, if std::env::var_os("SIMTL_RAW").is_some() { 0 } else if secs > 200 { 150 } else { 45 });
                    let j = replay_json(&case, &v, i, seed, cx.lasthash);
                    found = Some(obj(vec![("class", s(&*v.class)), ("msg", s(&*v.msg)), ("index", n(i)), ("replay", j), ("after_s", n((t1 - t0).as_secs())), ("runs", n(cx.acc.get("runs")))]));
                    break;
                }
            }
        }
        if k % 41 == 9 {
            let h = cx.lasthash;
            cx.eval(&case, false);
            rechecks += 1;
            if cx.lasthash != h {
                differ.push(i);
            }
        }
    }
    let mut ents: Vec<J> = cx.ileaves.iter().map(|x| J::Int(*x as i128)).collect();
    ents.truncate(400_000);
    let j = obj(vec![
        ("acc", map(&cx.acc.0)),
        ("ileaves", J::Arr(ents)),
        ("distinct", J::Arr(cx.distinct.iter().map(|x| J::Int(*x as i128)).collect())),
        ("samples", J::Arr(std::mem::take(&mut cx.samples))),
        ("rechecks", n(rechecks)),
        ("differ", J::Arr(differ.iter().map(|x| n(*x)).collect())),
        ("unstable", J::Arr(unstable)),
        ("found", found.unwrap_or(J::Null)),
    ]);
    let mut f: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(out) };
    let _ = f.write_all(j.dump().as_bytes());
    let _ = f.flush();
    drop(f);
    raw_exit(0)
}

fn say(t: &str) {
    let mut o = std::io::stdout();
    let _ = o.write_all(t.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

fn check(prop: &str, tier: &str, seed: u64, secs: u64) -> i32 {
    let t0 = Instant::now();
    let root = "/verif";
    // types that cannot be shared decide C01 and C02 by themselves
    if prop == "C01" || prop == "C02" {
        let u = world::unshareable();
        let mine: Vec<&&str> = u.iter().filter(|t| (prop == "C01") == (**t == "Lalr" || **t == "Grammar") && **t != "Grammar").collect();
        if !mine.is_empty() {
            let msg = format!("not shareable between threads (Send and Sync): {:?}", mine);
            let path = write_replay(root, prop, seed, &obj(vec![("prop", s(prop)), ("class", s("not-shareable")), ("msg", s(&*msg))]));
            say(&format!("{}: {}", prop, msg));
            say(&format!("VIOLATION property={} replay={}", prop, path));
            return 1;
        }
    }
    let known = known(root, prop);
    let ctl: *mut Ctl = shared();
    let max: u64 = std::env::args().nth(6).and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let nw = std::env::var("SIMTL_NW").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let mut pipes = vec![];
    for w in 0..nw {
        let mut fd = [0i32; 2];
        unsafe {
            if libc::pipe(fd.as_mut_ptr()) != 0 {
                say("pipe failed");
                return 3;
            }
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fd[0]);
                worker(prop, seed, w, nw, secs, max, ctl, fd[1]);
            }
            libc::close(fd[1]);
            pipes.push((pid, fd[0]));
        }
    }
    let mut acc = Acc::default();
    let mut ileaves: HashSet<i128> = HashSet::new();
    let mut distinct: HashSet<i128> = HashSet::new();
    let mut samples = vec![];
    let mut rechecks = 0;
    let mut differ = vec![];
    let mut unstable = vec![];
    let mut founds: Vec<J> = vec![];
    let mut harness: Option<String> = None;
    for (pid, fd) in pipes {
        let mut f: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(fd) };
        let mut b = String::new();
        let _ = f.read_to_string(&mut b);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let j = match J::parse(&b) {
            Ok(j) => j,
            Err(e) => {
                harness = Some(format!("worker ended with status {:x}: {}", st, e));
                continue;
            }
        };
        if let J::Obj(v) = j.get("acc") {
            for (k, x) in v {
                acc.add(k, x.u());
            }
        }
        let ints = |j: &J| -> Vec<i128> { j.a().iter().filter_map(|x| if let J::Int(i) = x { Some(*i) } else { None }).collect() };
        ileaves.extend(ints(j.get("ileaves")));
        distinct.extend(ints(j.get("distinct")));
        samples.extend(j.get("samples").a().iter().take(1).cloned());
        rechecks += j.get("rechecks").u();
        differ.extend(j.get("differ").a().iter().cloned());
        unstable.extend(j.get("unstable").a().iter().cloned());
        match j.get("found") {
            J::Null => (),
            x if *x.get("harness") != J::Null => harness = Some(x.get("harness").st()),
            x => founds.push(x.clone()),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Some(h) = harness {
        say(&format!("{}: error of the check itself: {}", prop, h));
        if founds.is_empty() {
            return 2;
        }
    }
    founds.sort_by_key(|f| f.get("index").u());
    let edges = unsafe { (0..COVSZ).filter(|i| *COV.add(*i) != 0).count() } as u64;
    let sub = |p: &str| -> J {
        J::Obj(acc.0.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_string(), n(*v))).collect())
    };
    let hours = wall / 3600.0;
    let runs = acc.get("runs");
    samples.truncate(4);
    let cov = obj(vec![
        ("evaluations", n(runs)),
        ("distinct_nontrivial", n(distinct.len() as u64)),
        ("rule", s(rule(prop))),
        ("samples", J::Arr(samples)),
        ("simulated_runs_per_hour", n((runs as f64 / hours) as u64)),
        ("seeds_per_hour", n((acc.get("cases") as f64 / hours) as u64)),
        ("reference_runs", n(acc.get("solo"))),
        ("simulated_steps", n(acc.get("steps"))),
        ("simulated_time_ns", n(acc.get("now"))),
        ("simulated_time", s("one step (an edge, load, store, allocation or system call of the code under test) is one nanosecond; sleeps, slow writes, stalls and clock jumps advance the clock further")),
        ("faults_injected", sub("f:")),
        ("scheduler", sub("s:")),
        ("schedule_modes", sub("m:")),
        ("results_judged", sub("j:")),
        ("distinct_interleavings", n(ileaves.len() as u64)),
        ("interleaving_measure", s("hash over every switch of the run of (from thread, to thread, last edge executed before it)")),
        ("edges_reached", n(edges)),
        ("edges_total", n(guards() as u64)),
        ("determinism_rechecks", n(rechecks)),
        ("determinism_differences", J::Arr(differ)),
        ("not_reproduced", J::Arr(unstable)),
        ("real_code", s("all of typelalr, its dependencies (bumpalo, regex-syntax, indexmap, lalrpop-util), std including std::thread, std::sync and std::io, glibc threads, compiled from /repo's working tree")),
        ("stubs", s("futex waits and wakes, thread scheduling, clocks, getrandom, getpid/gettid, getenv, CPU count, writes to fd 1 and 2, heap allocator, and (C09) the disk the artifacts are written to are the simulator's")),
    ]);
    let viol = founds.len() as u64;
    let ev = obj(vec![
        ("property", s(prop)),
        ("tier", s(tier)),
        ("seed", n(seed)),
        ("level", s("exploration")),
        ("coverage", cov),
        ("assumptions", J::Arr(assumptions(prop).into_iter().map(s).collect())),
        ("wall_s", J::Num((wall * 10.0).round() / 10.0)),
        ("violations", n(viol)),
    ]);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root, prop), ev.dump()) {
        say(&format!("cannot write the evidence: {}", e));
        return 2;
    }
    say(&format!(
        "{}: {} runs ({} distinct non-trivial, {} interleavings), {} reference runs, {} results judged, {}/{} edges, {:.0} s",
        prop, runs, distinct.len(), ileaves.len(), acc.get("solo"), acc.0.iter().filter(|(k, _)| k.starts_with("j:")).map(|x| x.1).sum::<u64>(), edges, guards(), wall
    ));
    for (k, what) in known {
        say(&format!("KNOWN-FINDING: property={} {}", prop, what));
        let _ = k;
    }
    if let Some(f) = founds.first() {
        let path = write_replay(root, prop, seed, f.get("replay"));
        say(&format!("{}: {} -- {}", prop, f.get("class").st(), f.get("msg").st()));
        say(&format!("found in run {} after {} s", f.get("index").u(), f.get("after_s").u()));
        say(&format!("VIOLATION property={} replay={}", prop, path));
        return 1;
    }
    if runs == 0 {
        say("no run was made");
        return 2;
    }
    0
}

fn write_replay(root: &str, prop: &str, seed: u64, j: &J) -> String {
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    let t = j.dump();
    let h = t.bytes().fold(seed, |a, b| hash2(a, b as u64));
    let p = format!("{}/{}-{:08x}.json", dir, prop, h as u32);
    let _ = std::fs::write(&p, t);
    p
}

/// Listed findings of this property that still fail: (class, text)
fn known(root: &str, prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)).unwrap_or_default();
    let mut out = vec![];
    let mut cx = Ctx::new();
    for l in t.lines() {
        // finding: property=C09 replay=<file under /verif> <what fails>
        let mut w = l.splitn(4, ' ');
        if w.next() != Some("finding:") || w.next() != Some(&format!("property={}", prop)) {
            continue;
        }
        let file = w.next().unwrap_or("").trim_start_matches("replay=").to_string();
        let what = w.next().unwrap_or("").to_string();
        let j = match std::fs::read_to_string(format!("{}/{}", root, file)).map_err(|e| e.to_string()).and_then(|t| J::parse(&t)) {
            Ok(j) => j,
            Err(e) => {
                say(&format!("{}: {}", file, e));
                continue;
            }
        };
        let case = case_from(&j);
        if let Some(v) = cx.eval(&case, false) {
            if v.class == j.get("class").st() {
                out.push((v.class, what));
            }
        }
    }
    out
}

fn replay(file: &str) -> i32 {
    let j = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| J::parse(&t)) {
        Ok(j) => j,
        Err(e) => {
            say(&e);
            return 2;
        }
    };
    let prop = j.get("prop").st();
    if j.get("class").st() == "not-shareable" {
        let u = world::unshareable();
        say(&format!("not shareable: {:?}", u));
        return if u.is_empty() { 0 } else { 1 };
    }
    let case = case_from(&j);
    let mut cx = Ctx::new();
    match cx.eval(&case, false) {
        None => {
            say(&format!("{}: the run shows no violation on this tree", prop));
            0
        }
        Some(v) => {
            say(&format!("{}: {} -- {}", prop, v.class, v.msg));
            say(&format!("run log hash {:016x}, recorded {}: {}", cx.lasthash, j.get("loghash").st(), if format!("{:016x}", cx.lasthash) == j.get("loghash").st() { "identical" } else { "different" }));
            say(&format!("VIOLATION property={} replay={}", prop, file));
            1
        }
    }
}

/// Run N cases twice each and compare; print timing
fn runs(prop: &str, seed: u64, from: u64, to: u64) -> i32 {
    let mut cx = Ctx::new();
    let mut bad = 0;
    let mut worst = (0u64, 0u64);
    let t0 = Instant::now();
    for i in from..to {
        let t = Instant::now();
        let case = make(prop, case_seed(seed, prop, i));
        let tm = t.elapsed().as_micros();
        let (case, v) = cx.judge(case);
        let te = t.elapsed().as_micros() - tm;
        let h = cx.lasthash;
        let st = cx.laststeps;
        if st > worst.0 {
            worst = (st, i);
        }
        cx.eval(&case, false);
        if h != cx.lasthash {
            bad += 1;
            say(&format!("{}: not deterministic: {:x} {:x}", i, h, cx.lasthash));
        }
        if let Some(v) = v {
            say(&format!("{}: {} -- {}", i, v.class, v.msg));
        }
        if to - from < 40 {
            say(&format!("{}: plan {} us, eval {} us, steps {} maxop {}", i, tm, te, st, cx.lastmaxop));
        }
    }
    say(&format!("{} cases in {:.1} s (each twice), {} differ, worst steps {:?} maxop {}", to - from, t0.elapsed().as_secs_f64(), bad, worst, cx.acc.get("maxop")));
    say(&map(&cx.acc.0).dump());
    bad
}

fn main() {
    reexec();
    rt::process_init();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let num = |i: usize, d: u64| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
    let code = match arg(1) {
        "check" if props::IDS.contains(&arg(2)) => {
            let tier = if arg(3) == "thorough" { "thorough" } else { "quick" };
            check(arg(2), tier, num(4, 1), num(5, 60))
        }
        "replay" => replay(arg(2)),
        "plan" => world::elsewhere(),
        "runs" => runs(arg(2), num(3, 1), num(4, 0), num(5, 20)),
        "costs" => {
            costs(arg(2), num(3, 1), num(4, 0));
            0
        }
        "wide" => {
            let mut r = rt::Rng::new(num(3, 1));
            let g = if num(2, 0) == 0 { gen::wide_grammar(&mut r, true) } else { gen::wide(&mut r, num(2, 70) as usize) };
            let m = model::M::new(&g).unwrap();
            let mut p = plan::Plan::empty();
            let t = gen::spell(&m, &gen::sentence(&m, &mut r, 20), &mut r);
            say(&format!("cost {} builds {:?} {} bytes", m.cost, m.builds, g.text().len()));
            p.grams.push(g);
            p.objs.push(plan::Obj::Parser(0));
            p.clients = vec![vec![plan::Op::Parse(0, t)]];
            let ms = world::models(&p);
            let e = world::expectations(&p, &ms);
            let t0 = Instant::now();
            let o = world::run(&p, &e, new_shm());
            say(&format!("{} ms {:?}", t0.elapsed().as_millis(), o.recs.iter().map(|(k, r)| (r.steps, *k, r.kind)).collect::<Vec<_>>()));
            0
        }
        "deep" => {
            let mut r = rt::Rng::new(num(4, 1));
            let (g, t) = gen::deep(&mut r, num(2, 0) as usize, num(3, 1000) as usize);
            let mut p = plan::Plan::empty();
            p.step_limit *= 100;
            p.grams.push(g);
            p.objs.push(plan::Obj::Parser(0));
            p.clients = vec![vec![plan::Op::Parse(0, t)]];
            let t0 = Instant::now();
            let ms = world::models(&p);
            let e = world::expectations(&p, &ms);
            say(&format!("model {} ms", t0.elapsed().as_millis()));
            let t0 = Instant::now();
            let o = world::run(&p, &e, new_shm());
            say(&format!("{} ms {:?} {:?}", t0.elapsed().as_millis(), o.end, o.recs.iter().map(|(k, r)| (r.steps, *k, r.kind)).collect::<Vec<_>>()));
            0
        }
        "flat" => {
            let mut r = rt::Rng::new(num(2, 1));
            let (g, t) = gen::flat(&mut r);
            let mut p = plan::Plan::empty();
            p.grams.push(g);
            p.objs.push(plan::Obj::Parser(0));
            p.clients = vec![vec![plan::Op::Parse(0, t)]];
            let t0 = Instant::now();
            let ms = world::models(&p);
            let e = world::expectations(&p, &ms);
            say(&format!("model {} ms", t0.elapsed().as_millis()));
            let t0 = Instant::now();
            let o = world::run(&p, &e, new_shm());
            say(&format!("{} ms {:?}", t0.elapsed().as_millis(), o.recs.iter().map(|(k, r)| (r.steps, *k, r.kind)).collect::<Vec<_>>()));
            0
        }
        "show" => {
            say(&replay_json(&make(arg(2), case_seed(num(3, 1), arg(2), num(4, 0))), &V { class: String::new(), msg: String::new() }, num(4, 0), num(3, 1), 0).dump());
            0
        }
        _ => {
            say("usage: simtl check PROP TIER SEED SECS [MAXRUNS] | replay FILE | runs PROP SEED FROM TO | show PROP SEED I");
            2
        }
    };
    let _: (BTreeMap<u8, u8>, HashMap<u8, u8>);
    raw_exit(code)
}
/// Steps of every call of a case
fn costs(prop: &str, seed: u64, i: u64) {
    let case = make(prop, case_seed(seed, prop, i));
    for p in &case.plans {
        let ms = world::models(p);
        let mut p = p.clone();
        p.crash = None;
        let e = world::expectations(&p, &ms);
        let o = world::run(&p, &e, new_shm());
        let mut v: Vec<_> = o.recs.iter().map(|(k, r)| (r.steps, *k, r.kind)).collect();
        v.sort();
        v.reverse();
        for x in v.iter().take(4) {
            say(&format!("{:?}", x));
            if (x.1 .0 as usize) < p.clients.len() {
                let op = &p.clients[x.1 .0 as usize][x.1 .1 as usize];
                say(&format!("{:?}", op));
                if let plan::Op::Build { g, .. } = op {
                    say(&format!("cost {:?}", ms.g[*g].as_ref().map(|m| m.cost)));
                }
            }
        }
    }
}
