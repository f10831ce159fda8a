mod decode;
mod exec;
mod expr;
mod ir;
mod mem;
mod shared;
mod z3;

use exec::*;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::*;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getpid() -> i32;
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn flush(x: &mut Exec, dir: &str) {
    let mut o = String::new();
    for v in x.viol.drain(..) {
        let st: Vec<String> = v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        writeln!(
            o,
            "{{\"t\":\"viol\",\"kind\":\"{}\",\"id\":{},\"bytes\":\"{}\",\"loc\":\"{}\",\"stack\":[{}]}}",
            v.kind,
            v.id,
            hex(&v.bytes),
            esc(&v.loc),
            st.join(",")
        )
        .unwrap();
    }
    for s in x.samples.drain(..) {
        writeln!(o, "{{\"t\":\"sample\",\"bytes\":\"{}\",\"obs\":\"{:016x}\"}}", hex(&s.bytes), s.obs).unwrap();
    }
    for e in x.errors.drain(..) {
        writeln!(o, "{{\"t\":\"error\",\"msg\":\"{}\"}}", esc(&e)).unwrap();
    }
    let mut fs: Vec<(String, usize, usize)> =
        x.cov.iter().map(|(id, b)| (x.fname(*id), b.iter().filter(|c| **c).count(), b.len())).collect();
    fs.sort();
    for (n, c, t) in fs {
        writeln!(o, "{{\"t\":\"fn\",\"name\":\"{}\",\"cov\":{},\"blocks\":{}}}", esc(&n), c, t).unwrap();
    }
    x.sh.queries.fetch_add(x.z3.queries, SeqCst);
    x.sh.nanos.fetch_add(x.z3.nanos, SeqCst);
    x.z3.queries = 0;
    x.z3.nanos = 0;
    let p = format!("{dir}/w{}.jsonl", unsafe { getpid() });
    std::fs::write(&p, o).unwrap();
}

fn work(x: &mut Exec, dir: &str) -> bool {
    let mut root = true;
    let mut last = std::time::Instant::now();
    let mut first = true;
    while let Some(mut st) = x.pending.pop_back() {
        if x.sh.stop.load(SeqCst) != 0 {
            break;
        }
        if x.sh.overdue() {
            x.errors.push("time limit".into());
            x.sh.stop.store(2, SeqCst);
            break;
        }
        // hand the oldest pending state to a new worker
        if !x.pending.is_empty() && (first || last.elapsed().as_millis() > 15) && x.sh.free.load(SeqCst) > 0 {
            if x.sh.free.fetch_sub(1, SeqCst) > 0 {
                last = std::time::Instant::now();
                first = false;
                let nth = x.sh.forks.fetch_add(1, SeqCst) as u64 + 2 + x.o.seed * 100_000;
                let pid = unsafe { fork() };
                if pid < 0 {
                    x.sh.free.fetch_add(1, SeqCst);
                } else if pid == 0 {
                    root = false;
                    let s = x.pending.pop_front().unwrap();
                    x.pending.clear();
                    x.viol.clear();
                    x.samples.clear();
                    x.errors.clear();
                    x.z3.queries = 0;
                    x.z3.nanos = 0;
                    x.reseed(nth as u64);
                    x.pending.push_back(s);
                    drop(st);
                    continue;
                } else {
                    drop(x.pending.pop_front());
                }
            } else {
                x.sh.free.fetch_add(1, SeqCst);
            }
        }
        match x.run(&mut st) {
            End::Done => x.finish(&st),
            End::Killed => {
                x.sh.killed.fetch_add(1, Relaxed);
            }
            End::Violation => {}
            End::Err(e) => {
                let b = &st.model[..st.nvars as usize];
                x.errors.push(format!("{e}\n  input {}", hex(b)));
                // the other paths go on; the run is reported as incomplete
                if x.sh.error.fetch_add(1, SeqCst) >= 40 {
                    x.sh.stop.store(2, SeqCst);
                }
            }
        }
    }
    if x.profile {
        let mut v: Vec<(u64, String)> = x.prof.iter().map(|(k, n)| (*n, x.fname(*k))).collect();
        v.sort();
        for (n, f) in v.iter().rev().take(25) {
            eprintln!("{n:>12} {f}");
        }
        let mut v: Vec<(&u64, &String)> = x.fprof.iter().map(|(k, n)| (n, k)).collect();
        v.sort();
        for (n, f) in v.iter().rev().take(14) {
            eprintln!("forks {n:>8} {f}");
        }
    }
    flush(x, dir);
    if !root {
        x.sh.free.fetch_add(1, SeqCst);
    }
    root
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let ll = get("--ll").expect("--ll");
    let f = get("--fn").expect("--fn");
    let dir = get("--dir").expect("--dir");
    let jobs: i32 = get("--jobs").map_or(8, |s| s.parse().unwrap());
    let time: u64 = get("--time").map_or(600, |s| s.parse().unwrap());
    let conc = get("--concrete").map(|h| {
        (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>()
    });
    std::fs::create_dir_all(&dir).unwrap();
    unsafe { prctl(36, 1, 0, 0, 0) };
    let t0 = std::time::Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll)));
    if !m.funcs.contains_key(&f) {
        eprintln!("no function {f} in {ll}");
        std::process::exit(2);
    }
    let sh = shared::Shared::new(jobs, time);
    let o = Opts {
        max_steps: get("--max-steps").map_or(60_000_000, |s| s.parse().unwrap()),
        // the usual limit of a main thread
        stack: get("--stack").map_or(8 << 20, |s| s.parse().unwrap()),
        max_viol: get("--max-viol").map_or(4, |s| s.parse().unwrap()),
        samples: get("--samples").map_or(25, |s| s.parse().unwrap()),
        seed: get("--seed").map_or(1, |s| s.parse().unwrap()),
        concrete: conc,
        trace: false,
    };
    let mut x = Exec::new(m, o, sh);
    let st = x.start(&f);
    x.pending.push_back(st);
    let root = work(&mut x, &dir);
    if !root {
        unsafe { _exit(0) };
    }
    let mut bad = false;
    loop {
        let mut s = 0;
        let p = unsafe { waitpid(-1, &mut s, 0) };
        if p <= 0 {
            break;
        }
        if s != 0 {
            bad = true;
            eprintln!("worker {p} ended with status {s:#x}");
            sh.stop.store(2, SeqCst);
        }
    }
    let reach: Vec<String> = (0..1024u64)
        .filter(|k| (sh.reach[(k >> 6) as usize].load(SeqCst) >> (k & 63)) & 1 == 1)
        .map(|k| k.to_string())
        .collect();
    let complete = !bad && sh.stop.load(SeqCst) != 2 && sh.error.load(SeqCst) == 0;
    let s = format!(
        "{{\"complete\":{},\"violations\":{},\"errors\":{},\"paths\":{},\"killed\":{},\"states\":{},\"insns\":{},\"asserts\":{},\"queries\":{},\"solver_s\":{:.3},\"workers\":{},\"wall_s\":{:.2},\"reach\":[{}],\"z3\":\"{}\"}}",
        complete,
        sh.viol.load(SeqCst),
        sh.error.load(SeqCst),
        sh.paths.load(SeqCst),
        sh.killed.load(SeqCst),
        sh.states.load(SeqCst),
        sh.insns.load(SeqCst),
        sh.asserts.load(SeqCst),
        sh.queries.load(SeqCst),
        sh.nanos.load(SeqCst) as f64 / 1e9,
        sh.forks.load(SeqCst) + 1,
        t0.elapsed().as_secs_f64(),
        reach.join(","),
        z3::version(),
    );
    std::fs::write(format!("{dir}/summary.json"), &s).unwrap();
    println!("{s}");
    let code = if !complete { 2 } else if sh.viol.load(SeqCst) > 0 { 1 } else { 0 };
    std::process::exit(code);
}
