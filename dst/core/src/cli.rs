//! Command line: `run` searches a range of seeds, `exec` runs one plan, `min` minimises one.

use std::collections::HashSet;
use std::io::Write as _;
use std::time::Duration;
use std::time::Instant;

use crate::core::*;
use crate::ops::*;
use crate::run::*;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const i8, flags: i32, ...) -> i32;
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| -> Option<&str> {
        a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).map(|x| x.as_str())
    };
    let num = |n: &str, d: u64| get(n).map_or(d, |x| x.parse().unwrap());
    match a.get(1).map(|x| x.as_str()) {
        Some("run") => search(
            prop(get("--prop").unwrap()),
            num("--seed", 1),
            num("--start", 0),
            num("--end", 1000),
            num("--stride", 1),
            num("--secs", 600),
            get("--out").unwrap(),
            num("--max-fails", 1),
        ),
        Some("gen") => {
            let p = prop(get("--prop").unwrap());
            let plan = gen_plan(p, run_seed(num("--seed", 1), p.id, num("--index", 0)));
            print!("{}", plan.to_text());
        }
        Some("exec") => {
            let text = std::fs::read_to_string(get("--file").unwrap()).unwrap();
            let p = prop(get("--prop").unwrap());
            let plan = Plan::parse(&text);
            let o = exec_plan(p, &plan, true);
            for l in &o.trace {
                println!("trace {l}");
            }
            for v in &o.viols {
                println!("VIOL {} {}", v.class, v.msg);
            }
            println!("HASH {:016x} steps {} foreign {}", o.hash, o.steps, o.foreign);
            if get("--sched").is_some() {
                let s: Vec<String> = o.sched.iter().map(|x| x.to_string()).collect();
                println!("sched {}", s.join(" "));
            }
        }
        Some("min") => {
            let text = std::fs::read_to_string(get("--file").unwrap()).unwrap();
            let p = prop(get("--prop").unwrap());
            let plan = Plan::parse(&text);
            let m = minimise(p, plan, get("--class").unwrap(), num("--secs", 30), num("--hang", 20) as u32);
            std::fs::write(get("--out").unwrap(), m.to_text()).unwrap();
        }
        // Number of distinct hashes in the files.
        Some("union") => {
            let mut all: HashSet<u64> = HashSet::new();
            for f in &a[2..] {
                let b = std::fs::read(f).unwrap();
                all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            println!("{}", all.len());
        }
        _ => {
            eprintln!("usage: dst run|gen|exec|min|union ...");
            std::process::exit(2);
        }
    }
}

fn search(p: &Prop, seed: u64, start: u64, end: u64, stride: u64, secs: u64, out: &str, max_fails: u64) {
    let t0 = Instant::now();
    let prog = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{out}.progress")).unwrap();
    use std::os::unix::fs::FileExt;
    let (mut runs, mut steps, mut foreign, mut nontrivial, mut nops, mut time) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut plans: HashSet<u64> = HashSet::new();
    let mut fails = 0;
    let mut digest = 0u64;
    let mut i = start;
    let mut report = String::new();
    while i < end {
        if t0.elapsed() > Duration::from_secs(secs) || STOP.load(std::sync::atomic::Ordering::Relaxed) {
            break;
        }
        let _ = prog.write_all_at(&(i + 1).to_le_bytes(), 0);
        let plan = gen_plan(p, run_seed(seed, p.id, i));
        let o = exec_plan(p, &plan, false);
        runs += 1;
        steps += o.steps;
        foreign += o.foreign;
        time += o.time;
        nops += plan.ops.len() as u64;
        digest = digest.wrapping_add(mix(o.hash, i));
        plans.insert(hash_plan(&plan));
        if o.nontrivial && hashes.insert(o.hash) {
            nontrivial += 1;
        }
        if states.len() < 3_000_000 {
            states.extend(o.states.iter().copied());
        }
        if !o.viols.is_empty() {
            fails += 1;
            let v = &o.viols[0];
            report += &format!("FAIL {} {} {}\n", i, v.class, v.msg.replace('\n', "\\n"));
            let mut pl = plan.clone();
            pl.sched = o.sched;
            std::fs::write(format!("{out}.fail.{i}"), pl.to_text()).unwrap();
            if fails >= max_fails {
                i += stride;
                break;
            }
        }
        i += stride;
    }
    let mut s = report;
    s += &format!(
        "SUMMARY runs={runs} steps={steps} foreign={foreign} nontrivial={nontrivial} ops={nops} time={time} digest={digest:016x} next={i} secs={:.3}\n",
        t0.elapsed().as_secs_f64()
    );
    for k in 0..NF {
        s += &format!("FAULT {} {}\n", FAULT_NAMES[k], fired_total()[k]);
    }
    if let Some(e) = reg().ext {
        for (k, v) in e.counts() {
            s += &format!("EXTRA {k} {v}\n");
        }
    }
    let dump = |name: &str, h: &HashSet<u64>| {
        let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{out}.{name}")).unwrap());
        for x in h {
            f.write_all(&x.to_le_bytes()).unwrap();
        }
    };
    dump("hashes", &hashes);
    dump("states", &states);
    dump("plans", &plans);
    std::fs::write(format!("{out}.summary"), s).unwrap();
    let _ = prog.write_all_at(&u64::MAX.to_le_bytes(), 0);
}

fn fired_total() -> [u64; NF] {
    cx().fired_total
}

fn hash_plan(p: &Plan) -> u64 {
    let mut h = 17;
    for b in p.to_text().bytes() {
        h = mix(h, b as u64);
    }
    h
}

/// Run a plan in a child process and tell how it ends: a violation class, "crash", "hang" or "".
fn classify(p: &Prop, plan: &Plan, hang: u32) -> (String, Vec<u32>) {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0);
        let pid = fork();
        if pid == 0 {
            let null = open(c"/dev/null".as_ptr(), 1);
            dup2(null, 1);
            dup2(null, 2);
            alarm(hang);
            let o = exec_plan(p, plan, false);
            let s = o.viols.first().map_or("-".to_owned(), |v| v.class.to_owned());
            let sc: Vec<String> = o.sched.iter().map(|x| x.to_string()).collect();
            let s = format!("{s}\n{}\n", sc.join(" "));
            let mut b = s.as_bytes();
            while !b.is_empty() {
                let n = write(fds[1], b.as_ptr() as *const _, b.len());
                if n <= 0 {
                    break;
                }
                b = &b[n as usize..];
            }
            _exit(0);
        }
        close(fds[1]);
        let mut buf = Vec::new();
        let mut tmp = [0u8; 4096];
        loop {
            let n = read(fds[0], tmp.as_mut_ptr() as *mut _, tmp.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0i32;
        waitpid(pid, &mut st, 0);
        if st & 0x7f == 14 {
            return ("hang".to_owned(), vec![]);
        }
        if st != 0 {
            return ("crash".to_owned(), vec![]);
        }
        let s = String::from_utf8(buf).unwrap();
        let mut l = s.lines();
        let class = l.next().unwrap_or("-").to_owned();
        let sched = l.next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap()).collect();
        (if class == "-" { String::new() } else { class }, sched)
    }
}

fn minimise(p: &Prop, plan: Plan, class: &str, secs: u64, hang: u32) -> Plan {
    let t0 = Instant::now();
    let threaded = !plan.sched.is_empty();
    let mut best = plan;
    let over = || t0.elapsed() > Duration::from_secs(secs);
    let mut try_it = |cand: &Plan, best: &mut Plan| -> bool {
        if over() || cand == best {
            return false;
        }
        let (c, sched) = classify(p, cand, hang);
        if c == class {
            *best = cand.clone();
            if threaded && !sched.is_empty() && sched.len() <= best.sched.len() {
                best.sched = sched;
            }
            true
        } else {
            false
        }
    };
    let drop_ops = |best: &mut Plan, try_it: &mut dyn FnMut(&Plan, &mut Plan) -> bool| {
        let mut chunk = (best.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() {
                let mut c = best.clone();
                c.ops.drain(i..(i + chunk).min(c.ops.len()));
                if !try_it(&c, best) {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
    };
    for _round in 0..4 {
        let before = best.clone();
        drop_ops(&mut best, &mut try_it);
        // scheduling decisions: shorter, and back to the least perturbing choice
        if threaded {
            let mut keep = best.sched.len();
            while keep > 2 {
                let mut c = best.clone();
                c.sched.truncate((keep / 4 * 2).max(2));
                if try_it(&c, &mut best) {
                    keep = best.sched.len();
                } else {
                    break;
                }
            }
            let mut chunk = (best.sched.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.sched.len() {
                    let hi = (i + chunk).min(best.sched.len());
                    if best.sched[i..hi].iter().any(|&x| x != 0) {
                        let mut c = best.clone();
                        c.sched[i..hi].iter_mut().for_each(|x| *x = 0);
                        try_it(&c, &mut best);
                    }
                    i += chunk;
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            while best.sched.last() == Some(&0) && best.sched.len() > 3 {
                let mut c = best.clone();
                c.sched.truncate(best.sched.len() - 2);
                if !try_it(&c, &mut best) {
                    break;
                }
            }
        }
        for i in 0..best.ops.len() {
            if best.ops[i].fault.is_some() {
                let mut c = best.clone();
                c.ops[i].fault = None;
                try_it(&c, &mut best);
            }
            if let Some((k, n)) = best.ops[i].fault {
                for m in 0..n.min(6) {
                    let mut c = best.clone();
                    c.ops[i].fault = Some((k, m));
                    if try_it(&c, &mut best) {
                        break;
                    }
                }
            }
            let mut j = 0;
            while j < best.ops[i].script.len() {
                let mut c = best.clone();
                c.ops[i].script.remove(j);
                if !try_it(&c, &mut best) {
                    j += 1;
                }
            }
            for f in 0..3 {
                let v = [best.ops[i].a, best.ops[i].b, best.ops[i].c][f];
                for nv in [0, 1, v / 2, v & 0xff] {
                    if nv < v {
                        let mut c = best.clone();
                        match f {
                            0 => c.ops[i].a = nv,
                            1 => c.ops[i].b = nv,
                            _ => c.ops[i].c = nv,
                        }
                        if try_it(&c, &mut best) {
                            break;
                        }
                    }
                }
            }
            for j in 0..best.ops[i].script.len() {
                let v = best.ops[i].script[j];
                for nv in [v & 0xff, v & 0xffff] {
                    if nv < v {
                        let mut c = best.clone();
                        c.ops[i].script[j] = nv;
                        if try_it(&c, &mut best) {
                            break;
                        }
                    }
                }
            }
        }
        if best == before || over() {
            break;
        }
    }
    best
}
