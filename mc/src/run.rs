//! The explorer: a worker process that enumerates every script of every family of a property on all
//! cores, and a supervisor that watches it, so that an abort, a stack overflow or a hang of the
//! implementation is a result like any other.

use crate::textprops::O;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What one script showed.
pub struct Seen {
    pub o: O,
    /// canonical form of the state the script leads to
    pub state: u64,
}

pub enum Gen {
    /// every sequence of at most `depth` symbols between `pre` and `post`
    Trie { pre: String, syms: Vec<String>, post: String, depth: usize },
    /// a finite list
    List { len: u64, f: Box<dyn Fn(u64) -> String + Send + Sync> },
}

pub struct Family {
    pub name: String,
    pub gen: Gen,
}

pub fn trie(name: &str, pre: &str, syms: &[&str], post: &str, depth: usize) -> Family {
    Family {
        name: name.into(),
        gen: Gen::Trie {
            pre: pre.into(),
            syms: syms.iter().map(|s| s.to_string()).collect(),
            post: post.into(),
            depth,
        },
    }
}

pub fn list(name: &str, v: Vec<String>) -> Family {
    Family { name: name.into(), gen: Gen::List { len: v.len() as u64, f: Box::new(move |i| v[i as usize].clone()) } }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&str) -> Seen,
    /// whether the property says anything about this script (asked when executing it kills or hangs
    /// the process)
    pub concerns: fn(&str) -> bool,
    pub families: Vec<Family>,
    /// model states and transitions explored when the families were generated
    pub model: (u64, u64),
    /// shrinking by deleting characters yields scripts of the same kind
    pub shrink: bool,
    pub snippet: fn(&str) -> String,
    pub bounds: String,
}

/// how many members of a list are taken at a time: one, where there may be large ones
fn block(len: u64) -> u64 {
    if len <= 60_000 {
        1
    } else {
        64
    }
}

const SLOT: usize = 4 << 20;
const STACK: usize = 256 << 20;
const STALL: Duration = Duration::from_secs(20);

/// processor time after which a script alone in a process is taken to have no end
fn no_end(tier: &str) -> Duration {
    Duration::from_secs(if tier == "quick" { 60 } else { 240 })
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}

struct Slots(*mut u8);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

impl Slots {
    fn open(path: &Path, n: usize) -> Slots {
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((n * SLOT) as u64).unwrap();
        // PROT_READ | PROT_WRITE, MAP_SHARED
        let p = unsafe { mmap(std::ptr::null_mut(), n * SLOT, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Slots(p)
    }
    fn at(&self, i: usize) -> *mut u8 {
        unsafe { self.0.add(i * SLOT) }
    }
    fn begin(&self, i: usize, text: &str) {
        let p = self.at(i);
        let n = text.len().min(SLOT - 32);
        unsafe {
            let seq = p as *const AtomicU64;
            (p.add(8) as *mut u64).write(n as u64);
            std::ptr::copy_nonoverlapping(text.as_ptr(), p.add(32), n);
            (*(p.add(16) as *const AtomicU64)).store(1, Ordering::Release);
            (*seq).fetch_add(1, Ordering::Release);
        }
    }
    fn end(&self, i: usize) {
        unsafe { (*(self.at(i).add(16) as *const AtomicU64)).store(0, Ordering::Release) }
    }
    fn look(&self, i: usize) -> (u64, bool, String) {
        let p = self.at(i);
        unsafe {
            let seq = (*(p as *const AtomicU64)).load(Ordering::Acquire);
            let busy = (*(p.add(16) as *const AtomicU64)).load(Ordering::Acquire) == 1;
            let n = (p.add(8) as *const u64).read() as usize;
            let s = std::slice::from_raw_parts(p.add(32), n.min(SLOT - 32)).to_vec();
            (seq, busy, String::from_utf8_lossy(&s).into_owned())
        }
    }
    fn seq(&self, i: usize) -> u64 {
        unsafe { (*(self.at(i) as *const AtomicU64)).load(Ordering::Acquire) }
    }
}

#[derive(Default)]
struct Tally {
    execs: u64,
    nontrivial: u64,
    known: BTreeMap<String, (u64, String)>,
    viols: Vec<(String, String)>,
    viol_count: u64,
    states: HashSet<u64>,
    edges: HashSet<u64>,
    max_len: usize,
    /// the longest execution, in microseconds
    slow: (u64, String),
}

impl Tally {
    fn merge(&mut self, o: Tally) {
        self.execs += o.execs;
        self.nontrivial += o.nontrivial;
        for (k, (n, ex)) in o.known {
            let e = self.known.entry(k).or_insert((0, ex.clone()));
            e.0 += n;
            if (ex.len(), &ex) < (e.1.len(), &e.1) {
                e.1 = ex
            }
        }
        self.viols.extend(o.viols);
        self.viol_count += o.viol_count;
        self.states.extend(o.states);
        self.edges.extend(o.edges);
        self.max_len = self.max_len.max(o.max_len);
        if o.slow.0 > self.slow.0 {
            self.slow = o.slow
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x
}

struct Ctx<'a> {
    prop: &'a Prop,
    slots: &'a Slots,
    skip: &'a HashSet<String>,
    me: usize,
    t: Tally,
}

impl Ctx<'_> {
    fn exec(&mut self, s: &str) -> u64 {
        if self.skip.contains(s) {
            return 0;
        }
        self.slots.begin(self.me, s);
        let t0 = Instant::now();
        let seen = (self.prop.run)(s);
        let us = t0.elapsed().as_micros() as u64;
        if us > self.t.slow.0 {
            self.t.slow = (us, s.chars().take(60).collect())
        }
        self.slots.end(self.me);
        self.t.execs += 1;
        self.t.max_len = self.t.max_len.max(s.len());
        self.t.states.insert(seen.state);
        match seen.o {
            O::Held(nt) => self.t.nontrivial += nt as u64,
            O::Known(id) => {
                self.t.nontrivial += 1;
                let e = self.t.known.entry(id.to_string()).or_insert((0, s.to_string()));
                e.0 += 1;
                if s.len() < e.1.len() {
                    e.1 = s.to_string()
                }
            }
            O::Viol(m) => {
                self.t.nontrivial += 1;
                self.t.viol_count += 1;
                self.t.viols.push((s.to_string(), m));
                if self.t.viols.len() >= 200 {
                    self.t.viols.sort_by_key(|v| v.0.len());
                    self.t.viols.truncate(20);
                }
            }
        }
        seen.state
    }

    fn edge(&mut self, from: u64, sym: u64, to: u64) {
        self.t.edges.insert(mix(mix(from, sym + 1), to));
    }

    #[allow(clippy::too_many_arguments)]
    fn dfs(&mut self, buf: &mut String, syms: &[String], post: &str, left: usize, from: u64, stop: &dyn Fn() -> bool) {
        if left == 0 || stop() {
            return;
        }
        let n = buf.len();
        for (k, s) in syms.iter().enumerate() {
            buf.push_str(s);
            let m = buf.len();
            buf.push_str(post);
            let to = self.exec(buf);
            buf.truncate(m);
            self.edge(from, k as u64, to);
            self.dfs(buf, syms, post, left - 1, to, stop);
            buf.truncate(n);
        }
    }
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn limit_memory() {
    // RLIMIT_AS: 24 GB, RLIMIT_CORE: none
    unsafe {
        setrlimit(9, &[24 << 30, 24 << 30]);
        setrlimit(4, &[0, 0]);
    }
}

/* ---------- worker ---------- */

/// Explores everything and writes the result to `out`.
pub fn worker(prop: Prop, slot_path: &Path, skip_path: &Path, out: &Path, cap: Duration) {
    limit_memory();
    silence_panics();
    let start = Instant::now();
    let n = threads();
    let slots = Slots::open(slot_path, n);
    let skip: HashSet<String> = fs::read_to_string(skip_path)
        .unwrap_or_default()
        .lines()
        .map(unescape)
        .collect();
    let mut total = Tally::default();
    let mut capped = false;
    let mut report = String::new();
    for (fi, fam) in prop.families.iter().enumerate() {
        let next = AtomicUsize::new(0);
        let over = AtomicBool::new(false);
        let sum = Mutex::new(Tally::default());
        // trie: one item per pair of leading symbols; list: blocks
        let items = match &fam.gen {
            Gen::Trie { syms, depth, .. } => {
                if *depth >= 2 {
                    syms.len() * syms.len()
                } else {
                    1
                }
            }
            Gen::List { len, .. } => (*len).div_ceil(block(*len)) as usize,
        };
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            for me in 0..n {
                let (next, over, sum, prop, slots, skip) = (&next, &over, &sum, &prop, &slots, &skip);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        let mut c = Ctx { prop, slots, skip, me, t: Tally::default() };
                        let stop = || {
                            if start.elapsed() > cap {
                                over.store(true, Ordering::Relaxed)
                            }
                            over.load(Ordering::Relaxed)
                        };
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= items || stop() {
                                break;
                            }
                            match &fam.gen {
                                Gen::Trie { pre, syms, post, depth } => {
                                    let mut buf = pre.clone();
                                    if *depth < 2 {
                                        let mut b = pre.clone();
                                        b.push_str(post);
                                        let s = c.exec(&b);
                                        c.dfs(&mut buf, syms, post, *depth, s, &stop);
                                        continue;
                                    }
                                    let (a, b) = (i / syms.len(), i % syms.len());
                                    let text = |k: &[usize]| {
                                        let mut t = pre.clone();
                                        for x in k {
                                            t.push_str(&syms[*x])
                                        }
                                        t.push_str(post);
                                        t
                                    };
                                    let s1 = if b == 0 {
                                        // this item also covers the shorter scripts
                                        let s0 = if a == 0 { c.exec(&text(&[])) } else { (prop.run)(&text(&[])).state };
                                        let s1 = c.exec(&text(&[a]));
                                        c.edge(s0, a as u64, s1);
                                        s1
                                    } else {
                                        let t = text(&[a]);
                                        if skip.contains(&t) {
                                            0
                                        } else {
                                            slots.begin(me, &t);
                                            let s = (prop.run)(&t).state;
                                            slots.end(me);
                                            s
                                        }
                                    };
                                    let s2 = c.exec(&text(&[a, b]));
                                    c.edge(s1, b as u64, s2);
                                    buf.push_str(&syms[a]);
                                    buf.push_str(&syms[b]);
                                    c.dfs(&mut buf, syms, post, depth - 2, s2, &stop);
                                }
                                Gen::List { len, f } => {
                                    let b = block(*len);
                                    for k in (i as u64 * b)..((i as u64 + 1) * b).min(*len) {
                                        c.exec(&f(k));
                                    }
                                }
                            }
                        }
                        sum.lock().unwrap().merge(c.t);
                    })
                    .unwrap();
            }
        });
        let t = sum.into_inner().unwrap();
        capped |= over.load(Ordering::Relaxed);
        writeln!(
            report,
            "family\t{}\t{}\t{}\t{}\t{}\t{:.3}",
            fam.name,
            t.execs,
            t.nontrivial,
            t.max_len,
            t.states.len(),
            t0.elapsed().as_secs_f64()
        )
        .unwrap();
        let bad = t.viol_count > 0;
        total.merge(t);
        if bad || capped {
            if fi + 1 < prop.families.len() {
                writeln!(report, "stopped\t{}", if bad { "violation" } else { "cap" }).unwrap();
            }
            break;
        }
    }
    if std::env::var_os("MC_SLOW").is_some() {
        writeln!(report, "slow\t{}\t{}", total.slow.0, escape(&total.slow.1)).unwrap();
    }
    writeln!(report, "execs\t{}", total.execs).unwrap();
    writeln!(report, "nontrivial\t{}", total.nontrivial).unwrap();
    writeln!(report, "states\t{}", total.states.len() as u64 + prop.model.0).unwrap();
    writeln!(report, "edges\t{}", total.edges.len() as u64 + prop.model.1).unwrap();
    writeln!(report, "capped\t{}", capped as u8).unwrap();
    for (id, (n, ex)) in &total.known {
        writeln!(report, "known\t{id}\t{n}\t{}", escape(ex)).unwrap();
    }
    writeln!(report, "violations\t{}", total.viol_count).unwrap();
    total.viols.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    for (s, m) in total.viols.iter().take(20) {
        writeln!(report, "viol\t{}\t{}", escape(s), escape(m)).unwrap();
    }
    writeln!(report, "done\t1").unwrap();
    fs::write(out, report).unwrap();
}

pub fn escape(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

pub fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some('r') => out.push('\r'),
                Some(x) => out.push(x),
                None => {}
            }
        } else {
            out.push(c)
        }
    }
    out
}

/* ---------- one script in a process of its own ---------- */

/// exit status 0 held, 1 violated (message on stdout), 3 known
pub fn run1(prop: &Prop, script: &str) -> i32 {
    limit_memory();
    silence_panics();
    let o = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || (prop.run)(script).o)
            .unwrap()
            .join()
            .unwrap()
    });
    match o {
        O::Held(_) => 0,
        O::Known(id) => {
            println!("{id}");
            3
        }
        O::Viol(m) => {
            println!("{m}");
            1
        }
    }
}

#[derive(Debug, PartialEq)]
pub enum One {
    Held,
    Viol(String),
    Killed(String),
}

/// the processor time a process of ours has used
fn cpu(pid: u32) -> Option<Duration> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    let ticks = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(Duration::from_millis(ticks * 10))
}

pub fn isolated(id: &str, tier: &str, script: &str, dir: &Path, limit: Duration) -> One {
    let f = dir.join("one.txt");
    fs::write(&f, script).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["run1", id, tier])
        .arg(&f)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    let mut looks = 0;
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let mut s = String::new();
            let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
            return match st.code() {
                Some(0) | Some(3) => One::Held,
                Some(1) => One::Viol(s.trim().to_string()),
                Some(c) => One::Killed(format!("the process exits with status {c}")),
                None => One::Killed(format!("the process is killed ({st}): stack overflow or abort")),
            };
        }
        looks += 1;
        // processor time where it can be read: the clock also runs while other processes do
        let used = cpu(ch.id()).unwrap_or(t0.elapsed()).max(t0.elapsed() / 8);
        if used > limit && looks > 1000 {
            let _ = ch.kill();
            let _ = ch.wait();
            return One::Killed(format!("no result within {} s", limit.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/* ---------- supervisor ---------- */

pub struct Outcome {
    pub report: BTreeMap<String, u64>,
    pub families: Vec<(String, u64, u64, u64, u64, f64)>,
    pub known: Vec<(String, u64, String)>,
    pub viols: Vec<(String, String)>,
    pub stopped: Option<String>,
    pub skipped: Vec<String>,
}

pub fn supervise(prop: &Prop, tier: &str, dir: &Path, cap: Duration) -> Result<Outcome, String> {
    let n = threads();
    let mut skipped: Vec<String> = Vec::new();
    for _attempt in 0..12 {
        let slot_path = dir.join("slots");
        let _ = fs::remove_file(&slot_path);
        let slots = Slots::open(&slot_path, n);
        let skip_path = dir.join("skip");
        fs::write(&skip_path, skipped.iter().map(|s| escape(s) + "\n").collect::<String>()).unwrap();
        let out: PathBuf = dir.join("result");
        let _ = fs::remove_file(&out);
        let mut ch = Command::new(std::env::current_exe().unwrap())
            .args(["worker", prop.id, tier, &cap.as_secs().to_string()])
            .args([&slot_path, &skip_path, &out])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        // (sequence number, since when, looks since then): the clock alone also runs while all stand still
        let mut last: Vec<(u64, Instant, u32)> = vec![(0, Instant::now(), 0); n];
        let mut hung = None;
        let status = loop {
            if let Some(st) = ch.try_wait().unwrap() {
                break Some(st);
            }
            std::thread::sleep(Duration::from_millis(20));
            for (i, l) in last.iter_mut().enumerate() {
                let q = slots.seq(i);
                if q != l.0 {
                    *l = (q, Instant::now(), 0);
                    continue;
                }
                l.2 += 1;
                if l.1.elapsed() > STALL && l.2 > 400 && q != 0 {
                    // no end for so long: is it the script, or only a busy machine?
                    let (q, busy, s) = slots.look(i);
                    if busy && q == l.0 {
                        if let One::Killed(why) = isolated(prop.id, tier, &s, dir, no_end(tier)) {
                            hung = Some((s, why)).filter(|_| slots.seq(i) == q)
                        }
                    }
                    *l = (slots.seq(i), Instant::now(), 0);
                }
            }
            if hung.is_some() {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
        };
        let text = fs::read_to_string(&out).unwrap_or_default();
        if status.is_some_and(|s| s.success()) && text.contains("done\t1") {
            return parse(&text, skipped);
        }
        // the worker died or hung: the scripts it was executing are the suspects
        let mut culprit = hung;
        for i in 0..n {
            if culprit.is_some() {
                break;
            }
            let (q, busy, s) = slots.look(i);
            if q == 0 || !busy {
                continue;
            }
            if let One::Killed(why) = isolated(prop.id, tier, &s, dir, no_end(tier)) {
                culprit = Some((s, why));
                break;
            }
        }
        let (s, why) = match culprit {
            Some(x) => x,
            None => {
                eprintln!("worker ended with {status:?} and no script reproduces it; running again");
                continue;
            }
        };
        if (prop.concerns)(&s) {
            let mut o = Outcome {
                report: BTreeMap::new(),
                families: vec![],
                known: vec![],
                viols: vec![(s, why)],
                stopped: Some("violation".into()),
                skipped,
            };
            o.report.insert("execs".into(), (0..n).map(|i| slots.seq(i)).sum());
            return Ok(o);
        }
        skipped.push(s);
    }
    Err("the worker keeps dying".into())
}

fn parse(text: &str, skipped: Vec<String>) -> Result<Outcome, String> {
    let mut o = Outcome {
        report: BTreeMap::new(),
        families: vec![],
        known: vec![],
        viols: vec![],
        stopped: None,
        skipped,
    };
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let n = |k: usize| f[k].parse::<u64>().unwrap_or(0);
        match f[0] {
            "family" => o.families.push((f[1].into(), n(2), n(3), n(4), n(5), f[6].parse().unwrap_or(0.0))),
            "known" => o.known.push((f[1].into(), n(2), unescape(f[3]))),
            "viol" => o.viols.push((unescape(f[1]), unescape(f[2]))),
            "slow" => eprintln!("slowest execution: {} ms, {}", n(1) / 1000, f[2]),
            "stopped" => o.stopped = Some(f[1].into()),
            k => {
                o.report.insert(k.into(), n(1));
            }
        }
    }
    Ok(o)
}

/// Makes a failing script smaller by deleting characters and blocks while it keeps failing.
pub fn shrink(prop: &Prop, tier: &str, dir: &Path, script: String, message: String) -> (String, String) {
    if !prop.shrink {
        return (script, message);
    }
    let mut best = (script, message);
    let t0 = Instant::now();
    let mut width = best.0.chars().count() / 2;
    while width >= 1 {
        let mut at = 0;
        loop {
            let cs: Vec<char> = best.0.chars().collect();
            if at + width > cs.len() || t0.elapsed() > Duration::from_secs(20) {
                break;
            }
            let cand: String = cs[..at].iter().chain(&cs[at + width..]).collect();
            let bad = if cand.is_empty() {
                None
            } else {
                match isolated(prop.id, tier, &cand, dir, Duration::from_secs(5)) {
                    One::Viol(m) => Some(m),
                    One::Killed(m) if (prop.concerns)(&cand) => Some(m),
                    _ => None,
                }
            };
            match bad {
                Some(m) => best = (cand, m),
                None => at += width,
            }
        }
        width /= 2;
    }
    best
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_file(p: &Path, s: &str) {
    if let Some(d) = p.parent() {
        let _ = fs::create_dir_all(d);
    }
    let mut f = fs::File::create(p).unwrap();
    f.write_all(s.as_bytes()).unwrap();
}
