//! C23, C28, C31 and C32: what an execution costs, all of it exact and repeatable. Its work: the bytes it
//! requests from a counting allocator, the basic blocks it executes, which are counted when this crate,
//! latex-ast and the standard library are compiled with coverage callbacks (check.sh builds them so), and
//! the bytes it moves or compares in bulk, which that build counts in its own memmove and the like. Its
//! room: how far the stack reaches down at any of those callbacks, and how much memory is allocated at once.

use crate::families::pump;
use crate::run::{mix, Seen};
use crate::textprops::O;
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::str::FromStr;

thread_local! {
    static WORK: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
    static MOVED: Cell<u64> = const { Cell::new(0) };
    /// the lowest address of the stack at a basic block
    static LOW: Cell<usize> = const { Cell::new(usize::MAX) };
    /// the bytes allocated, and the most that were
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// The bulk operations that have no basic blocks of their own, counted by the byte.
#[cfg(count_moves)]
mod bulk {
    use core::arch::asm;
    use core::ffi::c_void as V;

    fn count(n: usize) {
        let _ = super::MOVED.try_with(|m| m.set(m.get().wrapping_add(n as u64)));
    }

    #[no_mangle]
    unsafe extern "C" fn memcpy(d: *mut V, s: *const V, n: usize) -> *mut V {
        count(n);
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        d
    }

    #[no_mangle]
    unsafe extern "C" fn memmove(d: *mut V, s: *const V, n: usize) -> *mut V {
        count(n);
        if (d as usize).wrapping_sub(s as usize) >= n {
            asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        } else {
            let (e, t) = (d.wrapping_byte_add(n).wrapping_byte_sub(1), s.wrapping_byte_add(n).wrapping_byte_sub(1));
            asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") e => _, inout("rsi") t => _, options(nostack));
        }
        d
    }

    #[no_mangle]
    unsafe extern "C" fn memset(d: *mut V, c: i32, n: usize) -> *mut V {
        count(n);
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
        d
    }

    #[no_mangle]
    unsafe extern "C" fn memcmp(a: *const V, b: *const V, n: usize) -> i32 {
        let mut i = 0;
        while i < n {
            let (x, y) = (a.cast::<u8>().add(i).read_volatile(), b.cast::<u8>().add(i).read_volatile());
            if x != y {
                count(i + 1);
                return x as i32 - y as i32;
            }
            i += 1;
        }
        count(n);
        0
    }

    #[no_mangle]
    unsafe extern "C" fn bcmp(a: *const V, b: *const V, n: usize) -> i32 {
        memcmp(a, b, n)
    }

    #[no_mangle]
    unsafe extern "C" fn memchr(a: *const V, c: i32, n: usize) -> *const V {
        let mut i = 0;
        while i < n {
            if a.cast::<u8>().add(i).read_volatile() == c as u8 {
                count(i + 1);
                return a.add(i);
            }
            i += 1;
        }
        count(n);
        core::ptr::null()
    }
}

/// called at every basic block in the instrumented build
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    let here = 0u8;
    let at = &here as *const u8 as usize;
    let _ = BLOCKS.try_with(|b| b.set(b.get().wrapping_add(1)));
    let _ = LOW.try_with(|l| {
        if at < l.get() {
            l.set(at)
        }
    });
}

/// whether this is the instrumented build
pub fn instrumented() -> bool {
    let a = BLOCKS.with(|b| b.get());
    let _ = ast1::Document::from_str("a{b}");
    BLOCKS.with(|b| b.get()) != a
}

pub struct Counting;

fn add(n: usize) {
    let _ = WORK.try_with(|w| w.set(w.get().wrapping_add(n as u64 + 16)));
}

fn live(n: i64) {
    let _ = LIVE.try_with(|l| {
        let now = l.get().wrapping_add(n);
        l.set(now);
        let _ = PEAK.try_with(|p| {
            if p.get() < now {
                p.set(now)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        live(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        live(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // giving some back is not work
        add(if n > l.size() { n } else { 0 });
        live(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// bytes requested, basic blocks, bytes moved, bytes of stack, most bytes of memory at once
type W = [u64; 5];

fn now() -> W {
    [WORK.with(|w| w.get()), BLOCKS.with(|w| w.get()), MOVED.with(|w| w.get()), 0, 0]
}

#[inline(never)]
fn work<X>(f: impl FnOnce() -> X) -> (X, W) {
    let here = 0u8;
    let top = std::hint::black_box(&here) as *const u8 as usize;
    let held = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(held));
    LOW.with(|l| l.set(usize::MAX));
    let a = now();
    let x = f();
    let b = now();
    let mut w = [0, 1, 2, 3, 4].map(|k| b[k].wrapping_sub(a[k]));
    w[3] = top.saturating_sub(LOW.with(|l| l.get())) as u64;
    w[4] = (PEAK.with(|p| p.get()) - held) as u64;
    (x, w)
}

const OPS: [&str; 28] = [
    "stage-1 parsing", "stage-2 parsing", "stage-3 parsing", "stage-1 printing", "stage-2 printing", "stage-3 printing",
    "stage 2 to 1", "stage 3 to 2", "stage-3 line counting", "stage-3 validation", "stage 1 to 2", "stage 2 to 3", "stage-3 cloning",
    "stage-1 line counting", "stage-1 validation", "stage-2 line counting", "stage-2 validation", "stage-1 cloning", "stage-2 cloning",
    "stage-1 comparing", "stage-2 comparing", "stage-3 comparing", "stage-1 dropping", "stage-2 dropping", "stage-3 dropping",
    "stage-1 pushing", "stage-2 pushing", "stage-3 pushing",
];
type M = [Option<W>; 28];

fn measure(s: &str) -> M {
    let mut w = [None; 28];
    let (d1, n) = work(|| ast1::Document::from_str(s));
    w[0] = Some(n);
    let (d2, n) = work(|| ast2::Document::from_str(s));
    w[1] = Some(n);
    let (d3, n) = work(|| ast3::Document::from_str(s));
    w[2] = Some(n);
    if let Ok(d) = d1 {
        w[3] = Some(work(|| d.to_string()).1);
        let (c, n) = work(|| d.clone());
        w[17] = Some(n);
        w[19] = Some(work(|| c == d).1);
        w[10] = Some(work(|| ast2::Document::try_from(c).is_ok()).1);
        w[13] = Some(work(|| d.lines()).1);
        w[14] = Some(work(|| d.validate().is_ok()).1);
        let mut e = ast1::Document::default();
        let l = d.chunks().clone();
        w[25] = Some(work(|| l.into_iter().for_each(|c| e.push_unchecked(c.variant_owned()))).1);
        w[22] = Some(work(|| drop(d)).1);
    }
    if let Ok(d) = d2 {
        w[4] = Some(work(|| d.to_string()).1);
        let (c, n) = work(|| d.clone());
        w[18] = Some(n);
        w[20] = Some(work(|| c == d).1);
        w[6] = Some(work(|| ast1::Document::from(c)).1);
        let c = d.clone();
        w[11] = Some(work(|| ast3::Document::try_from(c).is_ok()).1);
        w[15] = Some(work(|| d.lines()).1);
        w[16] = Some(work(|| d.validate().is_ok()).1);
        let mut e = ast2::Document::default();
        let l = d.chunks().clone();
        w[26] = Some(work(|| l.into_iter().for_each(|c| e.push_unchecked(c.variant_owned()))).1);
        w[23] = Some(work(|| drop(d)).1);
    }
    if let Ok(d) = d3 {
        w[5] = Some(work(|| d.to_string()).1);
        let (c, n) = work(|| d.clone());
        w[12] = Some(n);
        w[21] = Some(work(|| c == d).1);
        w[7] = Some(work(|| ast2::Document::from(c)).1);
        w[8] = Some(work(|| d.lines()).1);
        w[9] = Some(work(|| d.validate().is_ok()).1);
        let mut e = ast3::Document::new_unchecked(vec![], None, vec![], vec![], vec![], String::new(), String::new(), vec![]);
        let (_, _, p, b, _, _, _, t) = d.clone().decompose();
        w[27] = Some(
            work(|| {
                p.into_iter().for_each(|c| e.push_preamable_unchecked(c.variant_owned()));
                b.into_iter().for_each(|c| e.push_body_unchecked(c.variant_owned()));
                t.into_iter().for_each(|c| e.push_trailing_unchecked(c.variant_owned()));
            })
            .1,
        );
        w[24] = Some(work(|| drop(d)).1);
    }
    w
}

const SEP: char = '\u{1}';

/// open, close, before, middle, after
pub fn script(p: (&str, &str), s: (&str, &str, &str), max: usize) -> String {
    [p.0, p.1, s.0, s.1, s.2, &max.to_string()].join(&SEP.to_string())
}

/// C28: the work of a flat text, over doublings of its length and over three of them.
pub fn c28(script: &str) -> Seen {
    let f: Vec<&str> = script.split(SEP).collect();
    let (true, Some(max)) = (f.len() == 6, f.last().and_then(|x| x.parse::<usize>().ok())) else {
        return Seen { o: O::Held(false), state: 0 };
    };
    let mut all: Vec<(usize, M)> = vec![];
    let mut worst = [0f64; 3];
    let mut n = 64;
    while n <= max {
        let w = measure(&pump((f[0], f[1]), (f[2], f[3], f[4]), n));
        if let Some((m, prev)) = all.len().checked_sub(3).map(|k| &all[k]) {
            for (k, name) in OPS.iter().enumerate() {
                let (Some(now), Some(prev)) = (w[k], prev[k]) else { continue };
                for (unit, what, room) in [(0, "bytes of allocation", 2_000.0), (1, "basic blocks", 400.0), (2, "moved bytes", 2_000.0)] {
                    let r = now[unit] as f64 / (prev[unit] as f64 + room);
                    worst[unit] = worst[unit].max(r);
                    // eightfold, with room for the doubling of buffers
                    if r > LINEAR[unit] {
                        return Seen {
                            o: O::Viol(format!(
                                "{name}: {m} repetitions need {} {what}, {n} need {}: faster than linear growth",
                                prev[unit], now[unit]
                            )),
                            state: 1,
                        };
                    }
                }
            }
        }
        all.push((n, w));
        n *= 2;
    }
    let state = worst.iter().fold(5, |h, w| mix(h, (w * 8.0) as u64));
    if std::env::var_os("MC_RATIOS").is_some() {
        eprintln!("{worst:.3?} {script:?}");
    }
    Seen { o: O::Held(true), state }
}

/// measured at most 8.03, 8.0 and 7.99
const LINEAR: [f64; 3] = [14.0, 12.0, 12.0];

pub fn c23(script: &str) -> Seen {
    let f: Vec<&str> = script.split(SEP).collect();
    let (true, Some(max)) = (f.len() == 6, f.last().and_then(|x| x.parse::<usize>().ok())) else {
        return Seen { o: O::Held(false), state: 0 };
    };
    let mut all: Vec<(usize, M)> = vec![];
    let mut n = 4;
    while n <= max {
        let t = pump((f[0], f[1]), (f[2], f[3], f[4]), n);
        let w = measure(&t);
        for (k, (name, now)) in OPS.iter().zip(&w).enumerate() {
            let Some(now) = now else { continue };
            // over one doubling and over three: at most fourfold each, with room for the constant
            // and for the doubling of buffers
            for (unit, what, room1, room3, slack) in
                [
                (0, "bytes of allocation", 20_000.0, 4_000.0, 1.5),
                (1, "basic blocks", 4_000.0, 800.0, 1.25),
                (2, "moved bytes", 20_000.0, 4_000.0, 1.5),
            ]
            {
                for (back, factor, room) in [(1usize, 7.0, room1), (3, 64.0 * slack, room3)] {
                    if all.len() < back {
                        continue;
                    }
                    let (m, prev) = &all[all.len() - back];
                    if let Some(prev) = prev[k] {
                        if now[unit] as f64 > factor * (prev[unit] as f64 + room) {
                            return Seen {
                                o: O::Viol(format!(
                                    "{name}: {m} repetitions need {} {what}, {n} need {}: faster than quadratic growth",
                                    prev[unit], now[unit]
                                )),
                                state: 1,
                            };
                        }
                    }
                }
            }
        }
        all.push((n, w));
        n *= 2;
    }
    // the growth class, as a state
    let state = all.last().map_or(0, |(_, w)| {
        let first = &all[0].1;
        w.iter().zip(first).fold(3, |h, (a, b)| match (a, b) {
            (Some(a), Some(b)) => mix(h, 64 - (a[0] / (b[0] + 1)).leading_zeros() as u64),
            _ => mix(h, 99),
        })
    });
    Seen { o: O::Held(true), state }
}

fn fields(script: &str) -> Option<(Vec<&str>, usize)> {
    let f: Vec<&str> = script.split(SEP).collect();
    let max = f.last()?.parse().ok()?;
    (f.len() == 6).then_some((f, max))
}

/// C31: how far the stack reaches: for flat text as far as for a short one, for nested text in proportion to the nesting.
pub fn c31(script: &str) -> Seen {
    let Some((f, max)) = fields(script) else { return Seen { o: O::Held(false), state: 0 } };
    let flat = f[1].is_empty();
    let mut all: Vec<(usize, M)> = vec![];
    let mut worst = 0f64;
    let sizes = if flat { vec![16, max.min(128), max] } else { vec![max / 64, max / 8, max] };
    for (i, n) in sizes.into_iter().enumerate() {
        let w = measure(&pump((f[0], f[1]), (f[2], f[3], f[4]), n));
        if i > 0 {
            let (m, prev) = if flat { &all[0] } else { &all[i - 1] };
            for (k, name) in OPS.iter().enumerate() {
                let (Some(now), Some(prev)) = (w[k], prev[k]) else { continue };
                let (now, prev) = (now[3] as f64, prev[3] as f64);
                let (r, limit, what) = match flat {
                    true => (now - prev, 24_000.0, "a text without nesting needs more stack the longer it is"),
                    false => (now / (prev + 4_000.0), 10.0, "stack grows faster than nesting"),
                };
                worst = worst.max(r);
                if r > limit {
                    return Seen {
                        o: O::Viol(format!("{name}: {m} repetitions need {prev} bytes of stack, {n} need {now}: {what}")),
                        state: 1,
                    };
                }
            }
        }
        all.push((n, w));
    }
    if std::env::var_os("MC_RATIOS").is_some() {
        eprintln!("{worst:.3?} {script:?}");
    }
    let state = all.last().map_or(0, |(_, w)| w.iter().fold(7, |h, x| mix(h, x.map_or(0, |x| 64 - x[3].leading_zeros() as u64))));
    Seen { o: O::Held(true), state }
}

/// the bytes that are still allocated after something is done and its results are dropped
fn kept<X>(f: impl FnOnce() -> X) -> i64 {
    let a = LIVE.with(|l| l.get());
    drop(f());
    LIVE.with(|l| l.get()) - a
}

/// C32: how much memory is in use at once, and that all of it is given back.
pub fn c32(script: &str) -> Seen {
    if let Some(t) = script.strip_prefix("D:") {
        // ever new texts
        let one = |i: u64| {
            let x: String = (0..6).map(|k| (b'a' + (i / 7u64.pow(k) % 7) as u8) as char).collect();
            measure(&t.replace('X', &x));
        };
        (0..8).for_each(one);
        let n = 2_000;
        let k = kept(|| (8..8 + n).for_each(one));
        if k > 4_096 {
            return Seen { o: O::Viol(format!("{k} bytes are kept after {n} texts were processed and everything was dropped")), state: 1 };
        }
        return Seen { o: O::Held(true), state: k as u64 };
    }
    // in a thread of its own, which keeps nothing yet
    std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || memory(script)).unwrap().join().unwrap()
    })
}

fn memory(script: &str) -> Seen {
    let Some((f, max)) = fields(script) else { return Seen { o: O::Held(false), state: 0 } };
    let flat = f[1].is_empty();
    let mut all: Vec<(usize, M)> = vec![];
    let mut worst = 0f64;
    let mut stay = 0;
    let mut n = if flat { 64 } else { 4 };
    let text = |n: usize| pump((f[0], f[1]), (f[2], f[3], f[4]), n);
    measure(&text(2));
    while n <= max {
        let t = text(n);
        let live = LIVE.with(|l| l.get());
        let w = measure(&t);
        stay += LIVE.with(|l| l.get()) - live;
        if all.len() >= 3 {
            let (m, prev) = &all[all.len() - 3];
            for (k, name) in OPS.iter().enumerate() {
                let (Some(now), Some(prev)) = (w[k], prev[k]) else { continue };
                // eightfold, or sixty-fourfold, with room for the doubling of buffers
                let limit = if flat { 14.0 } else { 96.0 };
                let r = now[4] as f64 / (prev[4] as f64 + 2_000.0);
                worst = worst.max(r / limit);
                if r > limit {
                    return Seen {
                        o: O::Viol(format!(
                            "{name}: {m} repetitions need {} bytes of memory at once, {n} need {}: faster than {} growth",
                            prev[4], now[4], if flat { "linear" } else { "quadratic" }
                        )),
                        state: 1,
                    };
                }
            }
        }
        all.push((n, w));
        n *= 2;
    }
    if stay > 1_024 {
        return Seen { o: O::Viol(format!("{stay} bytes are kept after up to {max} repetitions were processed and everything was dropped")), state: 1 };
    }
    for n in [5, 64] {
        let t = text(n);
        measure(&t);
        let k = kept(|| measure(&t));
        if k != 0 {
            return Seen { o: O::Viol(format!("{k} bytes are kept after {n} repetitions were processed again and everything was dropped")), state: 1 };
        }
    }
    if std::env::var_os("MC_RATIOS").is_some() {
        eprintln!("{worst:.3?} {script:?}");
    }
    Seen { o: O::Held(true), state: mix(11, (worst * 16.0) as u64) }
}

/// templates with a part that is new every time
pub fn distinct() -> Vec<String> {
    let mut v = vec![];
    for t in [
        "X", "\\X", "\\X{X}", "{X}", "X\n\nX", "$X$", "\\(X\\)", "\\begin{X}X\\end{X}", "\\begin{X}\\end{x}", "\\end{X}", "%X\nX", "\\documentclass[X=X,X]{X}",
        "\\documentclass{X}\n\\begin{document}X\\end{document}X", "\\c[X]{X}(X)", "\\X}", "{X", "$X", "\\begin{X}", "$X{", "\\c{X", "\\(X\\]", "\\begin{X}$\\end{X}",
        "\\begin{X}[X]\\X{\\begin{X}\n\\end{X}}\\end{X}", "\\documentclass{X}\\documentclass{X}", "\\begin{X}\\end{X}{X}",
    ] {
        v.push(format!("D:{t}"));
    }
    v
}
