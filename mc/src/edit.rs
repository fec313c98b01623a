//! Editing: documents put together again chunk by chunk, and hand-built documents saved and read back.

use crate::api::{build_doc3, shape};
use crate::build::*;
use crate::ext::*;
use crate::run::Seen;
use crate::spec::*;
use crate::textprops::{guard, Case, O};
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, InternalError};
use std::str::FromStr;

fn verdict(r: Result<Result<bool, String>, String>) -> O {
    match r {
        Err(p) => O::Viol(format!("panics: {p}")),
        Ok(Err(e)) => O::Viol(e),
        Ok(Ok(x)) => O::Held(x),
    }
}

/* ---------- C29 ---------- */

/// where a list is cut before the rest is pushed
fn cuts(n: usize) -> Vec<usize> {
    let mut v = if n > 64 { vec![0, n - 1] } else { vec![0, 1, n / 2, n.saturating_sub(1)] };
    v.retain(|k| *k == 0 || *k < n);
    v.sort_unstable();
    v.dedup();
    v
}

macro_rules! rebuild {
    ($name:ident, $m:ident, $n:expr) => {
        fn $name(l: &[$m::Chunk]) -> Result<(), String> {
            let valid = $m::Document::new_unchecked(l.to_vec()).validate().is_ok();
            for k in cuts(l.len()) {
                for mode in 0..4 {
                    if mode < 2 && !valid {
                        continue;
                    }
                    let mut d = $m::Document::new_unchecked(l[..k].to_vec());
                    for (i, c) in l.iter().enumerate().skip(k) {
                        let r: Result<(), InternalError> = match mode {
                            0 => d.push(c.variant().clone()),
                            1 => d.push_chunk(c.clone()),
                            2 => Ok(d.push_unchecked(c.variant().clone())),
                            _ => Ok(d.push_chunk_unchecked(c.clone())),
                        };
                        if let Err(e) = r {
                            return Err(format!("stage {}: pushing chunk {i} of {l:?} fails with {e:?}", $n));
                        }
                    }
                    if d.chunks()[..] != l[..] {
                        return Err(format!("stage {}: {l:?} put together again is {d:?}", $n));
                    }
                }
            }
            Ok(())
        }
    };
}
rebuild!(rebuild1, ast1, 1);
rebuild!(rebuild2, ast2, 2);

fn rebuild3(l: &[ast3::Chunk], sections: &[usize]) -> Result<(), String> {
    let empty = || ast3::Document::new_unchecked(vec![], None, vec![], vec![], vec![], String::new(), String::new(), vec![]);
    let with = |k: usize, part: &[ast3::Chunk]| {
        let mut parts = [vec![], vec![], vec![]];
        parts[k] = part.to_vec();
        let [a, b, c] = parts;
        ast3::Document::new_unchecked(a, None, vec![], b, vec![], String::new(), String::new(), c)
    };
    let valid = with(0, l).validate().is_ok();
    for s in sections {
        for k in cuts(l.len()) {
            for mode in 0..4 {
                if mode < 2 && !valid {
                    continue;
                }
                let mut d = if k == 0 && mode > 0 { empty() } else { with(*s, &l[..k]) };
                for (i, c) in l.iter().enumerate().skip(k) {
                    let r: Result<(), InternalError> = match (mode, s) {
                        (0, 0) => d.push_preamable(c.variant().clone()),
                        (0, 1) => d.push_body(c.variant().clone()),
                        (0, _) => d.push_trailing(c.variant().clone()),
                        (1, 0) => d.push_preamable_chunk(c.clone()),
                        (1, 1) => d.push_body_chunk(c.clone()),
                        (1, _) => d.push_trailing_chunk(c.clone()),
                        (2, 0) => Ok(d.push_preamable_unchecked(c.variant().clone())),
                        (2, 1) => Ok(d.push_body_unchecked(c.variant().clone())),
                        (2, _) => Ok(d.push_trailing_unchecked(c.variant().clone())),
                        (_, 0) => Ok(d.push_preamable_chunk_unchecked(c.clone())),
                        (_, 1) => Ok(d.push_body_chunk_unchecked(c.clone())),
                        (_, _) => Ok(d.push_trailing_chunk_unchecked(c.clone())),
                    };
                    if let Err(e) = r {
                        return Err(format!("stage 3: pushing chunk {i} of {l:?} to section {s} fails with {e:?}"));
                    }
                }
                if d != with(*s, l) {
                    return Err(format!("stage 3: {l:?} put together again in section {s} is {d:?}"));
                }
            }
        }
    }
    Ok(())
}

macro_rules! lists {
    ($name:ident, $args:ident, $m:ident, |$l:ident| $one:expr, |$v:ident| $env:expr) => {
        /// every list of chunks below these
        fn $name(cs: &[$m::Chunk]) -> Result<(), String> {
            for c in cs {
                let list = |$l: &[$m::Chunk]| -> Result<(), String> {
                    $one?;
                    $name($l)
                };
                let args = |a: &[(String, $m::Scope)]| a.iter().try_for_each(|x| list(x.1.chunks()));
                match c.variant() {
                    $m::ChunkVariant::Text(_) => {}
                    $m::ChunkVariant::Command(k) => args(k.arguments())?,
                    $m::ChunkVariant::Scope(s) => list(s.chunks())?,
                    #[allow(unreachable_patterns)]
                    $v => {
                        if let Some((a, content)) = $env {
                            args(&a)?;
                            list(&content)?
                        }
                    }
                }
            }
            Ok(())
        }
    };
}
lists!(lists1, a1, ast1, |l| rebuild1(l), |_v| None::<(Vec<(String, ast1::Scope)>, Vec<ast1::Chunk>)>);
lists!(lists2, a2, ast2, |l| rebuild2(l), |v| match v {
    ast2::ChunkVariant::Environment(e) => {
        let (_, a, c, _, _) = e.clone().decompose();
        Some((a, c))
    }
    _ => None,
});
lists!(lists3, a3, ast3, |l| rebuild3(l, &[0]), |v| match v {
    ast3::ChunkVariant::Environment(e) => {
        let (_, a, c, _, _) = e.clone().decompose();
        Some((a, c))
    }
    _ => None,
});

pub fn c29(c: &Case) -> O {
    verdict(guard(|| {
        let mut some = false;
        if let Ok(Ok(d)) = c.r1() {
            some |= d.chunks().len() > 1;
            rebuild1(d.chunks())?;
            lists1(d.chunks())?;
        }
        if let Ok(Ok(d)) = c.r2() {
            some |= d.chunks().len() > 1;
            rebuild2(d.chunks())?;
            lists2(d.chunks())?;
        }
        if let (Ok(Ok(d)), Ok(w)) = (c.r3(), c.sp3()) {
            for l in [d.chunks_preamable(), d.chunks_body(), d.chunks_trailing()] {
                some |= l.len() > 1;
                rebuild3(l, &[0, 1, 2])?;
                lists3(l)?;
            }
            // the whole of it, from a document without content
            let (class, opts, pre, body, args, bb, be, trailing) = d.clone().decompose();
            for mode in 0..2 {
                let mut e = if w.has_body {
                    let p = (class.clone(), opts.clone(), args.clone(), bb.clone(), be.clone());
                    ast3::Document::new_unchecked(vec![], p.0, p.1, vec![], p.2, p.3, p.4, vec![])
                } else {
                    match ast3::Document::from_str("") {
                        Ok(e) => e,
                        Err(e) => return Err(format!("the empty text is rejected: {e:?}")),
                    }
                };
                for (k, l) in [(2, &trailing), (0, &pre), (1, &body)] {
                    for c in l {
                        match (mode, k) {
                            (0, 0) => e.push_preamable_unchecked(c.variant().clone()),
                            (0, 1) => e.push_body_unchecked(c.variant().clone()),
                            (0, _) => e.push_trailing_unchecked(c.variant().clone()),
                            (_, 0) => e.push_preamable_chunk_unchecked(c.clone()),
                            (_, 1) => e.push_body_chunk_unchecked(c.clone()),
                            (_, _) => e.push_trailing_chunk_unchecked(c.clone()),
                        }
                    }
                }
                if (w.has_body || (class.is_none() && opts.is_empty())) && &e != d {
                    return Err(format!("stage 3: {d:?} put together again is {e:?}"));
                }
                let (p, q) = (d.to_string(), e.to_string());
                if p != q || d.lines() != e.lines() {
                    return Err(format!("stage 3: put together again, {p:?} prints {q:?}"));
                }
                if ast2::Document::from(d.clone()) != ast2::Document::from(e) {
                    return Err(format!("stage 3: put together again, {d:?} converts to another stage-2 tree"));
                }
            }
        }
        Ok(some)
    }))
}

/* ---------- C30 ---------- */

pub fn c30(script: &str) -> Seen {
    let b = read(script);
    let state = shape(&b);
    if !b.lines_ok {
        return Seen { o: O::Held(false), state };
    }
    let o = verdict(guard(|| {
        let mut some = false;
        let t = &b.parts[0];
        let all: Vec<C> = b.parts.iter().flatten().cloned().collect();
        let min = stage_of(&all);
        let alone = b.parts[1].is_empty() && b.parts[2].is_empty();
        let ok = |stage: u32| {
            let mut f = vec![];
            b.parts.iter().for_each(|p| section_faults(p, stage, &mut f));
            args_faults_pub(&b.around.args, stage, &mut f);
            f.is_empty()
        };
        macro_rules! stage {
            ($n:expr, $m:ident, $b:ident, $chunks:ident, $sp:ident) => {
                if alone && min <= $n && ok($n) {
                    let d = $m::Document::new_unchecked($b(t));
                    let text = print(t);
                    let case = Case::new(&text);
                    let same = matches!(case.$sp(), Ok(w) if cmp(w, 1, &$chunks(d.chunks())) == Diff::Same);
                    if same && !case.comments() {
                        some = true;
                        let saved = d.to_string();
                        match $m::Document::from_str(&saved) {
                            Ok(r) if r == d => {}
                            r => return Err(format!("stage {}: {d:?} saved as {saved:?} is read back as {r:?}", $n)),
                        }
                        let mut e = $m::Document::new_unchecked(vec![]);
                        for c in d.chunks() {
                            if let Err(f) = e.push(c.variant().clone()) {
                                return Err(format!("stage {}: {c:?} of {d:?} cannot be pushed: {f:?}", $n));
                            }
                        }
                        if e != d {
                            return Err(format!("stage {}: {d:?} put together by pushes is {e:?}", $n));
                        }
                    }
                }
            };
        }
        stage!(1, ast1, b1, chunks1, sp1);
        stage!(2, ast2, b2, chunks2, sp2);
        if ok(3) {
            let d = build_doc3(&b.parts, &b.around);
            let text = d.to_string();
            let case = Case::new(&text);
            if let (Ok(w), false) = (case.sp3(), case.comments()) {
                let r = doc3(&d);
                if w.has_body && cmp3(w, &r) == Diff::Same && w.bb == r.bb && w.be == r.be {
                    some = true;
                    // its class and options are those its preamble has
                    let (_, _, p, y, a, x, z, t) = d.decompose();
                    let opts = w.opts.iter().map(|o| (o.prec.clone(), o.key.clone(), o.val.clone(), o.post.clone())).collect();
                    let d = match ast3::Document::new(p, w.class.clone(), opts, y, a, x, z, t) {
                        Ok(d) => d,
                        Err(f) => return Err(format!("stage 3: {r:?} is not accepted: {f:?}", r = case.s)),
                    };
                    match ast3::Document::from_str(&text) {
                        Ok(r) if r == d => {}
                        r => return Err(format!("stage 3: {d:?} saved as {text:?} is read back as {r:?}")),
                    }
                }
            }
            // without a document environment
            if alone {
                let text = print(t);
                let case = Case::new(&text);
                if let (Ok(w), false) = (case.sp3(), case.comments()) {
                    if !w.has_body && w.class.is_none() && w.opts.is_empty() && cmp(&w.pre, 1, &chunks3(&b3(t))) == Diff::Same {
                        some = true;
                        let mut e = match ast3::Document::from_str("") {
                            Ok(e) => e,
                            Err(e) => return Err(format!("the empty text is rejected: {e:?}")),
                        };
                        for c in t {
                            if let Err(f) = e.push_preamable(var3(&c.t)) {
                                return Err(format!("stage 3: {c:?} of {t:?} cannot be pushed: {f:?}"));
                            }
                        }
                        let saved = e.to_string();
                        match ast3::Document::from_str(&saved) {
                            Ok(r) if r == e && saved == text => {}
                            r => return Err(format!("stage 3: {e:?} saved as {saved:?} is read back as {r:?}")),
                        }
                    }
                }
            }
        }
        Ok(some)
    }));
    Seen { o, state }
}
