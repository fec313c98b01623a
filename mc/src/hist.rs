//! C33: histories that mix everything one can do with a document - push, print, count, validate, copy,
//! take apart, edit in place, convert, save and read again - against a reference that is plain data.

use crate::api::content;
use crate::build::*;
use crate::ext::*;
use crate::run::{mix, Seen};
use crate::spec::*;
use crate::textprops::{guard, Case, O};
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, InternalError};
use std::str::FromStr;

pub const STARTS: &[&str] = &[
    "",
    "x\n",
    "a\n\\k{\nb}[c]\n d",
    "\\begin{v}[\n]\nx\n\\end{v}y\n\\l",
    "$a\nb$\n\n\\[c\\]{\n}",
    "\\documentclass[a=b, c]{d}\n\n\\begin \n{document}[\ne]f\n\ng\\end\n{document}\nh",
    "\\documentclass{d}\n\\begin{document}$$\nx$$\\end{document}\n{y\n}\n\nz",
    "{[(\n)]\n}\\begin{w}\\begin{w}\n\\end{w}\n\\end{w}",
    "\\begin{document}\n\\end{document}",
    "\\(a\n{\\[b\n\\]}\\)\n\\k [\n\n]\n",
];

enum Doc {
    A(ast1::Document),
    B(ast2::Document),
    D(ast3::Document),
}

#[derive(Clone)]
struct Model {
    stage: u32,
    /// lines relative to what contains the chunk
    s: [Vec<C>; 3],
    class: Option<String>,
    opts: Vec<Opt>,
    args: Vec<(String, Sc)>,
    bb: String,
    be: String,
    bare: bool,
    cur: usize,
}

/* absolute to relative lines */

fn rel_sc(s: &Sc) -> Sc {
    Sc { v: s.v, line: 1, ch: rel(&s.ch, s.line) }
}

fn rel_args(a: &[(String, Sc)]) -> Vec<(String, Sc)> {
    a.iter().map(|(p, s)| (p.clone(), rel_sc(s))).collect()
}

fn rel(cs: &[C], base: u32) -> Vec<C> {
    cs.iter()
        .map(|c| C {
            line: c.line - base + 1,
            t: match &c.t {
                T::Text(_) | T::Par(_) | T::Opaque(_) => c.t.clone(),
                T::Cmd(k) => T::Cmd(Cmd { label: k.label.clone(), args: rel_args(&k.args) }),
                T::Scope(s) => T::Scope(rel_sc(s)),
                T::Env(e) => T::Env(Box::new(Env { args: rel_args(&e.args), content: rel(&e.content, e.cline), cline: 1, ..(**e).clone() })),
                T::Maths(m) => T::Maths(Maths { content: rel(&m.content, c.line), ..m.clone() }),
            },
        })
        .collect()
}

fn single(cs: &[C]) -> [Vec<C>; 3] {
    [cs.to_vec(), vec![], vec![]]
}

impl Model {
    fn flat(stage: u32, cs: Vec<C>) -> Self {
        Model { stage, s: single(&cs), class: None, opts: vec![], args: vec![], bb: String::new(), be: String::new(), bare: true, cur: 0 }
    }
    fn doc3(d: &Doc3) -> Self {
        Model {
            stage: 3,
            s: [rel(&d.pre, 1), rel(&d.body, d.body_base), rel(&d.trailing, d.trailing_base)],
            class: d.class.clone(),
            opts: d.opts.clone(),
            args: rel_args(&d.bargs),
            bb: d.bb.clone(),
            be: d.be.clone(),
            bare: !d.has_body,
            cur: 0,
        }
    }
    fn parse(text: &str, stage: u32) -> Result<Model, Errs> {
        let c = Case::new(text);
        match stage {
            1 => c.sp1().as_ref().map(|w| Model::flat(1, rel(w, 1))),
            2 => c.sp2().as_ref().map(|w| Model::flat(2, rel(w, 1))),
            _ => c.sp3().as_ref().map(Model::doc3),
        }
        .map_err(|e| e.clone())
    }
    fn print(&self) -> String {
        if self.bare {
            return print(&self.s[0]);
        }
        let env = C {
            line: 1,
            t: T::Env(Box::new(Env {
                label: "document".into(),
                args: self.args.clone(),
                content: self.s[1].clone(),
                pb: self.bb.clone(),
                pe: self.be.clone(),
                cline: 1,
            })),
        };
        format!("{}{}{}", print(&self.s[0]), print(&[env]), print(&self.s[2]))
    }
    fn faults(&self) -> Vec<InternalError> {
        let mut f = vec![];
        self.s.iter().for_each(|p| section_faults(p, self.stage, &mut f));
        args_faults_pub(&self.args, self.stage, &mut f);
        f
    }
    fn end(&self) -> u32 {
        self.s[self.cur].last().map_or(1, |c| c.line + nls(&print(std::slice::from_ref(c))))
    }
    fn push(&mut self, line: u32, t: T) {
        if self.cur > 0 {
            self.bare = false
        }
        let l = &mut self.s[self.cur];
        if let T::Text(s) = &t {
            if let Some(C { t: T::Text(last), .. }) = l.last_mut() {
                last.push_str(s);
                return;
            }
        }
        l.push(C { line, t })
    }
    /// why a checked push must fail
    fn against(&self, t: &T) -> Vec<InternalError> {
        let mut f = vec![];
        faults_t(t, self.stage, &mut f);
        if let (3, T::Text(s), Some(C { t: T::Text(last), .. })) = (self.stage, t, self.s[self.cur].last()) {
            if last[last.trim_end().len()..].contains('\n') && s[..s.len() - s.trim_start().len()].contains('\n') {
                f.push(InternalError::UnbrokenParagraph)
            }
        }
        f
    }
    /// the same content by hand
    fn build(&self) -> Doc {
        match self.stage {
            1 => Doc::A(ast1::Document::new_unchecked(b1(&self.s[0]))),
            2 => Doc::B(ast2::Document::new_unchecked(b2(&self.s[0]))),
            _ => Doc::D(self.build3()),
        }
    }
    fn build3(&self) -> ast3::Document {
        ast3::Document::new_unchecked(
            b3(&self.s[0]),
            self.class.clone(),
            self.opts.iter().map(|o| (o.prec.clone(), o.key.clone(), o.val.clone(), o.post.clone())).collect(),
            b3(&self.s[1]),
            bargs3(&self.args),
            self.bb.clone(),
            self.be.clone(),
            b3(&self.s[2]),
        )
    }
    fn edit(&mut self, f: impl FnOnce(&mut Vec<C>)) {
        f(&mut self.s[self.cur]);
        self.bare = false
    }
    fn hash(&self) -> u64 {
        let mut h = self.stage as u64 * 4 + self.cur as u64 * 16 + self.bare as u64;
        for s in &self.s {
            h = mix(h, s.len() as u64);
            for c in s {
                let kind = match c.t {
                    T::Text(_) => 0,
                    T::Par(_) => 1,
                    T::Cmd(_) => 2,
                    T::Scope(_) => 3,
                    T::Env(_) => 4,
                    _ => 5,
                };
                h = mix(h, c.line.min(9) as u64 * 8 + kind);
            }
        }
        h
    }
}

/// read back by its own stage as it is
fn readable(m: &Model) -> bool {
    if !m.faults().is_empty() {
        return false;
    }
    let text = m.print();
    let c = Case::new(&text);
    if c.comments() {
        return false;
    }
    match m.stage {
        1 => matches!(c.sp1(), Ok(w) if cmp(w, 1, &m.s[0]) == Diff::Same),
        2 => matches!(c.sp2(), Ok(w) if cmp(w, 1, &m.s[0]) == Diff::Same),
        _ => match c.sp3() {
            Ok(w) => {
                let r = doc3(&m.build3());
                let w = Doc3 { class: r.class.clone(), opts: r.opts.clone(), ..w.clone() };
                w.has_body != m.bare && cmp3(&w, &r) == Diff::Same && (m.bare || (w.bb == r.bb && w.be == r.be))
            }
            _ => false,
        },
    }
}

macro_rules! each {
    ($d:expr, |$x:ident| $e:expr) => {
        match $d {
            Doc::A($x) => $e,
            Doc::B($x) => $e,
            Doc::D($x) => $e,
        }
    };
}

fn same(m: &Model, d: &Doc) -> Result<(), String> {
    let bad = |got: &dyn std::fmt::Debug| Err(format!("the document is {got:?}, expected {:?}", m.s));
    match d {
        Doc::A(d) if d.chunks()[..] == b1(&m.s[0])[..] => {}
        Doc::B(d) if d.chunks()[..] == b2(&m.s[0])[..] => {}
        Doc::D(d) => {
            let (class, opts, a, b, args, bb, be, c) = d.clone().decompose();
            let opts: Vec<Opt> = opts.into_iter().map(|(prec, key, val, post)| Opt { prec, key, val, post }).collect();
            let parts = [&a, &b, &c].iter().zip(&m.s).all(|(x, y)| x[..] == b3(y)[..]);
            if !parts || class != m.class || opts != m.opts || args != bargs3(&m.args) || bb != m.bb || be != m.be {
                return bad(&d);
            }
            if d.chunks_preamable() != &a || d.chunks_body() != &b || d.chunks_trailing() != &c {
                return Err(format!("the sections of {d:?} are not those it is taken apart to"));
            }
        }
        Doc::A(d) => return bad(&d),
        Doc::B(d) => return bad(&d),
    }
    match (m.bare && m.stage == 3, d, m.build()) {
        (false, Doc::A(d), Doc::A(w)) if d == &w && &w == d => {}
        (false, Doc::B(d), Doc::B(w)) if d == &w && &w == d => {}
        (false, Doc::D(d), Doc::D(w)) if d == &w && &w == d => {}
        (true, Doc::D(_), _) => {}
        (_, d, _) => return each!(d, |d| Err(format!("{d:?} does not equal the same document built by hand"))),
    }
    let text = m.print();
    let (p, n, v) = each!(d, |d| (d.to_string(), d.lines(), d.validate()));
    if p != text {
        return Err(format!("the document prints {p:?}, expected {text:?}"));
    }
    if n != nls(&text) + 1 {
        return Err(format!("{n} lines reported for {text:?}"));
    }
    let f = m.faults();
    match v {
        Ok(()) if f.is_empty() => {}
        Err(e) if f.contains(&e) => {}
        v => return Err(format!("validation of {p:?} gives {v:?}, the faults are {f:?}")),
    }
    let lines: Vec<(u32, u32)> = match d {
        Doc::A(d) => d.chunks().iter().map(|c| (c.line_no(), c.lines())).collect(),
        Doc::B(d) => d.chunks().iter().map(|c| (c.line_no(), c.lines())).collect(),
        Doc::D(d) => [d.chunks_preamable(), d.chunks_body(), d.chunks_trailing()].iter().flat_map(|s| s.iter().map(|c| (c.line_no(), c.lines()))).collect(),
    };
    let want: Vec<(u32, u32)> = m.s.iter().flatten().map(|c| (c.line, nls(&print(std::slice::from_ref(c))) + 1)).collect();
    if lines != want {
        return Err(format!("the chunks of {p:?} have lines and numbers of lines {lines:?}, expected {want:?}"));
    }
    Ok(())
}

fn query(d: &Doc) {
    each!(d, |d| {
        let _ = (d.to_string(), d.lines(), d.validate().is_ok(), d.clone() == *d);
    });
    match d {
        Doc::A(d) => d.chunks().iter().for_each(|c| drop((c.lines(), c.to_string(), c.validate().is_ok()))),
        Doc::B(d) => d.chunks().iter().for_each(|c| drop((c.lines(), c.to_string(), c.validate().is_ok()))),
        Doc::D(d) => d.chunks_preamable().iter().chain(d.chunks_body()).chain(d.chunks_trailing()).for_each(|c| drop((c.lines(), c.to_string(), c.validate().is_ok()))),
    }
}

fn push(d: &mut Doc, s: usize, t: &T, checked: bool, line: Option<u32>) -> Result<(), InternalError> {
    macro_rules! flat {
        ($d:expr, $m:ident, $var:ident) => {
            match (checked, line) {
                (true, None) => $d.push($var(t)),
                (true, Some(l)) => $d.push_chunk($m::Chunk::new_unchecked(l, $var(t))),
                (false, None) => Ok($d.push_unchecked($var(t))),
                (false, Some(l)) => Ok($d.push_chunk_unchecked($m::Chunk::new_unchecked(l, $var(t)))),
            }
        };
    }
    match d {
        Doc::A(d) => flat!(d, ast1, var1),
        Doc::B(d) => flat!(d, ast2, var2),
        Doc::D(d) => {
            let v = var3(t);
            let c = |v, l| ast3::Chunk::new_unchecked(l, v);
            match (checked, line, s) {
                (true, None, 0) => d.push_preamable(v),
                (true, None, 1) => d.push_body(v),
                (true, None, _) => d.push_trailing(v),
                (true, Some(l), 0) => d.push_preamable_chunk(c(v, l)),
                (true, Some(l), 1) => d.push_body_chunk(c(v, l)),
                (true, Some(l), _) => d.push_trailing_chunk(c(v, l)),
                (false, None, 0) => Ok(d.push_preamable_unchecked(v)),
                (false, None, 1) => Ok(d.push_body_unchecked(v)),
                (false, None, _) => Ok(d.push_trailing_unchecked(v)),
                (false, Some(l), 0) => Ok(d.push_preamable_chunk_unchecked(c(v, l))),
                (false, Some(l), 1) => Ok(d.push_body_chunk_unchecked(c(v, l))),
                (false, Some(l), _) => Ok(d.push_trailing_chunk_unchecked(c(v, l))),
            }
        }
    }
}

/// the document taken apart, its sections changed, put together again without checks
fn edited(d: Doc, f: &mut dyn FnMut(&mut Any)) -> Doc {
    match d {
        Doc::A(d) => {
            let mut a = Any::A(d.chunks_owned());
            f(&mut a);
            let Any::A(c) = a else { unreachable!() };
            Doc::A(ast1::Document::new_unchecked(c))
        }
        Doc::B(d) => {
            let mut a = Any::B(d.chunks_owned());
            f(&mut a);
            let Any::B(c) = a else { unreachable!() };
            Doc::B(ast2::Document::new_unchecked(c))
        }
        Doc::D(d) => {
            let (class, opts, p, b, args, bb, be, t) = d.decompose();
            let mut a = Any::D([p, b, t]);
            f(&mut a);
            let Any::D([p, b, t]) = a else { unreachable!() };
            Doc::D(ast3::Document::new_unchecked(p, class, opts, b, args, bb, be, t))
        }
    }
}

enum Any {
    A(Vec<ast1::Chunk>),
    B(Vec<ast2::Chunk>),
    D([Vec<ast3::Chunk>; 3]),
}

macro_rules! with {
    ($a:expr, $cur:expr, |$l:ident, $m:ident, $var:ident| $e:expr) => {
        match $a {
            Any::A($l) => {
                use api1::*;
                $e
            }
            Any::B($l) => {
                use api2::*;
                $e
            }
            Any::D(s) => {
                use api3::*;
                let $l = &mut s[$cur];
                $e
            }
        }
    };
}
mod api1 {
    pub use crate::build::var1 as var;
    pub use latex_ast::ast1 as m;
}
mod api2 {
    pub use crate::build::var2 as var;
    pub use latex_ast::ast2 as m;
}
mod api3 {
    pub use crate::build::var3 as var;
    pub use latex_ast::ast3 as m;
}

fn step(m: &mut Model, d: Doc, op: char) -> Result<Option<Doc>, String> {
    let mut d = d;
    let text = |s: &str| T::Text(s.to_string());
    let cur = m.cur;
    let fits = |t: &T| stage_of(&[C { line: 1, t: t.clone() }]) <= m.stage;
    match op {
        '<' | '=' | '>' => {
            if m.stage < 3 {
                return Ok(None);
            }
            m.cur = match op {
                '<' => 0,
                '=' => 1,
                _ => 2,
            };
        }
        'a' | 'n' | 'k' | 'm' | 'o' | 'v' | 'M' | 'p' | '$' | 'w' | 'h' | 'g' | 'X' | 'Y' => {
            // h: a chunk with its line, g: with a wrong one
            let t = content(if matches!(op, 'h' | 'g') { 'm' } else { op }).unwrap();
            if !fits(&t) {
                return Ok(None);
            }
            let line = match op {
                'h' => Some(m.end()),
                'g' => Some(m.end() + 1),
                _ => None,
            };
            let mut f = m.against(&t);
            if op == 'g' {
                f.push(InternalError::IncorrectChunkLineNumber { expected: m.end(), got: m.end() + 1 })
            }
            match push(&mut d, cur, &t, true, line) {
                Ok(()) if f.is_empty() => m.push(m.end(), t),
                Err(e) if f.contains(&e) => {}
                r => return Err(format!("the push of {t:?} gives {r:?}, expected {f:?}")),
            }
        }
        'A' | 'K' | 'W' => {
            let (t, line) = match op {
                'A' => (text("a\n"), None),
                'K' => (content('m').unwrap(), None),
                _ => (content('o').unwrap(), Some(m.end() + 2)),
            };
            push(&mut d, cur, &t, false, line).unwrap();
            m.push(line.unwrap_or(m.end()), t)
        }
        'q' => query(&d),
        'c' => {
            let copy = match &d {
                Doc::A(d) => Doc::A(d.clone()),
                Doc::B(d) => Doc::B(d.clone()),
                Doc::D(d) => Doc::D(d.clone()),
            };
            push(&mut d, 0, &text("Z\n"), false, None).unwrap();
            push(&mut d, 1, &content('m').unwrap(), false, None).unwrap();
            query(&d);
            d = copy
        }
        'r' => {
            let f = m.faults();
            let (ok, n) = match d {
                Doc::A(x) => {
                    let l = x.chunks_owned();
                    (ast1::Document::new(l.clone()).map(Doc::A), Doc::A(ast1::Document::new_unchecked(l)))
                }
                Doc::B(x) => {
                    let l = x.chunks_owned();
                    (ast2::Document::new(l.clone()).map(Doc::B), Doc::B(ast2::Document::new_unchecked(l)))
                }
                Doc::D(x) => {
                    let (a, b, c, d, e, f, g, h) = x.clone().decompose();
                    let (p, q, r, s, t, u, v, w) = x.decompose();
                    (ast3::Document::new(c, a, b, d, e, f, g, h).map(Doc::D), Doc::D(ast3::Document::new_unchecked(r, p, q, s, t, u, v, w)))
                }
            };
            d = match ok {
                Ok(x) if f.is_empty() => x,
                Err(e) if f.contains(&e) => n,
                Ok(_) => return Err(format!("a document with the faults {f:?} is accepted")),
                Err(e) => return Err(format!("a document with the faults {f:?} is rejected with {e:?}")),
            };
            m.bare = m.stage < 3
        }
        'e' | 'f' => {
            // the last or the first chunk changed in place
            d = edited(d, &mut |a| {
                with!(a, cur, |l, m, var| {
                    let c = if op == 'e' { l.last_mut() } else { l.first_mut() };
                    if let Some(c) = c {
                        match c.variant_mut() {
                            m::ChunkVariant::Text(s) => s.push_str("e\n"),
                            v => *v = var(&if op == 'e' { T::Text("E\n".into()) } else { content('o').unwrap() }),
                        }
                    }
                })
            });
            let other = if op == 'e' { text("E\n") } else { content('o').unwrap() };
            m.edit(|l| {
                let c = if op == 'e' { l.last_mut() } else { l.first_mut() };
                if let Some(c) = c {
                    match &mut c.t {
                        T::Text(s) => s.push_str("e\n"),
                        t => *t = other,
                    }
                }
            });
            m.bare = m.stage < 3
        }
        't' => {
            d = edited(d, &mut |a| with!(a, cur, |l, m, var| drop(l.pop())));
            m.edit(|l| drop(l.pop()));
            m.bare = m.stage < 3
        }
        's' => {
            d = edited(d, &mut |a| match a {
                Any::A(l) => l.reverse(),
                Any::B(l) => l.reverse(),
                Any::D(l) => l.swap(0, 2),
            });
            if m.stage == 3 {
                m.s.swap(0, 2)
            } else {
                m.s[0].reverse()
            }
            m.bare = m.stage < 3
        }
        'd' => {
            if m.stage == 1 || !readable(m) {
                return Ok(None);
            }
            let want = Model::parse(&m.print(), m.stage - 1).map_err(|e| format!("reference: {e:?}"))?;
            d = match d {
                Doc::D(d) => Doc::B(d.into()),
                Doc::B(d) => Doc::A(d.into()),
                d => d,
            };
            *m = want
        }
        'u' => {
            if m.stage == 3 || !m.faults().is_empty() || !canonical(&m.s[0]) {
                return Ok(None);
            }
            let abs = absolute(&m.s[0]);
            let want = match m.stage {
                1 => spec2(&abs).map(|w| Model::flat(2, rel(&w, 1))),
                _ => spec3(&abs).map(|w| Model::doc3(&w)),
            };
            let got = match &d {
                Doc::A(d) => ast2::Document::try_from(d.clone()).map(Doc::B),
                Doc::B(d) => ast3::Document::try_from(d.clone()).map(Doc::D),
                _ => unreachable!(),
            };
            settle(m, &mut d, want, got, "converted up")?
        }
        'z' => {
            let p = each!(&d, |d| d.to_string());
            if p != m.print() {
                return Err(format!("the document prints {p:?}, expected {:?}", m.print()));
            }
            let want = Model::parse(&p, m.stage);
            let got = match m.stage {
                1 => ast1::Document::from_str(&p).map(Doc::A),
                2 => ast2::Document::from_str(&p).map(Doc::B),
                _ => ast3::Document::from_str(&p).map(Doc::D),
            };
            settle(m, &mut d, want, got, "read again")?
        }
        _ => return Ok(None),
    }
    Ok(Some(d))
}

fn settle(m: &mut Model, d: &mut Doc, want: Result<Model, Errs>, got: Result<Doc, latex_ast::Error>, what: &str) -> Result<(), String> {
    match (want, got) {
        (Ok(w), Ok(g)) => {
            *m = w;
            *d = g;
            Ok(())
        }
        (Err(f), Err(e)) => {
            let x = err(&e);
            if f.contains(&x) {
                Ok(())
            } else {
                Err(format!("{what}, {:?} fails with {e:?}, the faults are {f:?}", m.print()))
            }
        }
        (Ok(_), Err(e)) => Err(format!("{what}, {:?} fails with {e:?}", m.print())),
        (Err(f), Ok(_)) => Err(format!("{what}, {:?} is accepted with the faults {f:?}", m.print())),
    }
}

/// stage, start, operations
pub fn c33(script: &str) -> Seen {
    let none = Seen { o: O::Held(false), state: 0 };
    let mut cs = script.chars();
    let (Some(stage), Some(start)) = (cs.next().and_then(|c| c.to_digit(10)), cs.next().and_then(|c| c.to_digit(36))) else { return none };
    let Some(text) = STARTS.get(start as usize) else { return none };
    if !(1..=3).contains(&stage) {
        return none;
    }
    let mut state = 0;
    let r = guard(|| -> Result<bool, String> {
        let Ok(mut m) = Model::parse(text, stage) else { return Ok(false) };
        let mut d = match stage {
            1 => ast1::Document::from_str(text).map(Doc::A),
            2 => ast2::Document::from_str(text).map(Doc::B),
            _ => ast3::Document::from_str(text).map(Doc::D),
        }
        .map_err(|e| format!("{text:?} is rejected: {e:?}"))?;
        let ops = cs.as_str();
        for op in ops.chars() {
            match step(&mut m, d, op)? {
                Some(x) => d = x,
                None => return Ok(false),
            }
        }
        state = m.hash();
        same(&m, &d)?;
        Ok(!ops.is_empty())
    });
    let o = match r {
        Err(p) => O::Viol(format!("panics: {p}")),
        Ok(Err(e)) => O::Viol(e),
        Ok(Ok(x)) => O::Held(x),
    };
    Seen { o, state }
}
