//! The properties of a single input text, as oracles over one execution of the implementation.

use crate::ext::*;
use crate::spec::*;
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, Error, InternalError};
use std::cell::OnceCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

/// Verdict on one execution.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum O {
    /// the property holds; `true` if its antecedent was met (not vacuous)
    Held(bool),
    /// the execution shows exactly a listed deviation
    Known(&'static str),
    Viol(String),
}

pub fn guard<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

type R<D> = Result<Result<D, Error>, String>;

/// One text with everything computed about it, lazily.
pub struct Case<'a> {
    pub s: &'a str,
    strip: OnceCell<(String, bool)>,
    sp1: OnceCell<Result<Vec<C>, Errs>>,
    sp2: OnceCell<Result<Vec<C>, Errs>>,
    sp3: OnceCell<Result<Doc3, Errs>>,
    r1: OnceCell<R<ast1::Document>>,
    r2: OnceCell<R<ast2::Document>>,
    r3: OnceCell<R<ast3::Document>>,
}

impl<'a> Case<'a> {
    pub fn new(s: &'a str) -> Self {
        Case {
            s,
            strip: OnceCell::new(),
            sp1: OnceCell::new(),
            sp2: OnceCell::new(),
            sp3: OnceCell::new(),
            r1: OnceCell::new(),
            r2: OnceCell::new(),
            r3: OnceCell::new(),
        }
    }
    pub fn stripped(&self) -> &str {
        &self.strip.get_or_init(|| strip(self.s)).0
    }
    pub fn comments(&self) -> bool {
        self.strip.get_or_init(|| strip(self.s)).1
    }
    pub fn sp1(&self) -> &Result<Vec<C>, Errs> {
        self.sp1.get_or_init(|| spec1(self.stripped()))
    }
    pub fn sp2(&self) -> &Result<Vec<C>, Errs> {
        self.sp2.get_or_init(|| match self.sp1() {
            Ok(t) => spec2(t),
            Err(e) => Err(e.clone()),
        })
    }
    pub fn sp3(&self) -> &Result<Doc3, Errs> {
        self.sp3.get_or_init(|| match self.sp2() {
            Ok(t) => spec3(t),
            Err(e) => Err(e.clone()),
        })
    }
    pub fn r1(&self) -> &R<ast1::Document> {
        self.r1.get_or_init(|| guard(|| ast1::Document::from_str(self.s)))
    }
    pub fn r2(&self) -> &R<ast2::Document> {
        self.r2.get_or_init(|| guard(|| ast2::Document::from_str(self.s)))
    }
    pub fn r3(&self) -> &R<ast3::Document> {
        self.r3.get_or_init(|| guard(|| ast3::Document::from_str(self.s)))
    }
}

/// canonical form of a reference tree: its shape, without what its texts say
pub fn skeleton(cs: &[C]) -> u64 {
    use crate::run::mix;
    let args = |a: &[(String, Sc)]| a.iter().fold(7u64, |h, (p, s)| mix(h, mix(s.v as u64 + p.contains('\n') as u64, skeleton(&s.ch))));
    cs.iter().fold(cs.len() as u64, |h, c| {
        mix(
            h,
            match &c.t {
                T::Text(s) => 11 + s.contains('\n') as u64,
                T::Par(_) => 13,
                T::Cmd(k) => mix(14 + k.label.chars().next().is_some_and(|c| c.is_ascii_alphabetic()) as u64, args(&k.args)),
                T::Scope(s) => mix(s.v as u64, skeleton(&s.ch)),
                T::Env(e) => mix(mix(17 + e.label.len().min(9) as u64, args(&e.args)), skeleton(&e.content)),
                T::Maths(m) => mix(30 + m.brackets as u64 * 2 + m.display as u64, skeleton(&m.content)),
                T::Opaque(_) => 40,
            },
        )
    })
}

fn kinds(e: &Errs) -> u64 {
    use crate::run::mix;
    e.iter().fold(99, |h, (l, e)| {
        mix(
            mix(h, (*l).min(4) as u64),
            match e {
                E::UnexpectedClosing(c) => 100 + *c as u64,
                E::UnclosedArgument(c) => 300 + *c as u64,
                E::UnclosedScope(c) => 500 + *c as u64,
                E::NoLabel => 1,
                E::UnexpectedEnd(_) => 2,
                E::TooManyEnd => 3,
                E::UnclosedEnv(_) => 4,
                E::MathsEnd => 5,
                E::UnclosedMaths => 6,
                E::TooManyDC => 7,
                E::DoubleDC => 8,
                E::Other(_) => 9,
            },
        )
    })
}

/// The abstract state a text leads the reference model to: per stage the shape of the tree or the
/// faults, and whether comments were met.
pub fn state(c: &Case) -> u64 {
    use crate::run::mix;
    let a = match c.sp1() {
        Ok(t) => skeleton(t),
        Err(e) => kinds(e),
    };
    let b = match c.sp2() {
        Ok(t) => skeleton(t),
        Err(e) => kinds(e),
    };
    let d = match c.sp3() {
        Ok(d) => {
            mix(mix(mix(skeleton(&d.pre), skeleton(&d.body)), mix(skeleton(&d.trailing), d.opts.len() as u64)), d.has_body as u64)
        }
        Err(e) => kinds(e),
    };
    mix(mix(a, b), mix(d, c.comments() as u64))
}

macro_rules! viol {
    ($($a:tt)*) => { return O::Viol(format!($($a)*)) };
}

/// The document a stage made of the text, or the verdict if there is none: a well-formed text must
/// give one, a malformed one need not.
macro_rules! doc {
    ($stage:expr, $spec:expr, $real:expr) => {
        match ($spec.is_ok(), $real) {
            (_, Ok(Ok(d))) => d,
            (true, Ok(Err(e))) => viol!("stage {} rejects a well-formed text with {:?}", $stage, e),
            (true, Err(p)) => viol!("stage {} panics on a well-formed text: {}", $stage, p),
            (false, _) => return O::Held(false),
        }
    };
}

/* ---------- C01 - C03, C22 ---------- */

fn lossless(c: &Case, printed: Result<String, String>, stage: u32) -> O {
    match printed {
        Err(p) => O::Viol(format!("printing the stage-{stage} tree panics: {p}")),
        Ok(p) if p == c.s => O::Held(true),
        Ok(p) if c.comments() && p == c.stripped() => O::Known("F1"),
        Ok(p) => O::Viol(format!("stage {stage} prints {p:?}")),
    }
}

pub fn c01(c: &Case) -> O {
    let d = doc!(1, c.sp1(), c.r1());
    lossless(c, guard(|| d.to_string()), 1)
}

pub fn c02(c: &Case) -> O {
    let d = doc!(2, c.sp2(), c.r2());
    lossless(c, guard(|| d.to_string()), 2)
}

pub fn c03(c: &Case) -> O {
    let d = doc!(3, c.sp3(), c.r3());
    lossless(c, guard(|| d.to_string()), 3)
}

pub fn c22(c: &Case) -> O {
    let mut some = false;
    macro_rules! stage {
        ($k:expr, $spec:expr, $real:expr, $m:ident) => {
            match $real {
                Ok(Ok(d)) => {
                    some = true;
                    match guard(|| {
                        let p = d.to_string();
                        let again = $m::Document::from_str(&p);
                        (p, again)
                    }) {
                        Err(p) => viol!("stage {}: printing or parsing the print panics: {}", $k, p),
                        Ok((p, Err(e))) => viol!("stage {} rejects its own print {:?}: {:?}", $k, p, e),
                        Ok((p, Ok(again))) => {
                            if &again != d {
                                viol!("stage {}: print {:?} parses to a different tree {:?}", $k, p, again)
                            }
                        }
                    }
                }
                Err(p) if $spec.is_ok() => viol!("stage {} panics on a well-formed text: {}", $k, p),
                _ => {}
            }
        };
    }
    stage!(1, c.sp1(), c.r1(), ast1);
    stage!(2, c.sp2(), c.r2(), ast2);
    stage!(3, c.sp3(), c.r3(), ast3);
    O::Held(some)
}

/* ---------- C04 ---------- */

pub fn c04(c: &Case) -> O {
    let mut some = false;
    match c.r2() {
        Ok(Ok(d2)) => match c.r1() {
            Ok(Ok(d1)) => {
                some = true;
                match guard(|| ast1::Document::from(d2.clone())) {
                    Err(p) => viol!("converting stage 2 to stage 1 panics: {}", p),
                    Ok(x) if &x != d1 => viol!("stage 2 converts to {:?}, stage 1 parses {:?}", x, d1),
                    _ => {}
                }
            }
            _ => viol!("stage 2 accepts what stage 1 does not"),
        },
        Err(p) if c.sp2().is_ok() => viol!("stage 2 panics on a well-formed text: {}", p),
        _ => {}
    }
    match c.r3() {
        Ok(Ok(d3)) => match c.r2() {
            Ok(Ok(d2)) => {
                some = true;
                match guard(|| ast2::Document::from(d3.clone())) {
                    Err(p) => viol!("converting stage 3 to stage 2 panics: {}", p),
                    Ok(x) if &x != d2 => viol!("stage 3 converts to {:?}, stage 2 parses {:?}", x, d2),
                    _ => {}
                }
            }
            _ => viol!("stage 3 accepts what stage 2 does not"),
        },
        Err(p) if c.sp3().is_ok() => viol!("stage 3 panics on a well-formed text: {}", p),
        _ => {}
    }
    O::Held(some)
}

/* ---------- C05 - C09: structure ---------- */

pub fn c05(c: &Case) -> O {
    let Ok(want) = c.sp1() else { return O::Held(false) };
    let d = doc!(1, c.sp1(), c.r1());
    if cmp(want, 1, &chunks1(d.chunks())) == Diff::Shape {
        viol!("stage-1 tree {:?}", d)
    }
    O::Held(want.len() > 1)
}

pub fn c06(c: &Case) -> O {
    let Ok(want) = c.sp2() else { return O::Held(false) };
    let d = doc!(2, c.sp2(), c.r2());
    if cmp(want, 1, &chunks2(d.chunks())) == Diff::Shape {
        viol!("stage-2 tree {:?}", d)
    }
    O::Held(any_node(want, &mut |c| matches!(c.t, T::Env(_))))
}

/// the tree with neighbouring text and paragraph breaks joined into one text chunk
fn joined(cs: &[C]) -> Vec<C> {
    let sc = |s: &Sc| Sc { v: s.v, line: s.line, ch: joined(&s.ch) };
    let args = |a: &[(String, Sc)]| a.iter().map(|(p, s)| (p.clone(), sc(s))).collect::<Vec<_>>();
    let mut out: Vec<C> = Vec::new();
    for c in cs {
        let t = match &c.t {
            T::Text(s) | T::Par(s) => {
                if let Some(C { t: T::Text(last), .. }) = out.last_mut() {
                    last.push_str(s);
                    continue;
                }
                T::Text(s.clone())
            }
            T::Cmd(k) => T::Cmd(Cmd { label: k.label.clone(), args: args(&k.args) }),
            T::Scope(s) => T::Scope(sc(s)),
            T::Env(e) => T::Env(Box::new(Env {
                label: e.label.clone(),
                args: args(&e.args),
                content: joined(&e.content),
                pb: e.pb.clone(),
                pe: e.pe.clone(),
                cline: e.cline,
            })),
            x => x.clone(),
        };
        out.push(C { line: c.line, t });
    }
    out
}

/// `None` if the stage-3 skeletons agree, else what differs
fn skeleton_differs(want: &Doc3, real: &Real3) -> bool {
    let sec = |a: &[C], b: &[C]| cmp(&joined(a), 1, &joined(b)) == Diff::Shape;
    cmp3(want, real) == Diff::Shape
        && (sec(&want.pre, &real.pre) || sec(&want.body, &real.body) || sec(&want.trailing, &real.trailing))
}

pub fn c07(c: &Case) -> O {
    let Ok(want) = c.sp3() else { return O::Held(false) };
    let d = doc!(3, c.sp3(), c.r3());
    let real = match guard(|| doc3(d)) {
        Ok(x) => x,
        Err(p) => viol!("{}", p),
    };
    if skeleton_differs(want, &real) {
        viol!("stage-3 tree {:?}", d)
    }
    O::Held([&want.pre, &want.body, &want.trailing]
        .iter()
        .any(|s| any_node(s, &mut |c| matches!(c.t, T::Maths(_)))))
}

pub fn c08(c: &Case) -> O {
    let Ok(want) = c.sp3() else { return O::Held(false) };
    let d = doc!(3, c.sp3(), c.r3());
    let real = doc3(d);
    if cmp3(want, &real) == Diff::Shape {
        // what differs besides how text is divided is the business of C07 and C09, except that a
        // difference inside a maths block cannot be told apart
        let outside = [(&want.pre, &real.pre), (&want.body, &real.body), (&want.trailing, &real.trailing)]
            .iter()
            .any(|(a, b)| cmp(a, 1, b) == Diff::Shape);
        if outside || skeleton_differs(want, &real) {
            viol!("stage-3 tree {:?}", d)
        }
    }
    O::Held([&want.pre, &want.body, &want.trailing]
        .iter()
        .any(|s| any_node(s, &mut |c| matches!(c.t, T::Par(_)))))
}

pub fn c09(c: &Case) -> O {
    let Ok(want) = c.sp3() else { return O::Held(false) };
    let d = doc!(3, c.sp3(), c.r3());
    let r = doc3(d);
    if want.class != r.class {
        viol!("document class {:?}, expected {:?}", r.class, want.class)
    }
    let ok = want.opts.len() == r.opts.len()
        && want.opts.iter().zip(&r.opts).all(|(w, o)| {
            w == o
                || (w.key.is_empty()
                    && w.val.is_none()
                    && o.key.is_empty()
                    && o.val.is_none()
                    && format!("{}{}", o.prec, o.post) == w.post)
        });
    if !ok {
        viol!("document options {:?}, expected {:?}", r.opts, want.opts)
    }
    for (name, w, x) in
        [("preamble", &want.pre, &r.pre), ("body", &want.body, &r.body), ("trailing part", &want.trailing, &r.trailing)]
    {
        let (w, x) = (print(w), print(x));
        if w != x {
            viol!("{} is {:?}, expected {:?}", name, x, w)
        }
    }
    if want.bb != r.bb || want.be != r.be {
        viol!("body header whitespace {:?} {:?}, expected {:?} {:?}", r.bb, r.be, want.bb, want.be)
    }
    if cmp_args(&want.bargs, &r.bargs) == Diff::Shape {
        viol!("body arguments {:?}", r.bargs)
    }
    O::Held(want.has_body || want.class.is_some() || !want.opts.is_empty())
}

/* ---------- C10, C11 ---------- */

pub fn c10(c: &Case) -> O {
    let mut some = false;
    macro_rules! stage {
        ($k:expr, $spec:expr, $real:expr, |$w:ident, $d:ident| $diff:expr) => {
            if let (Ok($w), Ok(Ok($d))) = ($spec, $real) {
                some = true;
                if $diff == Diff::Lines {
                    viol!("wrong line number in stage-{} tree {:?}", $k, $d)
                }
            }
        };
    }
    stage!(1, c.sp1(), c.r1(), |w, d| cmp(w, 1, &chunks1(d.chunks())));
    stage!(2, c.sp2(), c.r2(), |w, d| cmp(w, 1, &chunks2(d.chunks())));
    stage!(3, c.sp3(), c.r3(), |w, d| cmp3(w, &doc3(d)));
    O::Held(some && c.s.contains('\n'))
}

fn chk<X: Lines + ToString>(x: &X, what: &str) -> Result<(), String> {
    let p = x.to_string();
    let (want, got) = (nls(&p) + 1, x.lines());
    if want == got {
        Ok(())
    } else {
        Err(format!("{what} printing {p:?} reports {got} lines instead of {want}"))
    }
}

macro_rules! line_walk {
    ($m:ident, $chunk:ident, $scope:ident, $args:ident) => {
        pub fn $scope(s: &$m::Scope) -> Result<(), String> {
            chk(s, "a group")?;
            s.chunks().iter().try_for_each($chunk)
        }
        pub fn $args(a: &[(String, $m::Scope)]) -> Result<(), String> {
            a.iter().try_for_each(|(_, s)| $scope(s))
        }
    };
}

line_walk!(ast1, lines_chunk1, lines_scope1, lines_args1);
line_walk!(ast2, lines_chunk2, lines_scope2, lines_args2);
line_walk!(ast3, lines_chunk3, lines_scope3, lines_args3);

pub fn lines_chunk1(c: &ast1::Chunk) -> Result<(), String> {
    chk(c, "a stage-1 chunk")?;
    chk(c.variant(), "a stage-1 chunk variant")?;
    match c.variant() {
        ast1::ChunkVariant::Text(_) => Ok(()),
        ast1::ChunkVariant::Command(k) => chk(k, "a command").and(lines_args1(k.arguments())),
        ast1::ChunkVariant::Scope(s) => lines_scope1(s),
    }
}

pub fn lines_chunk2(c: &ast2::Chunk) -> Result<(), String> {
    chk(c, "a stage-2 chunk")?;
    chk(c.variant(), "a stage-2 chunk variant")?;
    match c.variant() {
        ast2::ChunkVariant::Text(_) => Ok(()),
        ast2::ChunkVariant::Command(k) => chk(k, "a command").and(lines_args2(k.arguments())),
        ast2::ChunkVariant::Scope(s) => lines_scope2(s),
        ast2::ChunkVariant::Environment(e) => {
            chk(e, "an environment")?;
            let (_, args, content, _, _) = e.clone().decompose();
            lines_args2(&args)?;
            content.iter().try_for_each(lines_chunk2)
        }
    }
}

pub fn lines_chunk3(c: &ast3::Chunk) -> Result<(), String> {
    chk(c, "a stage-3 chunk")?;
    chk(c.variant(), "a stage-3 chunk variant")?;
    match c.variant() {
        ast3::ChunkVariant::Text(_) | ast3::ChunkVariant::ParagraphBreak(_) => Ok(()),
        ast3::ChunkVariant::Command(k) => chk(k, "a command").and(lines_args3(k.arguments())),
        ast3::ChunkVariant::Scope(s) => lines_scope3(s),
        ast3::ChunkVariant::MathsBlock(m) => chk(m, "a maths block"),
        ast3::ChunkVariant::Environment(e) => {
            chk(e, "an environment")?;
            let (_, args, content, _, _) = e.clone().decompose();
            lines_args3(&args)?;
            content.iter().try_for_each(lines_chunk3)
        }
    }
}

pub fn lines_doc1(d: &ast1::Document) -> Result<(), String> {
    chk(d, "a stage-1 document")?;
    d.chunks().iter().try_for_each(lines_chunk1)
}

pub fn lines_doc2(d: &ast2::Document) -> Result<(), String> {
    chk(d, "a stage-2 document")?;
    d.chunks().iter().try_for_each(lines_chunk2)
}

pub fn lines_doc3(d: &ast3::Document) -> Result<(), String> {
    chk(d, "a stage-3 document")?;
    let (_, _, pre, body, args, _, _, trailing) = d.clone().decompose();
    lines_args3(&args)?;
    pre.iter().chain(&body).chain(&trailing).try_for_each(lines_chunk3)
}

pub fn c11(c: &Case) -> O {
    let mut some = false;
    macro_rules! stage {
        ($real:expr, $f:ident) => {
            if let Ok(Ok(d)) = $real {
                some = true;
                match guard(|| $f(d)) {
                    Err(p) => viol!("counting lines panics: {}", p),
                    Ok(Err(m)) => viol!("{}", m),
                    Ok(Ok(())) => {}
                }
            }
        };
    }
    stage!(c.r1(), lines_doc1);
    stage!(c.r2(), lines_doc2);
    stage!(c.r3(), lines_doc3);
    O::Held(some && c.s.contains('\n'))
}

/* ---------- C12, C13 ---------- */

pub fn c12(c: &Case) -> O {
    let mut rejected = false;
    macro_rules! stage {
        ($k:expr, $spec:expr, $real:expr) => {
            match ($spec, $real) {
                (Ok(_), Ok(Ok(_))) => {}
                (Err(_), Err(p)) | (Ok(_), Err(p)) => viol!("stage {} panics: {}", $k, p),
                (Ok(_), Ok(Err(e))) => viol!("stage {} rejects a well-formed text with {:?}", $k, e),
                (Err(f), Ok(Ok(_))) => viol!("stage {} accepts a text with faults {:?}", $k, f),
                (Err(f), Ok(Err(e))) => {
                    rejected = true;
                    let kind = err(e).1;
                    if !f.iter().any(|x| x.1 == kind) {
                        viol!("stage {} reports {:?}, the text has {:?}", $k, e, f)
                    }
                }
            }
        };
    }
    stage!(1, c.sp1(), c.r1());
    stage!(2, c.sp2(), c.r2());
    stage!(3, c.sp3(), c.r3());
    O::Held(rejected)
}

pub fn c13(c: &Case) -> O {
    let mut some = false;
    macro_rules! stage {
        ($k:expr, $spec:expr, $real:expr) => {
            match ($spec, $real) {
                (Err(_), Err(p)) => viol!("stage {} panics instead of reporting a fault: {}", $k, p),
                (Err(f), Ok(Err(e))) => {
                    let (line, kind) = err(e);
                    if f.iter().any(|x| x.1 == kind) {
                        some = true;
                        if !f.iter().any(|x| x.1 == kind && x.0 == line) {
                            viol!("stage {} reports {:?}, the faults are {:?}", $k, e, f)
                        }
                    }
                }
                _ => {}
            }
        };
    }
    stage!(1, c.sp1(), c.r1());
    stage!(2, c.sp2(), c.r2());
    stage!(3, c.sp3(), c.r3());
    O::Held(some && c.s.contains('\n'))
}

/* ---------- C14, C15 ---------- */

pub fn c14(c: &Case) -> O {
    macro_rules! parsed {
        ($k:expr, $real:expr) => {
            match $real {
                Err(p) => viol!("stage {} panics: {}", $k, p),
                Ok(Ok(d)) => {
                    match guard(|| {
                        let p = d.to_string();
                        let l = d.lines();
                        let v = d.validate();
                        (p.len(), l, v.is_ok())
                    }) {
                        Err(p) => viol!("stage {}: printing, counting lines or validating panics: {}", $k, p),
                        Ok(_) => Some(d),
                    }
                }
                Ok(Err(e)) => {
                    if let Err(p) = guard(|| e.to_string()) {
                        viol!("stage {}: printing the error panics: {}", $k, p)
                    }
                    None
                }
            }
        };
    }
    let d1 = parsed!(1, c.r1());
    let d2 = parsed!(2, c.r2());
    let d3 = parsed!(3, c.r3());
    if let Some(d) = d1 {
        if let Err(p) = guard(|| ast2::Document::try_from(d.clone()).is_ok()) {
            viol!("converting stage 1 to stage 2 panics: {}", p)
        }
    }
    if let Some(d) = d2 {
        if let Err(p) = guard(|| ast1::Document::from(d.clone()).lines()) {
            viol!("converting stage 2 to stage 1 panics: {}", p)
        }
        if let Err(p) = guard(|| ast3::Document::try_from(d.clone()).is_ok()) {
            viol!("converting stage 2 to stage 3 panics: {}", p)
        }
    }
    if let Some(d) = d3 {
        if let Err(p) = guard(|| ast1::Document::from(ast2::Document::from(d.clone())).lines()) {
            viol!("converting stage 3 to stages 2 and 1 panics: {}", p)
        }
    }
    O::Held(d1.is_some())
}

/// The faults validation can find in a parsed tree because of a listed finding: the characters that
/// may not stand where the parser put them, and the finding each falls under.
fn known_invalid(cs: &[C], out: &mut Vec<(char, &'static str)>) {
    let bad = |c: &char| matches!(c, '\\' | '%' | '{' | '}' | '(' | ')' | '[' | ']');
    for c in cs {
        match &c.t {
            T::Text(s) => out.extend(s.chars().filter(|c| matches!(c, '}' | ')' | ']')).map(|c| (c, "F2"))),
            T::Par(_) | T::Opaque(_) => {}
            T::Cmd(k) => k.args.iter().for_each(|a| known_invalid(&a.1.ch, out)),
            T::Scope(s) => known_invalid(&s.ch, out),
            T::Env(e) => {
                out.extend(e.label.chars().filter(bad).map(|c| (c, "F3")));
                e.args.iter().for_each(|a| known_invalid(&a.1.ch, out));
                known_invalid(&e.content, out)
            }
            T::Maths(m) => known_invalid(&m.content, out),
        }
    }
}

pub fn c15(c: &Case) -> O {
    let mut known = None;
    let mut some = false;
    macro_rules! stage {
        ($k:expr, $spec:expr, $real:expr, $chunks:expr, |$w:ident| $inv:expr) => {
            if let Ok(Ok(d)) = $real {
                some = true;
                let r = guard(|| {
                    let v = d.validate();
                    let each = $chunks(d);
                    (v, each)
                });
                let mut listed: Vec<(char, &'static str)> = vec![];
                if let Ok($w) = $spec {
                    for part in $inv {
                        known_invalid(part, &mut listed)
                    }
                }
                match r {
                    Err(p) => viol!("stage {}: validation panics: {}", $k, p),
                    Ok((Ok(()), Ok(()))) => {}
                    Ok((a, b)) => {
                        for e in [a.err(), b.err()].into_iter().flatten() {
                            match listed.iter().find(|x| e == InternalError::UnsanitisedCharInString(x.0)) {
                                Some((_, id)) => known = Some(*id),
                                None => viol!("the parsed stage-{} document does not validate: {:?}", $k, e),
                            }
                        }
                    }
                }
            }
        };
    }
    stage!(1, c.sp1(), c.r1(), |d: &ast1::Document| d.chunks().iter().try_for_each(|c| c.validate()), |w| [w.as_slice()]);
    stage!(2, c.sp2(), c.r2(), |d: &ast2::Document| d.chunks().iter().try_for_each(|c| c.validate()), |w| [w.as_slice()]);
    stage!(
        3,
        c.sp3(),
        c.r3(),
        |d: &ast3::Document| d
            .chunks_preamable()
            .iter()
            .chain(d.chunks_body())
            .chain(d.chunks_trailing())
            .try_for_each(|c| c.validate()),
        |w| [w.pre.as_slice(), &w.body, &w.trailing].into_iter().chain(w.bargs.iter().map(|a| a.1.ch.as_slice()))
    );
    match known {
        Some(id) => O::Known(id),
        None => O::Held(some),
    }
}

/* ---------- C19 ---------- */

pub fn c19(c: &Case) -> O {
    if !c.comments() {
        return O::Held(false);
    }
    let t = c.stripped();
    macro_rules! stage {
        ($k:expr, $spec:expr, $real:expr, $m:ident) => {{
            let want = guard(|| $m::Document::from_str(t));
            match ($real, want) {
                (Ok(a), Ok(b)) => {
                    if a != &b {
                        viol!("stage {} gives {:?} with and {:?} without the comments", $k, a, b)
                    }
                }
                // a panic without the comments as well is not about comments
                (Err(_), Err(_)) => {}
                (a, b) => viol!("stage {} gives {:?} with and {:?} without the comments", $k, a, b),
            }
        }};
    }
    stage!(1, c.sp1(), c.r1(), ast1);
    stage!(2, c.sp2(), c.r2(), ast2);
    stage!(3, c.sp3(), c.r3(), ast3);
    O::Held(true)
}

/* ---------- C20 ---------- */

fn balanced(t: &str, o: char) -> bool {
    let c = closer(o);
    let mut depth = 0i32;
    let mut it = t.chars();
    while let Some(x) = it.next() {
        if x == '\\' {
            it.next();
        } else if x == o {
            depth += 1
        } else if x == c {
            depth -= 1;
            if depth < 0 {
                return false;
            }
        }
    }
    depth == 0
}

macro_rules! shift {
    ($m:ident, $cs:expr, $by:expr) => {
        $cs.iter()
            .map(|c| $m::Chunk::new_unchecked(c.line_no() + $by, c.variant().clone()))
            .collect::<Vec<_>>()
    };
}

const PRE: &str = "x\n\\c[y\n]\n.{z}";

pub fn c20(c: &Case) -> O {
    // the premise: a comment-free text that does not end in the middle of an escape
    if c.comments() || units_end_lone(c.s) {
        return O::Held(false);
    }
    let s = c.s;
    // with several faults, which of them is reported is not part of the property
    let single = |e: &Errs| e.len() == 1;
    let fragment = !s.contains("documentclass") && !s.contains("{document}");
    let mut some = false;

    macro_rules! same_err {
        ($where:expr, $spec:expr, $plain:expr, $got:expr, $by:expr) => {
            if let Err(f) = $spec {
                if single(f) {
                    let mut want = err($plain);
                    want.0 += $by;
                    match &$got {
                        Err(e) if err(e) == want => {}
                        x => viol!("{}: {:?} instead of the fault {:?} found standing alone", $where, x, want),
                    }
                }
            }
        };
    }
    macro_rules! embed {
        ($text:expr, $m:ident, $spec:expr, $plain:expr, $by:expr, |$d:ident| $content:expr, $chunks:expr) => {{
            let text: String = $text;
            match $plain {
                Ok(Ok(p)) => match guard(|| $m::Document::from_str(&text)) {
                    Ok(Ok($d)) => {
                        some = true;
                        let got = $content;
                        let want = $chunks(p);
                        if got.as_ref() != Some(&want) {
                            viol!("{:?} gives {:?} instead of {:?}", text, got, want)
                        }
                    }
                    x => viol!("{:?} gives {:?} though its content parses", text, x),
                },
                Ok(Err(pe)) => match guard(|| $m::Document::from_str(&text)) {
                    Ok(got) => {
                        some = true;
                        same_err!(format!("{text:?}"), $spec, pe, got, $by)
                    }
                    Err(p) => viol!("{:?} panics: {}", text, p),
                },
                Err(_) => {}
            }
        }};
    }

    let pre3 = |p: &ast3::Document| p.chunks_preamable().clone();
    let ch1 = |p: &ast1::Document| p.chunks().clone();
    let ch2 = |p: &ast2::Document| p.chunks().clone();

    for (i, v) in ['{', '(', '['].into_iter().enumerate() {
        // very long contents are put into one kind of bracket each
        if !balanced(s, v) || s.len() > 100_000 && i != s.len() % 3 {
            continue;
        }
        let cl = closer(v);
        let v1 = [ast1::ScopeVariant::Curly, ast1::ScopeVariant::Round, ast1::ScopeVariant::Square][i];
        let v2 = [ast2::ScopeVariant::Curly, ast2::ScopeVariant::Round, ast2::ScopeVariant::Square][i];
        let v3 = [ast3::ScopeVariant::Curly, ast3::ScopeVariant::Round, ast3::ScopeVariant::Square][i];
        // a group on line 2
        let text = || format!(".\n{v}{s}{cl}");
        embed!(text(), ast1, c.sp1(), c.r1(), 1, |d| group1(&d, v1), ch1);
        embed!(text(), ast2, c.sp2(), c.r2(), 1, |d| group2(&d, v2), ch2);
        if fragment {
            embed!(text(), ast3, c.sp3(), c.r3(), 1, |d| group3(&d, v3), pre3);
        }
        // the second argument of a command, after a multi-line first one
        let text = || format!("\\c[\n]\n{v}{s}{cl}");
        embed!(text(), ast1, c.sp1(), c.r1(), 2, |d| arg1(&d, v1), ch1);
        embed!(text(), ast2, c.sp2(), c.r2(), 2, |d| arg2(&d, v2), ch2);
        if fragment {
            embed!(text(), ast3, c.sp3(), c.r3(), 2, |d| arg3(&d, v3), pre3);
        }
    }

    if c.sp1().is_ok() {
        // after other constructs
        let by = nls(PRE);
        let text = || format!("{PRE}{s}");
        embed!(text(), ast1, c.sp1(), c.r1(), by, |d| d.chunks().get(4..).map(|x| x.to_vec()), |p: &ast1::Document| shift!(
            ast1,
            p.chunks(),
            by
        ));
        embed!(text(), ast2, c.sp2(), c.r2(), by, |d| d.chunks().get(4..).map(|x| x.to_vec()), |p: &ast2::Document| shift!(
            ast2,
            p.chunks(),
            by
        ));
        if fragment {
            embed!(
                text(),
                ast3,
                c.sp3(),
                c.r3(),
                by,
                |d| d.chunks_preamable().get(4..).map(|x| x.to_vec()),
                |p: &ast3::Document| shift!(ast3, p.chunks_preamable(), by)
            );
        }
    }

    if c.sp2().is_ok() {
        // an environment's content; the dot keeps a leading bracket from being an argument
        let dotted = format!(".{s}");
        let d = Case::new(&dotted);
        let text = || format!(".\n\\begin\n{{qq}}[\n]{dotted}\\end{{qq}}");
        embed!(text(), ast2, d.sp2(), d.r2(), 3, |d| env2(&d), ch2);
        if fragment {
            embed!(text(), ast3, d.sp3(), d.r3(), 3, |d| env3(&d), pre3);
        }
    }

    if c.sp3().is_ok() && fragment {
        if let Ok(Ok(p)) = c.r3() {
            for (o, cl, ty) in [("\\(", "\\)", ast3::MathsType::Inline), ("\\[", "\\]", ast3::MathsType::Outline)] {
                let text = format!(".\n{o}{s}{cl}");
                let want = ast3::ChunkVariant::MathsBlock(ast3::MathsBlock::new_unchecked(
                    ast3::MathsVariant::Brackets,
                    ty,
                    p.chunks_preamable().clone(),
                ));
                match guard(|| ast3::Document::from_str(&text)) {
                    Ok(Ok(d)) => {
                        some = true;
                        if d.chunks_preamable().len() != 2 || d.chunks_preamable()[1].variant() != &want {
                            viol!("{:?} gives {:?} instead of {:?}", text, d.chunks_preamable(), want)
                        }
                    }
                    x => viol!("{:?} gives {:?} though its content parses", text, x),
                }
            }
        }
    }
    O::Held(some)
}

fn units_end_lone(s: &str) -> bool {
    let mut esc = false;
    for c in s.chars() {
        esc = c == '\\' && !esc;
    }
    esc
}

macro_rules! inner {
    ($group:ident, $arg:ident, $m:ident, |$d:ident| $chunks:expr) => {
        fn $group($d: &$m::Document, v: $m::ScopeVariant) -> Option<Vec<$m::Chunk>> {
            let cs = $chunks;
            match (cs.len(), cs.get(1).map(|c| c.variant())) {
                (2, Some($m::ChunkVariant::Scope(s))) if s.variant() == v => Some(s.chunks().clone()),
                _ => None,
            }
        }
        fn $arg($d: &$m::Document, v: $m::ScopeVariant) -> Option<Vec<$m::Chunk>> {
            let cs = $chunks;
            match (cs.len(), cs.first().map(|c| c.variant())) {
                (1, Some($m::ChunkVariant::Command(k)))
                    if k.arguments().len() == 2 && k.arguments()[1].1.variant() == v =>
                {
                    Some(k.arguments()[1].1.chunks().clone())
                }
                _ => None,
            }
        }
    };
}

inner!(group1, arg1, ast1, |d| d.chunks());
inner!(group2, arg2, ast2, |d| d.chunks());
inner!(group3, arg3, ast3, |d| d.chunks_preamable());

fn env2(d: &ast2::Document) -> Option<Vec<ast2::Chunk>> {
    match (d.chunks().len(), d.chunks().get(1).map(|c| c.variant())) {
        (2, Some(ast2::ChunkVariant::Environment(e))) => Some(e.clone().decompose().2),
        _ => None,
    }
}

fn env3(d: &ast3::Document) -> Option<Vec<ast3::Chunk>> {
    match (d.chunks_preamable().len(), d.chunks_preamable().get(1).map(|c| c.variant())) {
        (2, Some(ast3::ChunkVariant::Environment(e))) => Some(e.clone().decompose().2),
        _ => None,
    }
}
