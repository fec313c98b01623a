//! The bridge between the implementation's public types and the reference trees.

use crate::spec::*;
use latex_ast::{ast1, ast2, ast3, Error, ErrorType, InternalError};

/* ---------- implementation -> reference form (lines as the implementation gives them) ---------- */

macro_rules! scope_char {
    ($m:ident, $v:expr) => {
        match $v {
            $m::ScopeVariant::Curly => '{',
            $m::ScopeVariant::Round => '(',
            $m::ScopeVariant::Square => '[',
        }
    };
}

macro_rules! common {
    ($m:ident, $sc:ident, $args:ident, $chunks:ident) => {
        pub fn $sc(s: &$m::Scope) -> Sc {
            Sc { v: scope_char!($m, s.variant()), line: 0, ch: $chunks(s.chunks()) }
        }
        pub fn $args(a: &[(String, $m::Scope)]) -> Vec<(String, Sc)> {
            a.iter().map(|(p, s)| (p.clone(), $sc(s))).collect()
        }
    };
}

common!(ast1, sc1, args1, chunks1);
common!(ast2, sc2, args2, chunks2);
common!(ast3, sc3, args3, chunks3);

pub fn chunks1(cs: &[ast1::Chunk]) -> Vec<C> {
    cs.iter()
        .map(|c| C {
            line: c.line_no(),
            t: match c.variant() {
                ast1::ChunkVariant::Text(s) => T::Text(s.clone()),
                ast1::ChunkVariant::Command(k) => {
                    T::Cmd(Cmd { label: k.label().clone(), args: args1(k.arguments()) })
                }
                ast1::ChunkVariant::Scope(s) => T::Scope(sc1(s)),
            },
        })
        .collect()
}

pub fn chunks2(cs: &[ast2::Chunk]) -> Vec<C> {
    cs.iter()
        .map(|c| C {
            line: c.line_no(),
            t: match c.variant() {
                ast2::ChunkVariant::Text(s) => T::Text(s.clone()),
                ast2::ChunkVariant::Command(k) => {
                    T::Cmd(Cmd { label: k.label().clone(), args: args2(k.arguments()) })
                }
                ast2::ChunkVariant::Scope(s) => T::Scope(sc2(s)),
                ast2::ChunkVariant::Environment(e) => {
                    let (label, args, content, pb, pe) = e.clone().decompose();
                    T::Env(Box::new(Env {
                        label,
                        args: args2(&args),
                        content: chunks2(&content),
                        pb,
                        pe,
                        cline: 0,
                    }))
                }
            },
        })
        .collect()
}

pub fn chunks3(cs: &[ast3::Chunk]) -> Vec<C> {
    cs.iter()
        .map(|c| C {
            line: c.line_no(),
            t: match c.variant() {
                ast3::ChunkVariant::Text(s) => T::Text(s.clone()),
                ast3::ChunkVariant::ParagraphBreak(s) => T::Par(s.clone()),
                ast3::ChunkVariant::Command(k) => {
                    T::Cmd(Cmd { label: k.label().clone(), args: args3(k.arguments()) })
                }
                ast3::ChunkVariant::Scope(s) => T::Scope(sc3(s)),
                ast3::ChunkVariant::MathsBlock(m) => T::Opaque(Box::new(m.clone())),
                ast3::ChunkVariant::Environment(e) => {
                    let (label, args, content, pb, pe) = e.clone().decompose();
                    T::Env(Box::new(Env {
                        label,
                        args: args3(&args),
                        content: chunks3(&content),
                        pb,
                        pe,
                        cline: 0,
                    }))
                }
            },
        })
        .collect()
}

/// a stage-3 document taken apart
pub struct Real3 {
    pub class: Option<String>,
    pub opts: Vec<Opt>,
    pub pre: Vec<C>,
    pub body: Vec<C>,
    pub bargs: Vec<(String, Sc)>,
    pub bb: String,
    pub be: String,
    pub trailing: Vec<C>,
}

pub fn doc3(d: &ast3::Document) -> Real3 {
    let (class, opts, pre, body, bargs, bb, be, trailing) = d.clone().decompose();
    Real3 {
        class,
        opts: opts.into_iter().map(|(prec, key, val, post)| Opt { prec, key, val, post }).collect(),
        pre: chunks3(&pre),
        body: chunks3(&body),
        bargs: args3(&bargs),
        bb,
        be,
        trailing: chunks3(&trailing),
    }
}

/* ---------- reference -> implementation (stage 3, for maths blocks) ---------- */

fn v3(c: char) -> ast3::ScopeVariant {
    match c {
        '{' => ast3::ScopeVariant::Curly,
        '(' => ast3::ScopeVariant::Round,
        _ => ast3::ScopeVariant::Square,
    }
}

fn to_sc3(s: &Sc) -> ast3::Scope {
    ast3::Scope::new_unchecked(to3(&s.ch, s.line), v3(s.v))
}

fn to_args3(a: &[(String, Sc)]) -> Vec<(String, ast3::Scope)> {
    a.iter().map(|(p, s)| (p.clone(), to_sc3(s))).collect()
}

pub fn to_maths(m: &Maths, base: u32) -> ast3::MathsBlock {
    ast3::MathsBlock::new_unchecked(
        if m.brackets { ast3::MathsVariant::Brackets } else { ast3::MathsVariant::Dollars },
        if m.display { ast3::MathsType::Outline } else { ast3::MathsType::Inline },
        to3(&m.content, base),
    )
}

pub fn to3(cs: &[C], base: u32) -> Vec<ast3::Chunk> {
    cs.iter()
        .map(|c| {
            ast3::Chunk::new_unchecked(
                c.line - base + 1,
                match &c.t {
                    T::Text(s) => ast3::ChunkVariant::Text(s.clone()),
                    T::Par(s) => ast3::ChunkVariant::ParagraphBreak(s.clone()),
                    T::Cmd(k) => ast3::ChunkVariant::Command(ast3::Command::new_unchecked(
                        k.label.clone(),
                        to_args3(&k.args),
                    )),
                    T::Scope(s) => ast3::ChunkVariant::Scope(to_sc3(s)),
                    T::Env(e) => ast3::ChunkVariant::Environment(ast3::Environment::new_unchecked(
                        e.label.clone(),
                        to_args3(&e.args),
                        to3(&e.content, e.cline),
                        e.pb.clone(),
                        e.pe.clone(),
                    )),
                    T::Maths(m) => ast3::ChunkVariant::MathsBlock(to_maths(m, c.line)),
                    T::Opaque(m) => ast3::ChunkVariant::MathsBlock((**m).clone()),
                },
            )
        })
        .collect()
}

/* ---------- comparison ---------- */

/// What differs between the reference tree and the implementation's.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Diff {
    Same,
    /// same shape and content, some line number differs
    Lines,
    Shape,
}

impl Diff {
    fn and(self, o: Diff) -> Diff {
        use Diff::*;
        match (self, o) {
            (Shape, _) | (_, Shape) => Shape,
            (Lines, _) | (_, Lines) => Lines,
            _ => Same,
        }
    }
}

/// `Debug` output without the numbers that follow `line_no:`
fn debug_without_lines<X: std::fmt::Debug>(x: &X) -> String {
    let s = format!("{x:?}");
    let mut out = String::with_capacity(s.len());
    let mut rest = s.as_str();
    while let Some(at) = rest.find("line_no: ") {
        out.push_str(&rest[..at]);
        rest = rest[at + 9..].trim_start_matches(|c: char| c.is_ascii_digit());
    }
    out.push_str(rest);
    out
}

pub fn cmp(spec: &[C], base: u32, real: &[C]) -> Diff {
    if spec.len() != real.len() {
        return Diff::Shape;
    }
    let mut d = Diff::Same;
    for (s, r) in spec.iter().zip(real) {
        if s.line - base + 1 != r.line {
            d = d.and(Diff::Lines)
        }
        d = d.and(match (&s.t, &r.t) {
            (T::Text(a), T::Text(b)) | (T::Par(a), T::Par(b)) => same(a == b),
            (T::Cmd(a), T::Cmd(b)) => same(a.label == b.label).and(cmp_args(&a.args, &b.args)),
            (T::Scope(a), T::Scope(b)) => cmp_sc(a, b),
            (T::Env(a), T::Env(b)) => same(a.label == b.label && a.pb == b.pb && a.pe == b.pe)
                .and(cmp_args(&a.args, &b.args))
                .and(cmp(&a.content, a.cline, &b.content)),
            (T::Maths(a), T::Opaque(b)) => {
                let want = to_maths(a, s.line);
                if want == **b {
                    Diff::Same
                } else if debug_without_lines(&want) == debug_without_lines(&**b) {
                    Diff::Lines
                } else {
                    Diff::Shape
                }
            }
            _ => Diff::Shape,
        });
        if d == Diff::Shape {
            return d;
        }
    }
    d
}

fn same(b: bool) -> Diff {
    if b {
        Diff::Same
    } else {
        Diff::Shape
    }
}

fn cmp_sc(a: &Sc, b: &Sc) -> Diff {
    same(a.v == b.v).and(cmp(&a.ch, a.line, &b.ch))
}

pub fn cmp_args(a: &[(String, Sc)], b: &[(String, Sc)]) -> Diff {
    if a.len() != b.len() {
        return Diff::Shape;
    }
    a.iter().zip(b).fold(Diff::Same, |d, ((pa, sa), (pb, sb))| d.and(same(pa == pb)).and(cmp_sc(sa, sb)))
}

pub fn cmp3(s: &Doc3, r: &Real3) -> Diff {
    cmp(&s.pre, 1, &r.pre)
        .and(cmp(&s.body, if s.has_body { s.body_base } else { 1 }, &r.body))
        .and(cmp_args(&s.bargs, &r.bargs))
        .and(cmp(&s.trailing, if s.has_body { s.trailing_base } else { 1 }, &r.trailing))
}

/* ---------- errors ---------- */

pub fn err(e: &Error) -> (u32, E) {
    let v = |v: &ast1::ScopeVariant| scope_char!(ast1, v);
    (
        e.line,
        match &e.r#type {
            ErrorType::UnexpectedClosing(x) => E::UnexpectedClosing(closer(v(x))),
            ErrorType::UnclosedArgument(x) => E::UnclosedArgument(v(x)),
            ErrorType::UnclosedScope(x) => E::UnclosedScope(v(x)),
            ErrorType::NoEnvironmentLabel => E::NoLabel,
            ErrorType::UnexpectedEnd(l) => E::UnexpectedEnd(l.clone()),
            ErrorType::UnclosedEnvironment(l) => E::UnclosedEnv(l.clone()),
            ErrorType::TooManyArgsEnd => E::TooManyEnd,
            ErrorType::TooManyArgsDocumentClass => E::TooManyDC,
            ErrorType::DoubleDocumentClass => E::DoubleDC,
            ErrorType::UnexpectedMathsEnd => E::MathsEnd,
            ErrorType::UnclosedMaths => E::UnclosedMaths,
            #[allow(unreachable_patterns)]
            other => E::Other(format!("{other:?}")),
        },
    )
}

pub fn internal(e: &InternalError) -> String {
    format!("{e:?}")
}
