//! Properties of the construction interface: push histories, checked constructors, conversion of
//! hand-built trees.  A script is a history of operations, one character each, or a tree.

use crate::build::*;
use crate::ext::*;
use crate::run::{mix, Seen};
use crate::spec::*;
use crate::textprops::{guard, Case, O};
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, InternalError};
use std::str::FromStr;

macro_rules! viol {
    ($($a:tt)*) => { return O::Viol(format!($($a)*)) };
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x1_0000_01b3))
}

/// The content that is pushed, as reference nodes.
pub fn content(c: char) -> Option<T> {
    let text = |s: &str| T::Text(s.to_string());
    let one = |t: T| vec![C { line: 1, t }];
    let sc = |v: char, t: T| Sc { v, line: 1, ch: one(t) };
    Some(match c {
        'a' => text("a"),
        'n' => text("\n"),
        's' => text(" "),
        't' => text("\n "),
        'b' => text("b\nc"),
        'l' => text("d\n"),
        'f' => text("\ng"),
        'e' => text(""),
        '%' => text("h%"),
        '$' => text("$"),
        'w' => text("\n\n"),
        'k' => T::Cmd(Cmd { label: "k".into(), args: vec![] }),
        'm' => T::Cmd(Cmd { label: "m".into(), args: vec![("\n".into(), sc('{', text("x\n"))), (" ".into(), sc('[', text("")))] }),
        'i' => T::Cmd(Cmd { label: "i{".into(), args: vec![] }),
        'g' => T::Cmd(Cmd { label: "begin".into(), args: vec![] }),
        'o' => T::Scope(sc('[', text("\ny\n"))),
        'q' => T::Scope(sc('(', text("]"))),
        'v' => T::Env(Box::new(Env {
            label: "v".into(),
            args: vec![("\n".into(), sc('{', text("\n")))],
            content: one(text("z\n")),
            pb: "\n".into(),
            pe: "\n".into(),
            cline: 1,
        })),
        'p' => T::Par("\n\n".into()),
        'P' => T::Par("\n".into()),
        'L' => T::Cmd(Cmd { label: "l".into(), args: (0..11).map(|i| ("\n".into(), sc(['{', '(', '['][i % 3], text("i")))).collect() }),
        'H' => T::Scope(sc('{', text(&"a\n".repeat(300)))),
        'T' => T::Scope(sc('[', text(&"a\n".repeat(70000)))),
        'c' => text("a \u{a0}\n"),
        'C' => text("\u{2003}\r\nb"),
        'E' => text("\u{2028}"),
        'j' => T::Cmd(Cmd { label: "\u{e9}%".into(), args: vec![] }),
        'x' => T::Cmd(Cmd { label: "%".into(), args: vec![] }),
        'y' => T::Cmd(Cmd { label: "end".into(), args: vec![("".into(), sc('{', text("document")))] }),
        'd' => T::Scope(Sc { v: '{', line: 1, ch: vec![C { line: 1, t: T::Cmd(Cmd { label: "n".into(), args: vec![("".into(), sc('[', text("%")))] }) }] }),
        'D' => T::Env(Box::new(Env { label: "e{".into(), args: vec![], content: vec![], pb: "".into(), pe: "".into(), cline: 1 })),
        'F' => T::Env(Box::new(Env { label: "f".into(), args: vec![("".into(), sc('[', T::Cmd(Cmd { label: "begin".into(), args: vec![] })))], content: vec![], pb: "".into(), pe: "".into(), cline: 1 })),
        'X' => T::Cmd(Cmd { label: "documentclass".into(), args: vec![("".into(), sc('[', text("o=\n1"))), ("".into(), sc('{', text("c")))] }),
        'Y' => T::Env(Box::new(Env { label: "document".into(), args: vec![], content: one(text("z\n")), pb: "".into(), pe: "".into(), cline: 1 })),
        'M' => T::Maths(Maths { brackets: false, display: true, content: one(text("x\ny")) }),
        _ => return None,
    })
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Push,
    Unchecked,
    /// a chunk with a line that is right (0) or off by so much
    Chunk(i64),
    ChunkUnchecked(i64),
    /// stage 1: what a stage-2 chunk converts to
    Into,
}

pub const MODES: &str = "1234567";

fn mode(c: char) -> Option<Mode> {
    Some(match c {
        '1' => Mode::Push,
        '2' => Mode::Unchecked,
        '3' => Mode::Chunk(0),
        '4' => Mode::Chunk(1),
        '8' => Mode::Chunk(-1),
        '5' => Mode::ChunkUnchecked(0),
        '6' => Mode::ChunkUnchecked(3),
        '7' => Mode::Into,
        _ => return None,
    })
}

/// The reference: a list of (line, printed form, is text).
#[derive(Clone, Default)]
struct Ref(Vec<(u32, String, bool)>);

impl Ref {
    fn end(&self) -> u32 {
        self.0.last().map_or(1, |(l, s, _)| l + nls(s))
    }
    fn push(&mut self, line: u32, s: &str, text: bool) {
        if text {
            if let Some((_, last, true)) = self.0.last_mut() {
                last.push_str(s);
                return;
            }
        }
        self.0.push((line, s.to_string(), text));
    }
    fn print(&self) -> String {
        self.0.iter().map(|x| x.1.as_str()).collect()
    }
    fn hash(&self, h: u64) -> u64 {
        self.0.iter().fold(h, |h, (l, s, t)| mix(h, mix((*l).min(9) as u64 * 2 + *t as u64, nls(s) as u64)))
    }
}

/// one operation on the reference; the faults for which a checked operation must fail
fn apply(r: &mut Ref, t: &T, m: Mode, stage: u32) -> Result<u32, Vec<InternalError>> {
    let mut f = vec![];
    let want = r.end();
    let line = match m {
        Mode::Chunk(d) | Mode::ChunkUnchecked(d) => (want as i64 + d).max(0) as u32,
        _ => want,
    };
    if matches!(m, Mode::Push | Mode::Chunk(_)) {
        faults_t(t, stage, &mut f);
        if line != want {
            f.push(InternalError::IncorrectChunkLineNumber { expected: want, got: line })
        }
        if stage == 3 {
            if let (T::Text(s), Some((_, last, true))) = (t, r.0.last()) {
                let tail = &last[last.trim_end().len()..];
                let head = &s[..s.len() - s.trim_start().len()];
                if tail.contains('\n') && head.contains('\n') {
                    f.push(InternalError::UnbrokenParagraph)
                }
            }
        }
    }
    if f.is_empty() {
        r.push(line, &print(&[C { line: 1, t: t.clone() }]), matches!(t, T::Text(_)));
        Ok(line)
    } else {
        Err(f)
    }
}

fn agree(want: Result<u32, Vec<InternalError>>, got: Result<(), InternalError>, before: bool) -> Result<(), String> {
    match (want, got) {
        (Ok(_), Ok(())) => Ok(()),
        (Err(f), Err(e)) if f.contains(&e) => {
            if before {
                Ok(())
            } else {
                Err(format!("the push fails with {e:?} but changes the document"))
            }
        }
        (w, g) => Err(format!("the push gives {g:?}, expected {w:?}")),
    }
}

/// ends the string of an operation
pub const END: char = '\u{1}';

/// (mode, content) pairs of a history
fn ops(s: &str) -> Vec<(Mode, T, Option<char>)> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let mut section = None;
    while i + 1 < cs.len() {
        if matches!(cs[i], '<' | '=' | '>') {
            section = Some(cs[i]);
            i += 1;
            continue;
        }
        // a kind of node and its string between back quotes
        let end = cs[i + 1..].iter().position(|c| *c == END).map(|n| i + 1 + n);
        if let (Some(m), '`', Some(end)) = (mode(cs[i]), cs[i + 1], end) {
            let s: String = cs[(i + 3).min(end)..end].iter().collect();
            let one = |s: String| vec![C { line: 1, t: T::Text(s) }];
            let t = match cs[i + 2] {
                'p' => T::Par(s),
                'c' => T::Cmd(Cmd { label: s.clone(), args: vec![(s, Sc { v: '{', line: 1, ch: vec![] })] }),
                's' => T::Scope(Sc { v: '(', line: 1, ch: one(s) }),
                'e' => T::Env(Box::new(Env { label: s.clone(), args: vec![], content: vec![], pb: s.clone(), pe: s, cline: 1 })),
                'm' => T::Maths(Maths { brackets: true, display: true, content: one(s) }),
                _ => T::Text(s),
            };
            out.push((m, t, section));
            i = end + 1;
            continue;
        }
        match (mode(cs[i]), content(cs[i + 1])) {
            (Some(m), Some(t)) => {
                out.push((m, t, section));
                i += 2
            }
            _ => i += 1,
        }
    }
    out
}

const START12: &[(char, &str)] = &[('E', ""), ('T', "x\n"), ('C', "y\n\\c[\n]\n"), ('O', "")];

macro_rules! history {
    ($name:ident, $m:ident, $stage:expr, $var:ident, |$d:ident, $t:ident, $r:ident| $into:expr) => {
        fn $name(script: &str) -> (O, u64) {
            let Some((k, text)) = START12.iter().find(|x| script.starts_with(x.0)) else { return (O::Held(false), 0) };
            let mut d = $m::Document::from_str(text).unwrap();
            let mut r = Ref::default();
            for c in d.chunks() {
                r.push(c.line_no(), &c.to_string(), matches!(c.variant(), $m::ChunkVariant::Text(_)));
            }
            if *k == 'O' {
                // a document whose lines are not its own
                d = $m::Document::new_unchecked(vec![$m::Chunk::new_unchecked(
                    7,
                    $m::ChunkVariant::Scope($m::Scope::new_unchecked(vec![$m::Chunk::new_unchecked(3, $m::ChunkVariant::Text("\n".into()))], $m::ScopeVariant::Curly)),
                )]);
                r.push(7, "{\n}", false);
            }
            let mut checked = *k != 'O';
            let list = ops(script);
            for (n, (m, t, _)) in list.iter().enumerate() {
                let last = n + 1 == list.len();
                if stage_of(&[C { line: 1, t: t.clone() }]) > $stage && *m != Mode::Into {
                    return (O::Held(false), 0);
                }
                let before = if last { Some(d.clone()) } else { None };
                checked &= matches!(m, Mode::Push | Mode::Chunk(_));
                if *m == Mode::Into {
                    let (d, t, r) = (&mut d, t, &mut r);
                    let $d = d;
                    let $t = t;
                    let $r = r;
                    $into;
                    continue;
                }
                let want = apply(&mut r, t, *m, $stage);
                let line = match &want {
                    Ok(l) => *l,
                    Err(f) => f
                        .iter()
                        .find_map(|e| match e {
                            InternalError::IncorrectChunkLineNumber { got, .. } => Some(*got),
                            _ => None,
                        })
                        .unwrap_or(r.end()),
                };
                let v = $var(t);
                let chunk = || $m::Chunk::new_unchecked(line, $var(t));
                let got = match guard(|| match m {
                    Mode::Push => d.push(v),
                    Mode::Unchecked => Ok(d.push_unchecked(v)),
                    Mode::Chunk(_) => d.push_chunk(chunk()),
                    _ => Ok(d.push_chunk_unchecked(chunk())),
                }) {
                    Ok(g) => g,
                    Err(p) => return (O::Viol(format!("the push panics: {p}")), 0),
                };
                if let Some(b) = before {
                    let same = got.is_ok() || b == d;
                    if let Err(e) = agree(want, got, same) {
                        return (O::Viol(e), 0);
                    }
                }
            }
            (self::finish(
                &r,
                d.chunks().iter().map(|c| (c.line_no(), c.to_string(), matches!(c.variant(), $m::ChunkVariant::Text(_)))).collect(),
                d.to_string(),
                d.lines(),
                if checked { Some(d.validate()) } else { None },
                !list.is_empty(),
            ), r.hash($stage))
        }
    };
}

fn finish(
    r: &Ref,
    chunks: Vec<(u32, String, bool)>,
    print: String,
    lines: u32,
    valid: Option<Result<(), InternalError>>,
    some: bool,
) -> O {
    if r.0 != chunks {
        viol!("the document holds {:?}, expected {:?}", chunks, r.0)
    }
    if print != r.print() {
        viol!("the document prints {:?}, expected {:?}", print, r.print())
    }
    if lines != nls(&print) + 1 {
        viol!("{} lines reported for {:?}", lines, print)
    }
    if let Some(Err(e)) = valid {
        viol!("built by checked pushes, it does not validate: {:?}", e)
    }
    O::Held(some)
}

history!(history1, ast1, 1, var1, |d, t, r| {
    let line = r.end();
    let c = ast2::Chunk::new_unchecked(line, var2_of(t));
    for c in ast1::IntoChunks::into_chunks(c.clone()) {
        r.push(c.line_no(), &c.to_string(), matches!(c.variant(), ast1::ChunkVariant::Text(_)));
    }
    d.push_into_unchecked(c);
});
history!(history2, ast2, 2, var2, |_d, _t, _r| {
    return (O::Held(false), 0);
});

fn var2_of(t: &T) -> ast2::ChunkVariant {
    match t {
        T::Par(s) => ast2::ChunkVariant::Text(s.clone()),
        T::Maths(_) => ast2::ChunkVariant::Text("$x\ny$".into()),
        _ => var2(t),
    }
}

pub fn c16(script: &str) -> Seen {
    let (o, state) = match script.chars().next() {
        Some('A') => history1(&script[1..]),
        Some('B') => history2(&script[1..]),
        _ => (O::Held(false), 0),
    };
    Seen { o, state }
}

/* ---------- C17 ---------- */

const START3: &[(char, &str, bool)] = &[
    ('E', "", true),
    ('D', "x\n\n\\begin \n{document}[\n]y\n\\end\n{document}\nz", true),
    ('F', "x\n", false),
];

pub fn c17(script: &str) -> Seen {
    let (o, state) = c17_(script);
    Seen { o, state }
}

fn c17_(script: &str) -> (O, u64) {
    let Some((k, text, _)) = START3.iter().find(|x| script.starts_with(x.0)) else { return (O::Held(false), 0) };
    let mut d = if *k == 'E' { ast3::Document::default() } else { ast3::Document::from_str(text).unwrap() };
    let fill = |cs: &[ast3::Chunk]| {
        let mut r = Ref::default();
        for c in cs {
            r.push(c.line_no(), &c.to_string(), matches!(c.variant(), ast3::ChunkVariant::Text(_)));
        }
        r
    };
    let mut secs = [fill(d.chunks_preamable()), fill(d.chunks_body()), fill(d.chunks_trailing())];
    let header = match k {
        'D' => ("\\begin \n{document}[\n]", "\\end\n{document}"),
        _ => ("\\begin{document}", "\\end{document}"),
    };
    let mut bare = *k == 'F';
    let mut checked = true;
    let list = ops(&script[1..]);
    for (n, (m, t, section)) in list.iter().enumerate() {
        let s = match section {
            Some('<') => 0,
            Some('>') => 2,
            _ => 1,
        };
        if matches!(m, Mode::Into) {
            return (O::Held(false), 0);
        }
        let before = if n + 1 == list.len() { Some(d.clone()) } else { None };
        checked &= matches!(m, Mode::Push | Mode::Chunk(_));
        let want = apply(&mut secs[s], t, *m, 3);
        let line = match &want {
            Ok(l) => *l,
            Err(f) => f
                .iter()
                .find_map(|e| match e {
                    InternalError::IncorrectChunkLineNumber { got, .. } => Some(*got),
                    _ => None,
                })
                .unwrap_or(secs[s].end()),
        };
        if want.is_ok() && s > 0 {
            bare = false
        }
        let v = var3(t);
        let c = ast3::Chunk::new_unchecked(line, var3(t));
        let got = match guard(|| match (m, s) {
            (Mode::Push, 0) => d.push_preamable(v),
            (Mode::Push, 1) => d.push_body(v),
            (Mode::Push, _) => d.push_trailing(v),
            (Mode::Unchecked, 0) => Ok(d.push_preamable_unchecked(v)),
            (Mode::Unchecked, 1) => Ok(d.push_body_unchecked(v)),
            (Mode::Unchecked, _) => Ok(d.push_trailing_unchecked(v)),
            (Mode::Chunk(_), 0) => d.push_preamable_chunk(c),
            (Mode::Chunk(_), 1) => d.push_body_chunk(c),
            (Mode::Chunk(_), _) => d.push_trailing_chunk(c),
            (_, 0) => Ok(d.push_preamable_chunk_unchecked(c)),
            (_, 1) => Ok(d.push_body_chunk_unchecked(c)),
            (_, _) => Ok(d.push_trailing_chunk_unchecked(c)),
        }) {
            Ok(g) => g,
            Err(p) => return (O::Viol(format!("the push panics: {p}")), 0),
        };
        if let Some(b) = before {
            let same = got.is_ok() || b == d;
            if let Err(e) = agree(want, got, same) {
                return (O::Viol(e), 0);
            }
        }
    }
    let h = secs[0].hash(secs[1].hash(secs[2].hash(bare as u64)));
    for (i, (r, cs)) in secs.iter().zip([d.chunks_preamable(), d.chunks_body(), d.chunks_trailing()]).enumerate() {
        let got: Vec<_> = cs
            .iter()
            .map(|c| (c.line_no(), c.to_string(), matches!(c.variant(), ast3::ChunkVariant::Text(_))))
            .collect();
        if got != r.0 {
            return (O::Viol(format!("section {i} holds {:?}, expected {:?}", got, r.0)), h);
        }
    }
    let want = if bare {
        format!("{}{}", secs[0].print(), secs[2].print())
    } else {
        format!("{}{}{}{}{}", secs[0].print(), header.0, secs[1].print(), header.1, secs[2].print())
    };
    let print = d.to_string();
    if print != want {
        return (O::Viol(format!("the document prints {print:?}, expected {want:?}")), h);
    }
    if checked {
        if let Err(e) = d.validate() {
            return (O::Viol(format!("built by checked pushes, it does not validate: {e:?}")), h);
        }
    }
    (O::Held(!list.is_empty()), h)
}

/* ---------- C18 ---------- */

fn verdict(what: &str, want: &[InternalError], got: Result<(), InternalError>) -> Result<(), String> {
    match got {
        Ok(()) if want.is_empty() => Ok(()),
        Err(e) if want.contains(&e) => Ok(()),
        g => Err(format!("{what}: {g:?}, its faults are {want:?}")),
    }
}

macro_rules! check_nodes {
    ($name:ident, $m:ident, $stage:expr, $var:ident, $args:ident, $chunks:ident, $v:ident, |$t:ident, $f:ident| $extra:expr) => {
        fn $name(c: &C) -> Result<(), String> {
            let mut f = vec![];
            faults_t(&c.t, $stage, &mut f);
            let unit = |_| ();
            verdict("Chunk::new", &f, $m::Chunk::new(c.line, $var(&c.t)).map(|x| assert!(x == $m::Chunk::new_unchecked(c.line, $var(&c.t)))))?;
            verdict("Chunk::validate", &f, $m::Chunk::new_unchecked(c.line, $var(&c.t)).validate())?;
            verdict("ChunkVariant::validate", &f, $var(&c.t).validate())?;
            match &c.t {
                T::Cmd(k) => {
                    verdict("Command::new", &f, $m::Command::new(k.label.clone(), $args(&k.args)).map(|x| {
                        assert!(x == $m::Command::new_unchecked(k.label.clone(), $args(&k.args)))
                    }))?;
                    verdict("Command::validate", &f, $m::Command::new_unchecked(k.label.clone(), $args(&k.args)).validate())
                }
                T::Scope(s) => {
                    let v = match s.v {
                        '{' => $m::ScopeVariant::Curly,
                        '(' => $m::ScopeVariant::Round,
                        _ => $m::ScopeVariant::Square,
                    };
                    verdict("Scope::validate", &f, $m::Scope::new_unchecked($chunks(&s.ch), v).validate())?;
                    verdict("Scope::new", &f, $m::Scope::new($chunks(&s.ch), v).map(unit))
                }
                $t => {
                    let $f = &f;
                    $extra
                }
            }
        }
    };
}

check_nodes!(nodes1, ast1, 1, var1, bargs1, b1, v1, |_t, _f| Ok(()));
check_nodes!(nodes2, ast2, 2, var2, bargs2, b2, v2, |t, f| match t {
    T::Env(e) => {
        let parts = || (e.label.clone(), bargs2(&e.args), b2(&e.content), e.pb.clone(), e.pe.clone());
        let (a, b, c, d, g) = parts();
        verdict("Environment::new", f, ast2::Environment::new(a, b, c, d, g).map(|_| ()))?;
        let (a, b, c, d, g) = parts();
        verdict("Environment::validate", f, ast2::Environment::new_unchecked(a, b, c, d, g).validate())
    }
    _ => Ok(()),
});
check_nodes!(nodes3, ast3, 3, var3, bargs3, b3, v3, |t, f| match t {
    T::Env(e) => {
        let parts = || (e.label.clone(), bargs3(&e.args), b3(&e.content), e.pb.clone(), e.pe.clone());
        let (a, b, c, d, g) = parts();
        verdict("Environment::new", f, ast3::Environment::new(a, b, c, d, g).map(|_| ()))?;
        let (a, b, c, d, g) = parts();
        verdict("Environment::validate", f, ast3::Environment::new_unchecked(a, b, c, d, g).validate())
    }
    T::Maths(m) => {
        let v = || if m.brackets { ast3::MathsVariant::Brackets } else { ast3::MathsVariant::Dollars };
        let ty = || if m.display { ast3::MathsType::Outline } else { ast3::MathsType::Inline };
        verdict("MathsBlock::new", f, ast3::MathsBlock::new(v(), ty(), b3(&m.content)).map(|_| ()))?;
        verdict("MathsBlock::validate", f, ast3::MathsBlock::new_unchecked(v(), ty(), b3(&m.content)).validate())
    }
    _ => Ok(()),
});

pub fn build_doc3(parts: &[Vec<C>; 3], a: &Around) -> ast3::Document {
    ast3::Document::new_unchecked(
        b3(&parts[0]),
        a.class.clone(),
        a.opts.clone(),
        b3(&parts[1]),
        bargs3(&a.args),
        a.begin.clone(),
        a.end.clone(),
        b3(&parts[2]),
    )
}

pub fn text_inert(s: &str) -> O {
    let mut some = false;
    if s.is_empty() {
        return O::Held(false);
    }
    macro_rules! stage {
        ($k:expr, $m:ident, |$d:ident| $chunks:expr) => {{
            let v = $m::ChunkVariant::Text(s.to_string());
            let f = text_faults(s, $k);
            if let Err(e) = verdict(&format!("stage-{} text", $k), &f, v.validate()) {
                viol!("{}", e)
            }
            if f.is_empty() {
                some = true;
                match guard(|| $m::Document::from_str(s)) {
                    Ok(Ok($d)) if $chunks == [$m::Chunk::new_unchecked(1, v)] => {}
                    x => viol!("the valid stage-{} text is read back as {:?}", $k, x),
                }
            }
        }};
    }
    stage!(1, ast1, |d| d.chunks()[..]);
    stage!(2, ast2, |d| d.chunks()[..]);
    stage!(3, ast3, |d| d.chunks_preamable()[..]);
    O::Held(some)
}

pub fn c18(script: &str) -> Seen {
    if let Some(t) = script.strip_prefix("T:") {
        let c = Case::new(t);
        return Seen { o: text_inert(t), state: crate::textprops::state(&c) };
    }
    let Some(s) = script.strip_prefix("B:") else { return Seen { o: O::Held(false), state: 0 } };
    let b = read(s);
    let r = guard(|| -> Result<(), String> {
        let all: Vec<C> = b.parts.iter().flatten().cloned().collect();
        let whole = &b.parts[0];
        let min = stage_of(&all);
        let single = b.parts[1].is_empty() && b.parts[2].is_empty();
        if single {
            if min <= 1 {
                let mut f = vec![];
                section_faults(whole, 1, &mut f);
                verdict("ast1 Document::new", &f, ast1::Document::new(b1(whole)).map(|_| ()))?;
                verdict("ast1 Document::validate", &f, ast1::Document::new_unchecked(b1(whole)).validate())?;
            }
            if min <= 2 {
                let mut f = vec![];
                section_faults(whole, 2, &mut f);
                verdict("ast2 Document::new", &f, ast2::Document::new(b2(whole)).map(|_| ()))?;
                verdict("ast2 Document::validate", &f, ast2::Document::new_unchecked(b2(whole)).validate())?;
            }
            if let Some(c) = whole.last() {
                if min <= 1 {
                    nodes1(c)?
                }
                if min <= 2 {
                    nodes2(c)?
                }
                nodes3(c)?
            }
        }
        // every rotation of the sections
        for k in 0..3 {
            let parts = [b.parts[k].clone(), b.parts[(k + 1) % 3].clone(), b.parts[(k + 2) % 3].clone()];
            let mut f = vec![];
            for p in &parts {
                section_faults(p, 3, &mut f)
            }
            args_faults_pub(&b.around.args, 3, &mut f);
            verdict("ast3 Document::validate", &f, build_doc3(&parts, &b.around).validate())?;
            verdict(
                "ast3 Document::new",
                &f,
                ast3::Document::new(
                    b3(&parts[0]),
                    Some("c".into()),
                    b.around.opts.clone(),
                    b3(&parts[1]),
                    bargs3(&b.around.args),
                    b.around.begin.clone(),
                    b.around.end.clone(),
                    b3(&parts[2]),
                )
                .map(|_| ()),
            )?;
        }
        // as an argument of the body
        let mut f = vec![];
        faults(&all, 3, &mut f);
        let args = vec![("".to_string(), Sc { v: '{', line: 1, ch: all.clone() })];
        let around = Around { args, ..Default::default() };
        verdict("ast3 Document::validate (body argument)", &f, build_doc3(&Default::default(), &around).validate())
    });
    let o = match r {
        Err(p) => O::Viol(format!("validation panics: {p}")),
        Ok(Err(e)) => O::Viol(e),
        Ok(Ok(())) => O::Held(!s.is_empty()),
    };
    Seen { o, state: shape(&b) }
}

pub fn shape(b: &Built) -> u64 {
    b.parts.iter().fold(b.lines_ok as u64, |h, p| mix(h, crate::textprops::skeleton(p)))
}

/* ---------- C21 ---------- */

fn lines_follow(what: &str, cs: &[(u32, String)]) -> Result<(), String> {
    let mut line = 1;
    for (l, p) in cs {
        if *l != line {
            return Err(format!("{what}: the chunk {p:?} has line {l} instead of {line}"));
        }
        line += nls(p);
    }
    Ok(())
}

pub fn c21(script: &str) -> Seen {
    let b = read(script);
    let state = shape(&b);
    let all: Vec<C> = b.parts.iter().flatten().cloned().collect();
    let min = stage_of(&all);
    let mut some = false;
    let r = guard(|| -> Result<(), String> {
        if min <= 2 && b.parts[1].is_empty() && b.parts[2].is_empty() {
            let mut f = vec![];
            section_faults(&b.parts[0], 2, &mut f);
            if f.is_empty() {
                some = true;
                let d = ast2::Document::new_unchecked(b2(&b.parts[0]));
                let p = d.to_string();
                down21(d, &p)?;
                down_node(&b.parts[0], 2)?;
            }
        }
        let mut f = vec![];
        for p in &b.parts {
            section_faults(p, 3, &mut f)
        }
        args_faults_pub(&b.around.args, 3, &mut f);
        if f.is_empty() {
            some = true;
            let d = build_doc3(&b.parts, &b.around);
            let p = d.to_string();
            down_node(&b.parts[0], 3)?;
            let low = ast2::Document::from(d);
            if low.to_string() != p {
                return Err(format!("stage 3 prints {p:?}, converted to stage 2 {:?}", low.to_string()));
            }
            lines_follow("stage 3 to 2", &low.chunks().iter().map(|c| (c.line_no(), c.to_string())).collect::<Vec<_>>())?;
            low.validate().map_err(|e| format!("the stage-2 tree does not validate: {e:?}"))?;
            down21(low, &p)?;
            // also without header layout
            let d = ast3::Document::new_unchecked(
                b3(&b.parts[0]),
                None,
                vec![],
                b3(&b.parts[1]),
                vec![],
                String::new(),
                String::new(),
                b3(&b.parts[2]),
            );
            let p = d.to_string();
            let low = ast2::Document::from(d);
            if low.to_string() != p {
                return Err(format!("stage 3 prints {p:?}, converted to stage 2 {:?}", low.to_string()));
            }
            lines_follow("stage 3 to 2", &low.chunks().iter().map(|c| (c.line_no(), c.to_string())).collect::<Vec<_>>())?;
        }
        Ok(())
    });
    let o = match r {
        Err(p) => O::Viol(format!("conversion panics: {p}")),
        Ok(Err(e)) => O::Viol(e),
        Ok(Ok(())) => O::Held(some),
    };
    Seen { o, state }
}

/// the last chunk of a valid tree converted by itself
fn down_node(t: &[C], stage: u32) -> Result<(), String> {
    let Some(c) = t.last() else { return Ok(()) };
    let want = print(std::slice::from_ref(c));
    let run = |what: &str, cs: Vec<(u32, String)>, from: u32| -> Result<(), String> {
        let got: String = cs.iter().map(|x| x.1.as_str()).collect();
        if got != want {
            return Err(format!("{what} prints {want:?}, converted {got:?}"));
        }
        let mut line = from;
        for (l, p) in cs {
            if l != line {
                return Err(format!("{what}: the chunk {p:?} has line {l} instead of {line}"));
            }
            line += nls(&p);
        }
        Ok(())
    };
    let one = |what: &str, got: String| -> Result<(), String> {
        if got == want {
            Ok(())
        } else {
            Err(format!("{what} prints {want:?}, converted {got:?}"))
        }
    };
    macro_rules! chunks {
        ($cs:expr) => {
            $cs.iter().map(|c| (c.line_no(), c.to_string())).collect()
        };
    }
    if stage == 2 {
        let ch = || ast2::Chunk::new_unchecked(c.line, var2(&c.t));
        run("a stage-2 chunk", chunks!(ast1::IntoChunks::into_chunks(ch())), c.line)?;
        match &c.t {
            T::Cmd(k) => one(
                "a stage-2 command",
                ast1::Command::from(ast2::Command::new_unchecked(k.label.clone(), bargs2(&k.args))).to_string(),
            ),
            T::Scope(s) => {
                one("a stage-2 group", ast1::Scope::from(bsc2(s)).to_string())?;
                let low = bsc2(s).to_ast1_scope();
                lines_follow("a stage-2 group", &low.chunks().iter().map(|c| (c.line_no(), c.to_string())).collect::<Vec<_>>())?;
                let low = ast1::Scope::from(bsc2(s));
                lines_follow("a stage-2 group", &low.chunks().iter().map(|c| (c.line_no(), c.to_string())).collect::<Vec<_>>())?;
                one("a stage-2 group", low.to_string())
            }
            _ => Ok(()),
        }
    } else {
        let ch = || ast3::Chunk::new_unchecked(c.line, var3(&c.t));
        run("a stage-3 chunk", chunks!(ast2::IntoChunks::into_chunks(ch())), c.line)?;
        match &c.t {
            T::Cmd(k) => one(
                "a stage-3 command",
                ast2::Command::from(ast3::Command::new_unchecked(k.label.clone(), bargs3(&k.args))).to_string(),
            ),
            T::Scope(s) => {
                let low = ast2::Scope::from(bsc3(s));
                lines_follow("a stage-3 group", &low.chunks().iter().map(|c| (c.line_no(), c.to_string())).collect::<Vec<_>>())?;
                one("a stage-3 group", low.to_string())
            }
            T::Env(e) => one(
                "a stage-3 environment",
                ast2::Environment::from(ast3::Environment::new_unchecked(
                    e.label.clone(),
                    bargs3(&e.args),
                    b3(&e.content),
                    e.pb.clone(),
                    e.pe.clone(),
                ))
                .to_string(),
            ),
            T::Maths(m) => {
                let v = if m.brackets { ast3::MathsVariant::Brackets } else { ast3::MathsVariant::Dollars };
                let ty = if m.display { ast3::MathsType::Outline } else { ast3::MathsType::Inline };
                let low = ast2::IntoChunks::into_chunks(ast3::MathsBlock::new_unchecked(v, ty, b3(&m.content)));
                run("a maths block", chunks!(low), 1)
            }
            _ => Ok(()),
        }
    }
}

fn down21(d: ast2::Document, p: &str) -> Result<(), String> {
    let low = ast1::Document::from(d);
    if low.to_string() != p {
        return Err(format!("stage 2 prints {p:?}, converted to stage 1 {:?}", low.to_string()));
    }
    lines_follow("stage 2 to 1", &low.chunks().iter().map(|c| (c.line_no(), c.to_string())).collect::<Vec<_>>())?;
    low.validate().map_err(|e| format!("the stage-1 tree does not validate: {e:?}"))
}

/* ---------- C11 on hand-built trees ---------- */

pub fn c11(script: &str) -> Seen {
    if let Some(t) = script.strip_prefix("T:") {
        let c = Case::new(t);
        let o = crate::textprops::c11(&c);
        return Seen { o, state: crate::textprops::state(&c) };
    }
    let Some(s) = script.strip_prefix("B:") else { return Seen { o: O::Held(false), state: 0 } };
    let b = read(s);
    let all: Vec<C> = b.parts.iter().flatten().cloned().collect();
    let min = stage_of(&all);
    let r = guard(|| -> Result<(), String> {
        use crate::textprops::*;
        if b.parts[1].is_empty() && b.parts[2].is_empty() {
            if min <= 1 {
                lines_doc1(&ast1::Document::new_unchecked(b1(&all)))?
            }
            if min <= 2 {
                lines_doc2(&ast2::Document::new_unchecked(b2(&all)))?
            }
        }
        lines_doc3(&build_doc3(&b.parts, &b.around))?;
        lines_doc3(&build_doc3(&b.parts, &Around { args: vec![], ..Default::default() }))?;
        let (mut d, args) = (ast3::Document::default(), vec![]);
        lines_doc3(&d)?;
        for c in b3(&b.parts[0]) {
            d.push_body_chunk_unchecked(c)
        }
        lines_doc3(&d)?;
        let (c, o, p, y, _, x, z, t) = d.decompose();
        lines_doc3(&ast3::Document::new_unchecked(p, c, o, y, args, x, z, t))
    });
    let o = match r {
        Err(p) => O::Viol(format!("counting lines panics: {p}")),
        Ok(Err(e)) => O::Viol(e),
        Ok(Ok(())) => O::Held(print(&all).contains('\n')),
    };
    Seen { o, state: shape(&b) }
}

#[allow(dead_code)]
fn keep(_: Diff) {}
