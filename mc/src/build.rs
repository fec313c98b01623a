//! Trees built by hand: a small stack-machine language whose every script denotes a tree, the
//! constructors that turn it into the implementation's types, and what makes such a tree valid.

use crate::spec::*;
use latex_ast::{ast1, ast2, ast3, InternalError};

enum Frame {
    Scope(char),
    Arg(&'static str, &'static str, char),
    Env(&'static str),
    /// an environment with other things than whitespace before its label
    OddEnv,
    EnvArg(&'static str),
    Maths(bool, bool),
    /// the last of many arguments
    LastArg,
}

/// the symbols of the language
pub const LEAVES: &[(char, &str)] = &[
    ('a', "a"), ('n', "\n"), ('p', "\n \n"), ('e', ""), ('u', "\u{e9}\u{2028}"), ('s', " "), ('%', "%"), ('\\', "b\\"),
    ('[', "["), (')', ")a"), ('}', "}"), ('{', "a{"), ('$', "$"), ('w', "a\n\nb"), ('r', "a\nb\n"),
];
pub const CMDS: &[(char, &str)] = &[
    ('c', "c"), ('d', "dd*"), (',', ","), ('E', ""), ('1', "\\"), ('2', "%"), ('3', "a{"), ('4', "begin"), ('5', "end"),
    ('6', "\u{e9}%"), ('7', "\n"), ('8', "\u{e9}"), ('9', "a]"),
];
pub const PARS: &[(char, &str)] = &[('P', "\n\n"), ('Q', "\n"), ('R', "\na\n"), ('S', " \n\t\n "), ('V', "")];
pub const OPENS: &str = "<(AB:XYZWMNOKIHJUC";
/// whole nodes that mean something to the stage above, or are big
pub const WHOLE: &str = "bfghjixyzDGmoqtvklL";

fn whole(s: char) -> Option<T> {
    let sc = |v: char, t: &str| Sc { v, line: 1, ch: if t.is_empty() { vec![] } else { vec![C { line: 1, t: T::Text(t.into()) }] } };
    let cmd = |l: &str, args: Vec<(&str, char, &str)>| {
        Some(T::Cmd(Cmd { label: l.into(), args: args.into_iter().map(|(p, v, t)| (p.to_string(), sc(v, t))).collect() }))
    };
    match s {
        'b' => cmd("begin", vec![("", '{', "x")]),
        'f' => cmd("end", vec![("", '{', "x")]),
        'g' => cmd("begin", vec![("\n", '{', "y"), ("", '[', "o\n")]),
        'h' => cmd("end", vec![(" \n", '{', "y")]),
        'j' => cmd("end", vec![("", '{', "x"), ("", '{', "")]),
        'i' => cmd("begin", vec![("", '[', "x")]),
        'x' => cmd("documentclass", vec![("", '{', "c")]),
        'y' => cmd("documentclass", vec![("", '[', "o=v,\n"), ("\n", '{', "")]),
        'z' => cmd("documentclass", vec![(" ", '(', "p\n")]),
        'D' => cmd("begin", vec![("", '{', "document"), ("\n", '{', "$\n$")]),
        'G' => cmd("end", vec![("\n", '{', "document")]),
        'm' => Some(T::Text("a$\nb".into())),
        'o' => Some(T::Text("$$".into())),
        'q' => cmd("(", vec![]),
        't' => cmd(")", vec![]),
        'v' => cmd("[", vec![]),
        'k' => cmd("]", vec![]),
        'l' => cmd("l", (0..11).map(|i| ("\n", ['[', '{', '('][i % 3], "i")).collect()),
        'L' => Some(T::Text("\n".repeat(300))),
        'T' => Some(T::Text("\n".repeat(70000))),
        _ => None,
    }
}

pub struct Built {
    /// preamble, body, trailing part (or all in the first)
    pub parts: [Vec<C>; 3],
    /// the lines given to top-level chunks follow from one another
    pub lines_ok: bool,
    pub around: Around,
}

/// What a stage-3 document has besides its three parts.
#[derive(Clone)]
pub struct Around {
    pub class: Option<String>,
    pub opts: Vec<(String, String, Option<(String, String, String)>, String)>,
    pub args: Vec<(String, Sc)>,
    pub begin: String,
    pub end: String,
}

impl Default for Around {
    fn default() -> Self {
        let arg = Sc { v: '[', line: 1, ch: vec![C { line: 1, t: T::Text("o\n".into()) }] };
        Around { class: None, opts: vec![], args: vec![("\n".into(), arg)], begin: "\n".into(), end: " \n".into() }
    }
}

/// how many places `placed` knows
pub const PLACES: usize = 29;
/// and how many more that are in, or after, a great many nodes
pub const LONG_PLACES: usize = 14;
const MANY: usize = 270;

/// A tree that has a string in the given place.
fn placed(k: usize, s: &str) -> Built {
    let own = || s.to_string();
    let text = |s: &str| T::Text(s.into());
    let list = |ts: Vec<T>| {
        let mut v: Vec<C> = vec![];
        for t in ts {
            let line = 1 + nls(&print(&v));
            v.push(C { line, t })
        }
        v
    };
    let sc = |v: char, ts: Vec<T>| Sc { v, line: 1, ch: list(ts) };
    let cmd = |l: &str, args: Vec<(&str, Sc)>| T::Cmd(Cmd { label: l.into(), args: args.into_iter().map(|(p, s)| (p.to_string(), s)).collect() });
    let env = |l: &str, args: Vec<(&str, Sc)>, pb: &str, pe: &str, ts: Vec<T>| {
        let args = args.into_iter().map(|(p, s)| (p.to_string(), s)).collect();
        T::Env(Box::new(Env { label: l.into(), args, content: list(ts), pb: pb.into(), pe: pe.into(), cline: 1 }))
    };
    let maths = |brackets, display, ts: Vec<T>| T::Maths(Maths { brackets, display, content: list(ts) });
    let par = |s: &str| T::Par(s.into());
    let c = || cmd("c", vec![]);
    let mut around = Around::default();
    let mut parts: [Vec<C>; 3] = Default::default();
    parts[0] = list(match k {
        0 => vec![text(s)],
        1 => vec![par(s)],
        2 => vec![cmd(s, vec![])],
        3 => vec![cmd(s, vec![("", sc('{', vec![text("a")])), ("", sc('[', vec![]))]), text(".")],
        4 => vec![cmd("c", vec![(s, sc('{', vec![text("a")]))]), c()],
        5 => vec![c(), cmd("c", vec![("", sc('{', vec![])), (s, sc('[', vec![text("\n")])), (s, sc('(', vec![]))])],
        6 => vec![cmd("c", vec![("", sc('[', vec![text(s)]))]), c()],
        7 => vec![T::Scope(sc('(', vec![text(s)])), c()],
        8 => vec![env(s, vec![], "", "", vec![text("a")]), c()],
        9 => vec![env(s, vec![("", sc('{', vec![text("\n")]))], "\n", "\n", vec![text("a"), c(), T::Scope(sc('{', vec![]))]), c()],
        10 => vec![env("x", vec![(s, sc('{', vec![text("b")]))], "", "", vec![c()]), c()],
        11 => vec![env("x", vec![("", sc('[', vec![text(s)])), (s, sc('{', vec![]))], "", "", vec![c(), text("a")]), c()],
        12 => vec![env("x", vec![], s, "", vec![c()]), c()],
        13 => vec![env("x", vec![], "", s, vec![text("a"), c()]), c()],
        14 => vec![env("x", vec![], "", "", vec![text(s), c(), text(s)]), c()],
        15 => vec![maths(false, false, vec![text(s)]), c()],
        16 => vec![maths(false, true, vec![c(), text(s)]), text("\na")],
        17 => vec![maths(true, true, vec![text(s), c()]), text("a")],
        18 => vec![text("a"), c(), text(s), T::Scope(sc('{', vec![]))],
        19 => vec![par(s), c(), par(s), text("a")],
        20 => vec![c(), text(s), par("\n\n"), text("a")],
        21 => vec![maths(false, false, vec![par(s), text("a")]), T::Scope(sc('{', vec![par(s)]))],
        22 => vec![T::Scope(sc('[', vec![text(s), maths(true, false, vec![]), text(s)])), c()],
        27 => vec![text("a"), text(s), c(), text(s), text(s)],
        29..43 => {
            let many = |f: &dyn Fn() -> T| (0..MANY).flat_map(|_| [f(), c()]).collect::<Vec<T>>();
            let texts = || many(&|| text(s));
            match k {
                29 => vec![T::Scope(sc('{', texts())), c()],
                30 => vec![env("x", vec![], "", "", texts()), c()],
                31 => vec![maths(false, false, texts()), c()],
                32 => vec![cmd("c", vec![("", sc('{', texts())), ("\n", sc('[', vec![text("a")]))]), c()],
                33 => vec![env("x", vec![("", sc('{', texts()))], "", "\n", vec![text("a")]), c()],
                34 | 35 | 36 => texts(),
                37 => many(&|| cmd(s, vec![("", sc('{', vec![text("a\n")]))])),
                38 => vec![cmd("c", (0..MANY).map(|_| (s, sc('[', vec![text("a")]))).collect()), c()],
                39 => vec![T::Scope(sc('(', many(&|| text("a")).into_iter().chain([text(s), c(), text("\n")]).collect())), c()],
                40 => many(&|| env(s, vec![], "\n", "", vec![text("a")])),
                41 => vec![T::Scope(sc('{', many(&|| par(s)))), c()],
                _ => vec![env("x", (0..MANY).map(|_| (s, sc('{', vec![text("a")]))).collect(), "", "", vec![text("a"), c()]), c()],
            }
        }
        28 => vec![text(s), text("a"), T::Scope(sc('{', vec![text(s), text("a\n"), text(s)]))],
        _ => vec![text("a\n")],
    });
    match k {
        35 => parts.swap(0, 1),
        36 => parts.swap(0, 2),
        _ => {}
    }
    match k {
        23 => around.begin = own(),
        24 => around.end = own(),
        25 => around.args = vec![(own(), sc('{', vec![text("a")])), (String::new(), sc('[', vec![text(s)])), (own(), sc('(', vec![]))],
        26 => {
            around.class = Some(own());
            around.opts = vec![
                (own(), "a".into(), None, "".into()),
                ("".into(), own(), Some((own(), "".into(), "".into())), "".into()),
                ("".into(), "".into(), Some(("".into(), own(), "b".into())), own()),
                ("".into(), "".into(), Some(("".into(), "".into(), own())), "".into()),
            ]
        }
        _ => {}
    }
    if (23..=26).contains(&k) {
        parts[1] = list(vec![text("b"), c()]);
        parts[2] = list(vec![c(), text("\n")]);
    }
    Built { parts, lines_ok: true, around }
}

/// Reads a script; every script is a tree. `@k@s` is a tree with the string s in place k.
pub fn read(script: &str) -> Built {
    if let Some((k, s)) = script.strip_prefix('@').and_then(|x| x.split_once('@')) {
        if let Ok(k) = k.parse() {
            return placed(k, s);
        }
    }
    let mut parts: [Vec<C>; 3] = Default::default();
    let mut part = 0;
    let mut stack: Vec<(Frame, Vec<C>)> = vec![];
    let mut cur: Vec<C> = vec![];
    let mut off = 0;
    let mut lines_ok = true;

    fn next_line(cur: &[C]) -> u32 {
        1 + nls(&print(cur))
    }
    fn close(stack: &mut Vec<(Frame, Vec<C>)>, cur: &mut Vec<C>) {
        if let Some((f, outer)) = stack.pop() {
            let ch = std::mem::replace(cur, outer);
            let sc = |v: char, ch: Vec<C>| Sc { v, line: 1, ch };
            let one = |s: &str| vec![C { line: 1, t: T::Text(s.into()) }];
            let env = |l: &str, args, content| {
                T::Env(Box::new(Env { label: l.into(), args, content, pb: "\n".into(), pe: " ".into(), cline: 1 }))
            };
            let t = match f {
                Frame::Scope(v) => T::Scope(sc(v, ch)),
                Frame::Arg(l, p, v) => T::Cmd(Cmd { label: l.into(), args: vec![(p.into(), sc(v, ch))] }),
                Frame::Env(l) => env(l, vec![], ch),
                Frame::OddEnv => T::Env(Box::new(Env {
                    label: "u".into(),
                    args: vec![("=".into(), sc('(', one("\n")))],
                    content: ch,
                    pb: "p\n".into(),
                    pe: "\n=\n".into(),
                    cline: 1,
                })),
                Frame::EnvArg(l) => env(l, vec![(String::new(), sc('[', one("o\n"))), ("\n".into(), sc('{', ch))], one("b\n")),
                Frame::LastArg => {
                    let mut args: Vec<(String, Sc)> = (0..10).map(|_| ("\n".to_string(), sc('{', one("i")))).collect();
                    args.push((" ".into(), sc('[', ch)));
                    T::Cmd(Cmd { label: "m".into(), args })
                }
                Frame::Maths(b, d) => T::Maths(Maths { brackets: b, display: d, content: ch }),
            };
            let line = next_line(cur);
            cur.push(C { line, t });
        }
    }

    for s in script.chars() {
        let off_here = if stack.is_empty() { off } else { 0 };
        if let Some((_, x)) = LEAVES.iter().find(|l| l.0 == s) {
            let line = next_line(&cur) + off_here;
            cur.push(C { line, t: T::Text(x.to_string()) });
        } else if let Some((_, x)) = CMDS.iter().find(|l| l.0 == s) {
            let line = next_line(&cur) + off_here;
            cur.push(C { line, t: T::Cmd(Cmd { label: x.to_string(), args: vec![] }) });
        } else if let Some((_, x)) = PARS.iter().find(|l| l.0 == s) {
            let line = next_line(&cur) + off_here;
            cur.push(C { line, t: T::Par(x.to_string()) });
        } else if let Some(t) = whole(s) {
            let line = next_line(&cur) + off_here;
            cur.push(C { line, t });
        } else {
            let f = match s {
                'J' => Frame::Arg("g", "-\n.", '('),
                'U' => Frame::OddEnv,
                'C' => Frame::Maths(true, false),
                '<' => Frame::Scope('{'),
                '(' => Frame::Scope('('),
                ':' => Frame::Scope('['),
                'A' => Frame::Arg("c", "", '{'),
                'B' => Frame::Arg("f", "\n ", '['),
                'K' => Frame::Arg("begin", "", '('),
                'X' => Frame::Env("x"),
                'Y' => Frame::EnvArg("y\n"),
                'Z' => Frame::Env("z%"),
                'W' => Frame::Env("\\"),
                'I' => Frame::LastArg,
                'H' => Frame::Env("document"),
                'M' => Frame::Maths(false, false),
                'N' => Frame::Maths(true, true),
                'O' => Frame::Maths(false, true),
                '.' => {
                    close(&mut stack, &mut cur);
                    continue;
                }
                '+' => {
                    // the next leaf at the top gets a wrong line
                    if stack.is_empty() {
                        off = 1
                    }
                    continue;
                }
                '|' => {
                    while !stack.is_empty() {
                        close(&mut stack, &mut cur)
                    }
                    if part < 2 {
                        parts[part] = std::mem::take(&mut cur);
                        part += 1
                    }
                    continue;
                }
                _ => continue,
            };
            stack.push((f, std::mem::take(&mut cur)));
            continue;
        }
        if off_here == 1 {
            off = 0;
            lines_ok = false
        }
    }
    while !stack.is_empty() {
        close(&mut stack, &mut cur)
    }
    parts[part] = cur;
    Built { parts, lines_ok, around: Around::default() }
}

/// the lowest stage that has all the kinds of nodes in the tree
pub fn stage_of(cs: &[C]) -> u32 {
    let mut st = 1;
    any_node(cs, &mut |c| {
        st = st.max(match c.t {
            T::Env(_) => 2,
            T::Par(_) | T::Maths(_) => 3,
            _ => 1,
        });
        false
    });
    st
}

/// The same tree with lines counted from the start of the whole, as the reference grammar has them.
pub fn absolute(cs: &[C]) -> Vec<C> {
    let mut line = 1;
    abs(cs, &mut line)
}

fn abs_args(a: &[(String, Sc)], line: &mut u32) -> Vec<(String, Sc)> {
    a.iter()
        .map(|(p, s)| {
            *line += nls(p);
            (p.clone(), abs_sc(s, line))
        })
        .collect()
}

fn abs_sc(s: &Sc, line: &mut u32) -> Sc {
    Sc { v: s.v, line: *line, ch: abs(&s.ch, line) }
}

fn abs(cs: &[C], line: &mut u32) -> Vec<C> {
    cs.iter()
        .map(|c| {
            let at = *line;
            let t = match &c.t {
                T::Text(s) | T::Par(s) => {
                    *line += nls(s);
                    c.t.clone()
                }
                T::Cmd(k) => T::Cmd(Cmd { label: k.label.clone(), args: {
                    *line += nls(&k.label);
                    abs_args(&k.args, line)
                } }),
                T::Scope(s) => T::Scope(abs_sc(s, line)),
                T::Env(e) => {
                    *line += nls(&e.pb) + nls(&e.label);
                    let args = abs_args(&e.args, line);
                    let cline = *line;
                    let content = abs(&e.content, line);
                    *line += nls(&e.pe) + nls(&e.label);
                    T::Env(Box::new(Env { args, content, cline, ..(**e).clone() }))
                }
                T::Maths(m) => T::Maths(Maths { content: abs(&m.content, line), ..m.clone() }),
                T::Opaque(_) => unreachable!(),
            };
            C { line: at, t }
        })
        .collect()
}

/// no empty text and no two texts in a row, at any level
pub fn canonical(cs: &[C]) -> bool {
    let args = |a: &[(String, Sc)]| a.iter().all(|(_, s)| canonical(&s.ch));
    cs.windows(2).all(|w| !matches!((&w[0].t, &w[1].t), (T::Text(_), T::Text(_))))
        && cs.iter().all(|c| match &c.t {
            T::Text(s) => !s.is_empty(),
            T::Par(_) | T::Opaque(_) => true,
            T::Cmd(k) => args(&k.args),
            T::Scope(s) => canonical(&s.ch),
            T::Env(e) => args(&e.args) && canonical(&e.content),
            T::Maths(m) => canonical(&m.content),
        })
}

/* ---------- construction ---------- */

macro_rules! variants {
    ($m:ident, $f:ident) => {
        fn $f(c: char) -> $m::ScopeVariant {
            match c {
                '{' => $m::ScopeVariant::Curly,
                '(' => $m::ScopeVariant::Round,
                _ => $m::ScopeVariant::Square,
            }
        }
    };
}
variants!(ast1, v1);
variants!(ast2, v2);
variants!(ast3, v3);

macro_rules! builder {
    ($m:ident, $v:ident, $sc:ident, $args:ident, $chunks:ident, $var:ident, |$x:ident| $extra:expr) => {
        pub fn $sc(s: &Sc) -> $m::Scope {
            $m::Scope::new_unchecked($chunks(&s.ch), $v(s.v))
        }
        pub fn $args(a: &[(String, Sc)]) -> Vec<(String, $m::Scope)> {
            a.iter().map(|(p, s)| (p.clone(), $sc(s))).collect()
        }
        pub fn $var(t: &T) -> $m::ChunkVariant {
            match t {
                T::Text(s) => $m::ChunkVariant::Text(s.clone()),
                T::Cmd(k) => $m::ChunkVariant::Command($m::Command::new_unchecked(k.label.clone(), $args(&k.args))),
                T::Scope(s) => $m::ChunkVariant::Scope($sc(s)),
                $x => $extra,
            }
        }
        pub fn $chunks(cs: &[C]) -> Vec<$m::Chunk> {
            cs.iter().map(|c| $m::Chunk::new_unchecked(c.line, $var(&c.t))).collect()
        }
    };
}

builder!(ast1, v1, bsc1, bargs1, b1, var1, |_x| unreachable!());
builder!(ast2, v2, bsc2, bargs2, b2, var2, |x| match x {
    T::Env(e) => ast2::ChunkVariant::Environment(ast2::Environment::new_unchecked(
        e.label.clone(),
        bargs2(&e.args),
        b2(&e.content),
        e.pb.clone(),
        e.pe.clone(),
    )),
    _ => unreachable!(),
});
builder!(ast3, v3, bsc3, bargs3, b3, var3, |x| match x {
    T::Env(e) => ast3::ChunkVariant::Environment(ast3::Environment::new_unchecked(
        e.label.clone(),
        bargs3(&e.args),
        b3(&e.content),
        e.pb.clone(),
        e.pe.clone(),
    )),
    T::Par(s) => ast3::ChunkVariant::ParagraphBreak(s.clone()),
    T::Maths(m) => ast3::ChunkVariant::MathsBlock(ast3::MathsBlock::new_unchecked(
        if m.brackets { ast3::MathsVariant::Brackets } else { ast3::MathsVariant::Dollars },
        if m.display { ast3::MathsType::Outline } else { ast3::MathsType::Inline },
        b3(&m.content),
    )),
    _ => unreachable!(),
});

/* ---------- validity ---------- */

fn special(c: char) -> bool {
    matches!(c, '\\' | '%' | '{' | '}' | '(' | ')' | '[' | ']')
}

pub fn text_faults(s: &str, stage: u32) -> Vec<InternalError> {
    let mut v: Vec<InternalError> = s
        .chars()
        .filter(|c| special(*c) || (stage == 3 && *c == '$'))
        .map(InternalError::UnsanitisedCharInString)
        .collect();
    if stage == 3 && blank_line(s) {
        v.push(InternalError::UnbrokenParagraph);
    }
    v
}

pub fn blank_line(s: &str) -> bool {
    s.split(|c: char| !c.is_whitespace()).any(|w| w.matches('\n').count() >= 2)
}

fn args_faults(a: &[(String, Sc)], stage: u32, out: &mut Vec<InternalError>) {
    for (_, s) in a {
        faults(&s.ch, stage, out)
    }
}

/// everything wrong with the nodes, whatever their lines
pub fn faults(cs: &[C], stage: u32, out: &mut Vec<InternalError>) {
    for c in cs {
        faults_t(&c.t, stage, out)
    }
}

pub fn args_faults_pub(a: &[(String, Sc)], stage: u32, out: &mut Vec<InternalError>) {
    args_faults(a, stage, out)
}

pub fn faults_t(t: &T, stage: u32, out: &mut Vec<InternalError>) {
    match t {
        T::Text(s) => out.append(&mut text_faults(s, stage)),
        T::Par(s) => {
            if s.chars().any(|c| !c.is_whitespace()) {
                out.push(InternalError::ParagraghBreakNonwhitespace)
            }
            if s.matches('\n').count() < 2 {
                out.push(InternalError::ParagraphBreakTooShort)
            }
        }
        T::Cmd(k) => {
            if stage > 1 {
                match k.label.as_str() {
                    "begin" => out.push(InternalError::BeginCommand),
                    "end" => out.push(InternalError::EndCommand),
                    _ => {}
                }
            }
            if k.label.len() != 1 {
                out.extend(k.label.chars().filter(|c| special(*c)).map(InternalError::UnsanitisedCharInString))
            }
            args_faults(&k.args, stage, out)
        }
        T::Scope(s) => faults(&s.ch, stage, out),
        T::Env(e) => {
            out.extend(e.label.chars().filter(|c| special(*c)).map(InternalError::UnsanitisedCharInString));
            args_faults(&e.args, stage, out);
            faults(&e.content, stage, out)
        }
        T::Maths(m) => faults(&m.content, stage, out),
        T::Opaque(_) => unreachable!(),
    }
}

/// faults of a list of chunks as a document section: also the lines
pub fn section_faults(cs: &[C], stage: u32, out: &mut Vec<InternalError>) {
    faults(cs, stage, out);
    let mut line = 1;
    for c in cs {
        if c.line != line {
            out.push(InternalError::IncorrectChunkLineNumber { expected: line, got: c.line });
        }
        line += nls(&print(std::slice::from_ref(c)));
    }
}
