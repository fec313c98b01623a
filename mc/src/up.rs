//! Conversion of hand-built trees to the stage above, taking nodes apart, printing of arbitrary
//! trees, and independence of results from earlier calls.

use crate::api::shape;
use crate::build::*;
use crate::ext::*;
use crate::run::{mix, Seen};
use crate::spec::*;
use crate::textprops::{guard, state, Case, O};
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, Error};
use std::str::FromStr;
use std::sync::OnceLock;

macro_rules! viol {
    ($($a:tt)*) => { return O::Viol(format!($($a)*)) };
}

fn verdict(r: Result<Result<bool, String>, String>) -> O {
    match r {
        Err(p) => O::Viol(format!("panics: {p}")),
        Ok(Err(e)) => O::Viol(e),
        Ok(Ok(x)) => O::Held(x),
    }
}

/* ---------- C24 ---------- */

fn text_up(c: &Case) -> O {
    let mut some = false;
    if let Ok(Ok(d)) = c.r1() {
        let up = guard(|| ast2::Document::try_from(d.clone()));
        if &up != c.r2() {
            viol!("the stage-1 tree converts to {:?}, stage 2 parses the text to {:?}", up, c.r2())
        }
        some = true;
    }
    if let Ok(Ok(d)) = c.r2() {
        let up = guard(|| ast3::Document::try_from(d.clone()));
        if &up != c.r3() {
            viol!("the stage-2 tree converts to {:?}, stage 3 parses the text to {:?}", up, c.r3())
        }
    }
    O::Held(some)
}

fn fault(what: &str, want: &Errs, got: &Error) -> Result<(), String> {
    let (line, kind) = err(got);
    if want.iter().any(|x| x.0 == line && x.1 == kind) {
        Ok(())
    } else {
        Err(format!("{what} fails with {got:?}, the faults are {want:?}"))
    }
}

fn follow(what: &str, cs: &[(u32, String)]) -> Result<(), String> {
    let mut line = 1;
    for (l, p) in cs {
        if *l != line {
            return Err(format!("{what}: the chunk {p:?} has line {l} instead of {line}"));
        }
        line += nls(p);
    }
    Ok(())
}

macro_rules! pairs {
    ($cs:expr) => {
        $cs.iter().map(|c| (c.line_no(), c.to_string())).collect::<Vec<_>>()
    };
}

fn tree_up(t: &[C]) -> Result<bool, String> {
    let min = stage_of(t);
    let abs = absolute(t);
    let text = print(t);
    let canon = canonical(t);
    let mut some = false;
    let mut f = vec![];
    section_faults(t, 1, &mut f);
    if min == 1 && f.is_empty() {
        some = true;
        let got = ast2::Document::try_from(ast1::Document::new_unchecked(b1(t)));
        match (&got, spec2(&abs)) {
            (Ok(d), want) => {
                if d.to_string() != text {
                    return Err(format!("stage 1 prints {text:?}, converted to stage 2 {:?}", d.to_string()));
                }
                follow("stage 1 to 2", &pairs!(d.chunks()))?;
                match want {
                    Ok(w) if canon && cmp(&w, 1, &chunks2(d.chunks())) != Diff::Same => {
                        return Err(format!("stage 1 to 2 gives {d:?}, expected {w:?}"))
                    }
                    Err(e) if canon => return Err(format!("stage 1 to 2 accepts a tree with the faults {e:?}")),
                    _ => {}
                }
            }
            (Err(e), Ok(_)) if canon => return Err(format!("stage 1 to 2 fails with {e:?} on a well-formed tree")),
            (Err(e), Err(w)) if canon => fault("stage 1 to 2", &w, e)?,
            _ => {}
        }
        // a node by itself
        if let Some(c) = t.last() {
            let (own, at) = (&t[t.len() - 1..], c.line - 1);
            let whole = {
                let mut one = own.to_vec();
                one[0].line = 1;
                ast2::Document::try_from(ast1::Document::new_unchecked(b1(&one)))
            };
            let node = match &c.t {
                T::Cmd(k) if k.label != "begin" && k.label != "end" => Some(
                    ast2::Command::try_from(ast1::Command::new_unchecked(k.label.clone(), bargs1(&k.args)))
                        .map(ast2::ChunkVariant::Command),
                ),
                T::Scope(s) => Some(ast2::Scope::try_from(bsc1(s)).map(ast2::ChunkVariant::Scope)),
                _ => None,
            };
            if let Some(node) = node {
                let whole = whole.map(|d| d.chunks()[0].variant().clone());
                if node != whole {
                    return Err(format!("the last node, of line {at}, converts to {node:?} by itself, to {whole:?} in a document"));
                }
            }
        }
    }
    let mut f = vec![];
    section_faults(t, 2, &mut f);
    if min <= 2 && f.is_empty() {
        some = true;
        let got = ast3::Document::try_from(ast2::Document::new_unchecked(b2(t)));
        match (&got, spec3(&abs)) {
            (Ok(d), want) => {
                if d.to_string() != text {
                    return Err(format!("stage 2 prints {text:?}, converted to stage 3 {:?}", d.to_string()));
                }
                follow("stage 2 to 3", &pairs!(d.chunks_preamable()))?;
                follow("stage 2 to 3", &pairs!(d.chunks_body()))?;
                follow("stage 2 to 3", &pairs!(d.chunks_trailing()))?;
                match want {
                    Ok(w) if canon && cmp3(&w, &doc3(d)) != Diff::Same => {
                        return Err(format!("stage 2 to 3 gives {d:?}, expected {w:?}"))
                    }
                    Err(e) if canon => return Err(format!("stage 2 to 3 accepts a tree with the faults {e:?}")),
                    _ => {}
                }
            }
            (Err(e), Ok(_)) if canon => return Err(format!("stage 2 to 3 fails with {e:?} on a well-formed tree")),
            (Err(e), Err(w)) if canon => fault("stage 2 to 3", &w, e)?,
            _ => {}
        }
        if canon {
            // maths and paragraphs alone
            let mut errs = vec![];
            let want = stage3(&abs, &mut errs);
            match ast3::MathsBlock::from_chunks(b2(t)) {
                Ok(_) if !errs.is_empty() => return Err(format!("MathsBlock::from_chunks accepts the faults {errs:?}")),
                Ok(m) => {
                    if pairs!(m).into_iter().map(|x| x.1).collect::<String>() != text {
                        return Err("MathsBlock::from_chunks changes the print".into());
                    }
                    let p = ast3::Paragraph::from_chunks(m);
                    if cmp(&want, 1, &chunks3(&p)) != Diff::Same {
                        return Err(format!("MathsBlock and Paragraph::from_chunks give {p:?}, expected {want:?}"));
                    }
                    if ast3::Paragraph::from_chunks(p.clone()) != p {
                        return Err(format!("Paragraph::from_chunks changes {p:?}"));
                    }
                }
                Err(e) => fault("MathsBlock::from_chunks", &errs, &e)?,
            }
        }
        if let Some(c) = t.last() {
            let mut one = t[t.len() - 1..].to_vec();
            one[0].line = 1;
            let node = match &c.t {
                T::Cmd(k) if !matches!(k.label.as_str(), "(" | ")" | "[" | "]" | "documentclass") => Some(
                    ast3::Command::try_from(ast2::Command::new_unchecked(k.label.clone(), bargs2(&k.args)))
                        .map(ast3::ChunkVariant::Command),
                ),
                T::Scope(s) => Some(ast3::Scope::try_from(bsc2(s)).map(ast3::ChunkVariant::Scope)),
                T::Env(e) if e.label != "document" => Some(
                    ast3::Environment::try_from(ast2::Environment::new_unchecked(
                        e.label.clone(),
                        bargs2(&e.args),
                        b2(&e.content),
                        e.pb.clone(),
                        e.pe.clone(),
                    ))
                    .map(ast3::ChunkVariant::Environment),
                ),
                _ => None,
            };
            if let Some(node) = node {
                let whole = ast3::Document::try_from(ast2::Document::new_unchecked(b2(&one)))
                    .map(|d| d.chunks_preamable()[0].variant().clone());
                if node != whole {
                    return Err(format!("the last node converts to {node:?} by itself, to {whole:?} in a document"));
                }
            }
        }
    }
    Ok(some)
}

/// dividing the texts of a stage-3 list
fn tree_paragraphs(t: &[C]) -> Result<bool, String> {
    let mut want = vec![];
    for c in t {
        match &c.t {
            T::Text(s) => {
                let mut line = c.line;
                let run: Vec<(char, u32)> = s
                    .chars()
                    .map(|ch| {
                        let x = (ch, line);
                        line += (ch == '\n') as u32;
                        x
                    })
                    .collect();
                want.append(&mut paragraphs(&run));
            }
            _ => want.push(c.clone()),
        }
    }
    let (want, got) = (b3(&want), ast3::Paragraph::from_chunks(b3(t)));
    if want != got {
        return Err(format!("Paragraph::from_chunks gives {got:?}, expected {want:?}"));
    }
    Ok(true)
}

pub fn c24(script: &str) -> Seen {
    if let Some(t) = script.strip_prefix("T:") {
        let c = Case::new(t);
        return Seen { o: text_up(&c), state: state(&c) };
    }
    let Some(s) = script.strip_prefix("B:") else { return Seen { o: O::Held(false), state: 0 } };
    let b = read(s);
    let t = &b.parts[0];
    let o = if !b.lines_ok || !b.parts[1].is_empty() || !b.parts[2].is_empty() {
        O::Held(false)
    } else {
        verdict(guard(|| {
            tree_paragraphs(t)?;
            if stage_of(t) == 3 { Ok(true) } else { tree_up(t) }
        }))
    };
    Seen { o, state: shape(&b) }
}

/* ---------- C25 ---------- */

macro_rules! want {
    ($a:expr, $b:expr, $what:expr) => {
        match (&$a, &$b) {
            (got, want) => {
                if got != want {
                    return Err(format!("{}: {:?} instead of {:?}", $what, got, want));
                }
            }
        }
    };
}

macro_rules! parts {
    ($name:ident, $cname:ident, $m:ident, $sc:ident, $args:ident, $chunks:ident, $var:ident, |$x:ident| $extra:expr) => {
        fn $cname(c: &C) -> Result<(), String> {
            let v = || $var(&c.t);
            let ch = || $m::Chunk::new_unchecked(c.line, v());
            want!(ch().line_no(), c.line, "Chunk::line_no");
            want!(ch().variant(), &v(), "Chunk::variant");
            want!(ch().variant_owned(), v(), "Chunk::variant_owned");
            want!(ch().decompose(), (c.line, v()), "Chunk::decompose");
            let mut e = $m::Chunk::new_unchecked(c.line, $m::ChunkVariant::Text("?".into()));
            *e.variant_mut() = v();
            want!(e, ch(), "Chunk::variant_mut");
            if let Ok(n) = $m::Chunk::new(c.line, v()) {
                want!(n, ch(), "Chunk::new")
            }
            let sc = |s: &Sc| -> Result<(), String> {
                let v = $sc(s).variant();
                want!(v.open(), s.v, "ScopeVariant::open");
                want!(v.close(), closer(s.v), "ScopeVariant::close");
                want!($sc(s).chunks(), &$chunks(&s.ch), "Scope::chunks");
                want!($sc(s).chunks_owned(), $chunks(&s.ch), "Scope::chunks_owned");
                let (a, b) = $sc(s).decompose();
                want!(a, $chunks(&s.ch), "Scope::decompose");
                want!(b.open(), s.v, "Scope::decompose");
                if let Ok(n) = $m::Scope::new($chunks(&s.ch), b) {
                    want!(n, $sc(s), "Scope::new")
                }
                $name(&s.ch)
            };
            let args = |a: &[(String, Sc)]| a.iter().try_for_each(|x| sc(&x.1));
            match &c.t {
                T::Cmd(k) => {
                    let n = || $m::Command::new_unchecked(k.label.clone(), $args(&k.args));
                    want!(n().label(), &k.label, "Command::label");
                    want!(n().arguments(), &$args(&k.args), "Command::arguments");
                    want!(n().label_owned(), k.label, "Command::label_owned");
                    want!(n().arguments_owned(), $args(&k.args), "Command::arguments_owned");
                    want!(n().decompose(), (k.label.clone(), $args(&k.args)), "Command::decompose");
                    if let Ok(c) = $m::Command::new(k.label.clone(), $args(&k.args)) {
                        want!(c, n(), "Command::new")
                    }
                    args(&k.args)
                }
                T::Scope(s) => sc(s),
                T::Text(_) => Ok(()),
                $x => $extra,
            }
        }
        fn $name(cs: &[C]) -> Result<(), String> {
            cs.iter().try_for_each($cname)
        }
    };
}

macro_rules! env_parts {
    ($m:ident, $e:expr, $args:ident, $chunks:ident, $name:ident) => {{
        let e = $e;
        let n = || {
            $m::Environment::new_unchecked(e.label.clone(), $args(&e.args), $chunks(&e.content), e.pb.clone(), e.pe.clone())
        };
        want!(n().label(), &e.label, "Environment::label");
        want!(
            n().decompose(),
            (e.label.clone(), $args(&e.args), $chunks(&e.content), e.pb.clone(), e.pe.clone()),
            "Environment::decompose"
        );
        let checked =
            $m::Environment::new(e.label.clone(), $args(&e.args), $chunks(&e.content), e.pb.clone(), e.pe.clone());
        if let Ok(c) = checked {
            want!(c, n(), "Environment::new")
        }
        e.args.iter().try_for_each(|x| $name(&x.1.ch))?;
        $name(&e.content)
    }};
}

parts!(parts1, part1, ast1, bsc1, bargs1, b1, var1, |_x| unreachable!());
parts!(parts2, part2, ast2, bsc2, bargs2, b2, var2, |x| match x {
    T::Env(e) => env_parts!(ast2, e, bargs2, b2, parts2),
    _ => unreachable!(),
});
parts!(parts3, part3, ast3, bsc3, bargs3, b3, var3, |x| match x {
    T::Env(e) => env_parts!(ast3, e, bargs3, b3, parts3),
    T::Maths(m) => {
        let v = if m.brackets { ast3::MathsVariant::Brackets } else { ast3::MathsVariant::Dollars };
        let t = if m.display { ast3::MathsType::Outline } else { ast3::MathsType::Inline };
        if let Ok(n) = ast3::MathsBlock::new(v.clone(), t.clone(), b3(&m.content)) {
            want!(n, ast3::MathsBlock::new_unchecked(v, t, b3(&m.content)), "MathsBlock::new")
        }
        parts3(&m.content)
    }
    _ => Ok(()),
});

fn brackets() -> Result<(), String> {
    use ast1::ScopeVariant as V;
    for c in (0..0x110000).filter_map(char::from_u32) {
        want!(V::is_opening(c), "{([".contains(c), format!("is_opening({c:?})"));
        want!(V::is_closing(c), "})]".contains(c), format!("is_closing({c:?})"));
    }
    for (o, c) in ["{}", "()", "[]"].map(|s| (s.chars().next().unwrap(), s.chars().nth(1).unwrap())) {
        want!(V::from_opening(o).open(), o, "from_opening");
        want!(V::from_closing(c).close(), c, "from_closing");
        want!(V::from_opening(o), V::from_closing(c), "from_opening and from_closing");
        let v2 = ast2::ScopeVariant::from(V::from_opening(o));
        want!((v2.open(), v2.close()), (o, c), "stage-1 bracket in stage 2");
        want!(V::from(v2), V::from_opening(o), "stage-2 bracket in stage 1");
        let v3 = ast3::ScopeVariant::from(ast2::ScopeVariant::from(V::from_opening(o)));
        want!((v3.open(), v3.close()), (o, c), "stage-2 bracket in stage 3");
        want!(ast2::ScopeVariant::from(v3).open(), o, "stage-3 bracket in stage 2");
    }
    Ok(())
}

/// Equality and copies: nodes are equal exactly when their parts are, and a copy is independent.
fn equality(a: &Built, b: &Built) -> Result<(), String> {
    let (x, y) = (&a.parts[0], &b.parts[0]);
    let min = stage_of(x).max(stage_of(y));
    let same = x == y;
    macro_rules! eq {
        ($m:ident, $b:ident, $var:ident) => {
            want!($b(x) == $b(y), same, concat!(stringify!($m), " chunks are equal"));
            want!(
                $m::Document::new_unchecked($b(x)) == $m::Document::new_unchecked($b(y)),
                same,
                concat!(stringify!($m), " documents are equal")
            );
            if let ([p], [q]) = (x.as_slice(), y.as_slice()) {
                want!($var(&p.t) == $var(&q.t), p.t == q.t, concat!(stringify!($m), " variants are equal"));
            }
            // what is done to a copy is not done to the original
            let whole = $b(x);
            let mut copy = whole.clone();
            for c in copy.iter_mut() {
                *c.variant_mut() = $m::ChunkVariant::Text("another".into());
            }
            want!(whole, $b(x), concat!(stringify!($m), " chunks after a change of their copy"));
        };
    }
    if min == 1 {
        eq!(ast1, b1, var1);
    }
    if min <= 2 {
        eq!(ast2, b2, var2);
    }
    if min == 3 {
        want!(b3(x) == b3(y), same, "ast3 chunks are equal");
    }
    let d3 = |p: &[Vec<C>; 3]| {
        ast3::Document::new_unchecked(b3(&p[0]), None, vec![], b3(&p[1]), vec![], "".into(), "".into(), b3(&p[2]))
    };
    want!(d3(&a.parts) == d3(&b.parts), a.parts == b.parts, "stage-3 documents are equal");
    Ok(())
}

/// Every list of chunks that differs from this one in one place.
fn mutants(ch: &[C]) -> Vec<Vec<C>> {
    fn strings(s: &str) -> Vec<String> {
        let mut v: Vec<String> = vec![
            format!("{s} "), format!(" {s}"), format!("{s}\n"), format!("{s}a"), format!("{s}{s}"), format!("{s}\u{e9}"), format!("{s}%"),
            format!("{s}\\"), s.to_uppercase(), s.to_lowercase(), s.trim().to_string(), s.trim_end().to_string(), s.trim_start().to_string(),
            s.replace(['\n', '\t'], " "), s.replace(' ', "\n"), s.chars().rev().collect(), s.chars().skip(1).collect(), String::new(),
            s.replace('\n', "\r\n"), s.replace('*', ""),
        ];
        v.retain(|x| x != s);
        v
    }
    fn args(a: &[(String, Sc)]) -> Vec<Vec<(String, Sc)>> {
        let mut v = vec![];
        for (i, (p, s)) in a.iter().enumerate() {
            let mut put = |x: (String, Sc)| {
                let mut y = a.to_vec();
                y[i] = x;
                v.push(y)
            };
            for q in strings(p) {
                put((q, s.clone()))
            }
            for t in scopes(s) {
                put((p.clone(), t))
            }
            let mut y = a.to_vec();
            y.remove(i);
            v.push(y);
            let mut y = a.to_vec();
            y.insert(i, y[i].clone());
            v.push(y);
            if i > 0 {
                let mut y = a.to_vec();
                y.swap(i - 1, i);
                v.push(y);
                let mut y = a.to_vec();
                let p = y[i].0.clone();
                y[i].0 = std::mem::replace(&mut y[i - 1].0, p);
                v.push(y);
            }
        }
        let mut y = a.to_vec();
        y.push((String::new(), Sc { v: '{', line: 1, ch: vec![] }));
        v.push(y);
        v
    }
    fn scopes(s: &Sc) -> Vec<Sc> {
        let mut v: Vec<Sc> =
            ['{', '[', '('].iter().filter(|c| **c != s.v).map(|c| Sc { v: *c, line: s.line, ch: s.ch.clone() }).collect();
        v.extend(mutants(&s.ch).into_iter().map(|ch| Sc { v: s.v, line: s.line, ch }));
        v
    }
    fn nodes(t: &T) -> Vec<T> {
        let mut v = vec![];
        match t {
            T::Text(s) => {
                v.extend(strings(s).into_iter().map(T::Text));
                v.push(T::Par(s.clone()));
                v.push(T::Cmd(Cmd { label: s.clone(), args: vec![] }));
            }
            T::Par(s) => {
                v.extend(strings(s).into_iter().map(T::Par));
                v.push(T::Text(s.clone()));
            }
            T::Cmd(c) => {
                v.extend(strings(&c.label).into_iter().map(|label| T::Cmd(Cmd { label, args: c.args.clone() })));
                v.extend(args(&c.args).into_iter().map(|args| T::Cmd(Cmd { label: c.label.clone(), args })));
                v.push(T::Text(c.label.clone()));
            }
            T::Scope(s) => v.extend(scopes(s).into_iter().map(T::Scope)),
            T::Env(e) => {
                let mut put = |f: &dyn Fn(&mut Env)| {
                    let mut x = e.clone();
                    f(&mut x);
                    v.push(T::Env(x))
                };
                for s in strings(&e.label) {
                    put(&|x| x.label = s.clone())
                }
                for s in strings(&e.pb) {
                    put(&|x| x.pb = s.clone())
                }
                for s in strings(&e.pe) {
                    put(&|x| x.pe = s.clone())
                }
                put(&|x| std::mem::swap(&mut x.pb, &mut x.pe));
                for a in args(&e.args) {
                    put(&|x| x.args = a.clone())
                }
                for a in mutants(&e.content) {
                    put(&|x| x.content = a.clone())
                }
            }
            T::Maths(m) => {
                v.push(T::Maths(Maths { brackets: !m.brackets, display: m.display, content: m.content.clone() }));
                v.push(T::Maths(Maths { brackets: m.brackets, display: !m.display, content: m.content.clone() }));
                v.extend(mutants(&m.content).into_iter().map(|content| T::Maths(Maths { brackets: m.brackets, display: m.display, content })));
            }
            T::Opaque(_) => {}
        }
        v
    }
    let mut v = vec![];
    for i in 0..ch.len() {
        let mut put = |c: C| {
            let mut y = ch.to_vec();
            y[i] = c;
            v.push(y)
        };
        for l in [0, ch[i].line + 1, ch[i].line + 256, ch[i].line + 65536, u32::MAX] {
            put(C { line: l, t: ch[i].t.clone() })
        }
        for t in nodes(&ch[i].t) {
            put(C { line: ch[i].line, t })
        }
        let mut y = ch.to_vec();
        y.remove(i);
        v.push(y);
        let mut y = ch.to_vec();
        y.insert(i, y[i].clone());
        v.push(y);
        if i > 0 {
            let mut y = ch.to_vec();
            y.swap(i - 1, i);
            v.push(y);
        }
    }
    v.push(ch.iter().cloned().chain([C { line: 1, t: T::Text(String::new()) }]).collect());
    v.retain(|x| x != ch);
    v
}

/// Stage-3 documents that differ in one part each.
fn document_equality() -> Result<(), String> {
    let o = |a: &str, b: &str, v: Option<(&str, &str, &str)>, d: &str| {
        vec![(a.to_string(), b.to_string(), v.map(|v| (v.0.into(), v.1.into(), v.2.into())), d.to_string())]
    };
    let t = |s: &str| read(s).parts[0].clone();
    let arg = |p: &str, s: &str, v| vec![(p.to_string(), Sc { v, line: 1, ch: t(s) })];
    let mut all = vec![];
    let opts = [
        vec![],
        o("", "", None, ""),
        o(" ", "", None, ""),
        o("", "a", None, ""),
        o("", "", None, " "),
        o("", "", Some(("", "", "")), ""),
        o("", "", Some((" ", "", "")), ""),
        o("", "", Some(("", " ", "")), ""),
        o("", "", Some(("", "", "v")), ""),
    ];
    let base = || (t(""), None::<String>, vec![], t(""), vec![], String::new(), String::new(), t(""));
    for op in opts {
        let mut d = base();
        d.2 = op;
        all.push(d)
    }
    for class in ["", "c"] {
        let mut d = base();
        d.1 = Some(class.into());
        all.push(d)
    }
    for k in 0..3 {
        for s in ["a", "n", "c", "P", "M.", "X."] {
            let mut d = base();
            *[&mut d.0, &mut d.3, &mut d.7][k] = t(s);
            all.push(d)
        }
    }
    for (p, s, v) in [("", "", '{'), ("", "", '['), (" ", "", '{'), ("", "a", '{'), ("", "", '(')] {
        let mut d = base();
        d.4 = arg(p, s, v);
        all.push(d)
    }
    for s in [" ", "\n"] {
        let (mut d, mut e) = (base(), base());
        d.5 = s.into();
        e.6 = s.into();
        all.extend([d, e])
    }
    let mk = |d: &(Vec<C>, Option<String>, Vec<(String, String, Option<(String, String, String)>, String)>, Vec<C>, Vec<(String, Sc)>, String, String, Vec<C>)| {
        ast3::Document::new_unchecked(b3(&d.0), d.1.clone(), d.2.clone(), b3(&d.3), bargs3(&d.4), d.5.clone(), d.6.clone(), b3(&d.7))
    };
    for a in &all {
        for b in &all {
            want!(mk(a) == mk(b), a == b, "stage-3 documents are equal");
        }
    }
    // a fragment is not a document with an empty body
    use std::str::FromStr;
    want!(
        ast3::Document::from_str("a").unwrap() == ast3::Document::from_str("a\\begin{document}\\end{document}").unwrap(),
        false,
        "a fragment and a document are equal"
    );
    Ok(())
}

pub fn c25(script: &str) -> Seen {
    let placed = script.starts_with('@');
    if let (false, Some(a)) = (placed, script.strip_suffix('~')) {
        let a = read(a);
        let all: Vec<C> = a.parts.iter().flatten().cloned().collect();
        let one = |x: Vec<C>| Built { parts: [x, vec![], vec![]], lines_ok: true, around: Around::default() };
        let a = one(all.clone());
        let r = guard(|| {
            for m in mutants(&all) {
                let b = one(m);
                equality(&a, &b)?;
                equality(&b, &a)?
            }
            Ok(true)
        });
        return Seen { o: verdict(r), state: shape(&a) };
    }
    if let (false, Some((a, b))) = (placed, script.split_once('&')) {
        let (a, b) = (read(a), read(b));
        let r = guard(|| equality(&a, &b).map(|_| true));
        return Seen { o: verdict(r), state: mix(shape(&a), shape(&b)) };
    }
    let b = read(script);
    let all: Vec<C> = b.parts.iter().flatten().cloned().collect();
    let min = stage_of(&all);
    let r = guard(|| -> Result<bool, String> {
        if script.is_empty() {
            brackets()?;
            document_equality()?
        }
        if b.parts[1].is_empty() && b.parts[2].is_empty() {
            if min == 1 {
                let d = || ast1::Document::new_unchecked(b1(&all));
                want!(d().chunks(), &b1(&all), "ast1 Document::chunks");
                want!(d().chunks_owned(), b1(&all), "ast1 Document::chunks_owned");
                if let Ok(n) = ast1::Document::new(b1(&all)) {
                    want!(n, d(), "ast1 Document::new")
                }
                parts1(&all)?
            }
            if min <= 2 {
                let d = || ast2::Document::new_unchecked(b2(&all));
                want!(d().chunks(), &b2(&all), "ast2 Document::chunks");
                want!(d().chunks_owned(), b2(&all), "ast2 Document::chunks_owned");
                if let Ok(n) = ast2::Document::new(b2(&all)) {
                    want!(n, d(), "ast2 Document::new")
                }
                for (k, c) in b2(&all).into_iter().enumerate() {
                    let (mut e, v) = (c.clone(), c.variant_owned());
                    *e.line_no_mut() = 77 + k as u32;
                    want!(e, ast2::Chunk::new_unchecked(77 + k as u32, v), "Chunk::line_no_mut");
                }
                parts2(&all)?
            }
            parts3(&all)?
        }
        // the document: every part different from every other
        let one = |s: &str, v| vec![(s.to_string(), Sc { v, line: 1, ch: all.clone() })];
        for class in [None, Some("cl".to_string())] {
            let opts = vec![
                ("1".to_string(), "2".to_string(), Some(("3".to_string(), "4".to_string(), "5".to_string())), "6".to_string()),
                ("7".to_string(), "8".to_string(), None, "9".to_string()),
            ];
            let args = if placed { b.around.args.clone() } else { one("0", '[') };
            let (bb, be) = if placed { (b.around.begin.clone(), b.around.end.clone()) } else { ("10".into(), "11".into()) };
            let opts = if placed { b.around.opts.clone() } else { opts };
            let class = if placed { b.around.class.clone().or(class) } else { class };
            let d = || {
                ast3::Document::new_unchecked(
                    b3(&b.parts[0]),
                    class.clone(),
                    opts.clone(),
                    b3(&b.parts[1]),
                    bargs3(&args),
                    bb.clone(),
                    be.clone(),
                    b3(&b.parts[2]),
                )
            };
            want!(d().chunks_preamable(), &b3(&b.parts[0]), "chunks_preamable");
            want!(d().chunks_body(), &b3(&b.parts[1]), "chunks_body");
            want!(d().chunks_trailing(), &b3(&b.parts[2]), "chunks_trailing");
            let (c, o, p, y, a, begin, end, t) = d().decompose();
            want!(&c, &class, "decompose: class");
            want!(&o, &opts, "decompose: options");
            want!(&p, &b3(&b.parts[0]), "decompose: preamble");
            want!(&y, &b3(&b.parts[1]), "decompose: body");
            want!(&a, &bargs3(&args), "decompose: arguments");
            want!((&begin, &end), (&bb, &be), "decompose: header");
            want!(&t, &b3(&b.parts[2]), "decompose: trailing");
            want!(ast3::Document::new_unchecked(p, c, o, y, a, begin, end, t), d(), "decompose and new_unchecked");
            // the checked constructor, where it accepts
            let n = ast3::Document::new(
                b3(&b.parts[0]),
                class.clone(),
                opts.clone(),
                b3(&b.parts[1]),
                bargs3(&args),
                bb.clone(),
                be.clone(),
                b3(&b.parts[2]),
            );
            if let Ok(n) = n {
                want!(n, d(), "new and new_unchecked")
            }
        }
        Ok(!all.is_empty())
    });
    Seen { o: verdict(r), state: shape(&b) }
}

/* ---------- C26 ---------- */

fn printed<D: ToString + Lines + Validate>(d: D, want: &str, what: &str) -> Result<(), String> {
    let got = d.to_string();
    if got != want {
        return Err(format!("{what} prints {got:?}, expected {want:?}"));
    }
    // whatever they say, they return
    let _ = (d.lines(), d.validate());
    Ok(())
}

fn printed_nodes(cs: &[C]) -> Result<(), String> {
    for c in cs {
        let one = std::slice::from_ref(c);
        let want = print(one);
        let min = stage_of(one);
        if min == 1 {
            printed(ast1::Chunk::new_unchecked(c.line, var1(&c.t)), &want, "a stage-1 chunk")?;
            printed(var1(&c.t), &want, "a stage-1 variant")?;
        }
        if min <= 2 {
            printed(ast2::Chunk::new_unchecked(c.line, var2(&c.t)), &want, "a stage-2 chunk")?;
            printed(var2(&c.t), &want, "a stage-2 variant")?;
        }
        printed(ast3::Chunk::new_unchecked(c.line, var3(&c.t)), &want, "a stage-3 chunk")?;
        printed(var3(&c.t), &want, "a stage-3 variant")?;
        match &c.t {
            T::Cmd(k) => {
                if min == 1 {
                    printed(ast1::Command::new_unchecked(k.label.clone(), bargs1(&k.args)), &want, "a stage-1 command")?
                }
                if min <= 2 {
                    printed(ast2::Command::new_unchecked(k.label.clone(), bargs2(&k.args)), &want, "a stage-2 command")?
                }
                printed(ast3::Command::new_unchecked(k.label.clone(), bargs3(&k.args)), &want, "a stage-3 command")?;
                k.args.iter().try_for_each(|x| printed_nodes(&x.1.ch))?
            }
            T::Scope(s) => {
                if min == 1 {
                    printed(bsc1(s), &want, "a stage-1 group")?
                }
                if min <= 2 {
                    printed(bsc2(s), &want, "a stage-2 group")?
                }
                printed(bsc3(s), &want, "a stage-3 group")?;
                printed_nodes(&s.ch)?
            }
            T::Env(e) => {
                let (l, b, p) = (e.label.clone(), e.pb.clone(), e.pe.clone());
                if min <= 2 {
                    let e2 = ast2::Environment::new_unchecked(l.clone(), bargs2(&e.args), b2(&e.content), b.clone(), p.clone());
                    printed(e2, &want, "a stage-2 environment")?
                }
                printed(ast3::Environment::new_unchecked(l, bargs3(&e.args), b3(&e.content), b, p), &want, "a stage-3 environment")?;
                e.args.iter().try_for_each(|x| printed_nodes(&x.1.ch))?;
                printed_nodes(&e.content)?
            }
            T::Maths(m) => {
                let v = if m.brackets { ast3::MathsVariant::Brackets } else { ast3::MathsVariant::Dollars };
                let ty = if m.display { ast3::MathsType::Outline } else { ast3::MathsType::Inline };
                printed(ast3::MathsBlock::new_unchecked(v, ty, b3(&m.content)), &want, "a maths block")?;
                printed_nodes(&m.content)?
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn c26(script: &str) -> Seen {
    let b = read(script);
    let all: Vec<C> = b.parts.iter().flatten().cloned().collect();
    let min = stage_of(&all);
    let r = guard(|| -> Result<bool, String> {
        let want = print(&all);
        if b.parts[1].is_empty() && b.parts[2].is_empty() {
            if min == 1 {
                printed(ast1::Document::new_unchecked(b1(&all)), &want, "the stage-1 document")?
            }
            if min <= 2 {
                printed(ast2::Document::new_unchecked(b2(&all)), &want, "the stage-2 document")?
            }
            printed_nodes(&all)?
        }
        let args = [("\n".to_string(), Sc { v: '(', line: 1, ch: b.parts[0].clone() })];
        for (args, bb, be) in [(&args[..0], "", ""), (&args[..], " \n", "\t"), (&b.around.args[..], &b.around.begin, &b.around.end)] {
            let mut head = String::new();
            for (p, s) in args {
                head = format!("{head}{p}{}", print(&[C { line: 1, t: T::Scope(s.clone()) }]))
            }
            let d = ast3::Document::new_unchecked(
                b3(&b.parts[0]),
                b.around.class.clone().or(Some("class".into())),
                if script.starts_with('@') { b.around.opts.clone() } else { vec![("o".into(), "o".into(), None, "o".into())] },
                b3(&b.parts[1]),
                bargs3(args),
                bb.into(),
                be.into(),
                b3(&b.parts[2]),
            );
            let want = format!(
                "{}\\begin{bb}{{document}}{head}{}\\end{be}{{document}}{}",
                print(&b.parts[0]),
                print(&b.parts[1]),
                print(&b.parts[2])
            );
            printed(d, &want, "the stage-3 document")?
        }
        Ok(!all.is_empty())
    });
    Seen { o: verdict(r), state: shape(&b) }
}

/* ---------- C27 ---------- */

pub const TEXTS: &[&str] = &[
    "",
    "a",
    "a\n\nb",
    "\\c{a}[b]",
    "\\c",
    "{a\n(b)}",
    "$a$\n",
    "$$a$b$$",
    "\\(a\n\\[b\\]\\)",
    "\\begin{x}[o]\na\\end{x}\nb",
    "\\begin{x}\\begin{y}$\n\n$\\end{y}\\end{x}",
    "\\documentclass[a, b=c]{d}\n\\begin{document}\ne\\end{document}\nf",
    "\\begin{document}[\n]$a$\\end{document}\\c",
    "a%b{\nc",
    "\\%\\\\\\$",
    // and with faults
    "\n{",
    "\\c[\n",
    "\\c}",
    "\n\\begin{x}",
    "\\end\n{x}",
    "\\begin",
    "$\n$$",
    "\\(",
    "a\n\\]",
    "\\documentclass{a}\n\\documentclass{b}",
];

struct Known {
    s1: Result<Vec<C>, Errs>,
    s2: Result<Vec<C>, Errs>,
    s3: Result<Doc3, Errs>,
    text: String,
}

fn known() -> &'static [Known] {
    static K: OnceLock<Vec<Known>> = OnceLock::new();
    K.get_or_init(|| {
        TEXTS.iter().map(|s| known_of(s)).collect()
    })
}

fn known_of(s: &str) -> Known {
    let c = Case::new(s);
    Known { s1: c.sp1().clone(), s2: c.sp2().clone(), s3: c.sp3().clone(), text: c.stripped().to_string() }
}

pub fn text_symbol(i: usize) -> char {
    (b'a' + i as u8) as char
}

/// one call, whose result must not depend on the calls before it
fn call(k: &Known, s: &str, stage: char) -> Result<(), String> {
    macro_rules! bad {
        ($got:expr, $want:expr) => {
            return Err(format!("stage {stage} on {s:?} gives {:?}, expected {:?}", $got, $want))
        };
    }
    macro_rules! stage {
        ($m:ident, $spec:expr, |$d:ident, $w:ident| $same:expr) => {
            match ($m::Document::from_str(s), $spec) {
                (Ok($d), Ok($w)) => {
                    if !$same || $d.to_string() != k.text || $d.lines() != nls(&k.text) + 1 {
                        bad!($d, $w)
                    }
                    $d
                }
                (Err(e), Err(f)) => return fault("the parser", f, &e),
                (x, w) => bad!(x, w),
            }
        };
    }
    match stage {
        '1' => {
            stage!(ast1, &k.s1, |d, w| cmp(w, 1, &chunks1(d.chunks())) == Diff::Same);
        }
        '2' => {
            let d = stage!(ast2, &k.s2, |d, w| cmp(w, 1, &chunks2(d.chunks())) == Diff::Same);
            let low = ast1::Document::from(d);
            if cmp(k.s1.as_ref().unwrap(), 1, &chunks1(low.chunks())) != Diff::Same {
                bad!(low, k.s1)
            }
        }
        _ => {
            let d = stage!(ast3, &k.s3, |d, w| cmp3(w, &doc3(&d)) == Diff::Same);
            let low = ast2::Document::from(d);
            if cmp(k.s2.as_ref().unwrap(), 1, &chunks2(low.chunks())) != Diff::Same {
                bad!(low, k.s2)
            }
        }
    }
    Ok(())
}

/// A script is a sequence of calls: text, stage; `N*` before it makes the first one N times more.
/// `P` and two texts: each at each stage, one after the other and back. In the others, a capital letter is a
/// call on a thread of its own.
pub fn c27(script: &str) -> Seen {
    if let Some((a, b)) = script.strip_prefix('P').and_then(|s| s.split_once(crate::api::END)) {
        let (ka, kb) = (known_of(a), known_of(b));
        let r = guard(|| -> Result<bool, String> {
            for p in ["12", "21", "13", "31", "11", "22", "33", "23", "32"] {
                let st: Vec<char> = p.chars().collect();
                call(&ka, a, st[0]).map_err(|e| format!("call 1: {e}"))?;
                call(&kb, b, st[1]).map_err(|e| format!("call 2: {e}"))?;
                call(&ka, a, st[0]).map_err(|e| format!("call 3: {e}"))?;
            }
            Ok(true)
        });
        return Seen { o: verdict(r), state: mix(a.len() as u64, b.len() as u64) };
    }
    let (times, script) = match script.split_once('*').and_then(|(n, s)| Some((n.parse::<u32>().ok()?, s))) {
        Some((n, s)) => (n, s),
        None => (0, script),
    };
    let cs: Vec<char> = script.chars().collect();
    let mut state = 0;
    let r = guard(|| -> Result<bool, String> {
        for (n, p) in cs.chunks(2).enumerate() {
            let (i, st) = match p {
                [t, st] if t.is_ascii_alphabetic() && "123".contains(*st) => ((t.to_ascii_lowercase() as u8 - b'a') as usize, *st),
                _ => return Ok(false),
            };
            let Some(k) = known().get(i) else { return Ok(false) };
            for _ in 0..if n == 0 { times } else { 0 } {
                match st {
                    '1' => drop(ast1::Document::from_str(TEXTS[i])),
                    '2' => drop(ast2::Document::from_str(TEXTS[i])),
                    _ => drop(ast3::Document::from_str(TEXTS[i])),
                }
            }
            let r = if p[0].is_ascii_uppercase() {
                std::thread::scope(|s| {
                    s.spawn(|| guard(|| call(k, TEXTS[i], st))).join().unwrap_or(Err("the thread panics".into()))
                })
                .and_then(|r| r)
            } else {
                call(k, TEXTS[i], st)
            };
            r.map_err(|e| format!("call {}: {e}", n + 1))?;
            state = mix(i as u64, st as u64);
        }
        Ok(cs.len() > 2)
    });
    Seen { o: verdict(r), state }
}
