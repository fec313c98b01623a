//! Reference model: what each stage must make of a text, written from the property statements
//! (one left-to-right grammar over the whole text with absolute positions, in contrast to the
//! implementation's re-parsing of string buffers).  Lines in these trees are absolute.

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct C {
    pub line: u32,
    pub t: T,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum T {
    Text(String),
    Par(String),
    Cmd(Cmd),
    Scope(Sc),
    Env(Box<Env>),
    Maths(Maths),
    /// a maths block of the implementation (its fields are private)
    Opaque(Box<latex_ast::ast3::MathsBlock>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Cmd {
    pub label: String,
    pub args: Vec<(String, Sc)>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sc {
    pub v: char,
    /// line of the opening bracket
    pub line: u32,
    pub ch: Vec<C>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Env {
    pub label: String,
    pub args: Vec<(String, Sc)>,
    pub content: Vec<C>,
    pub pb: String,
    pub pe: String,
    /// line on which the content starts
    pub cline: u32,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Maths {
    pub brackets: bool,
    pub display: bool,
    pub content: Vec<C>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum E {
    UnexpectedClosing(char),
    UnclosedArgument(char),
    UnclosedScope(char),
    NoLabel,
    UnexpectedEnd(String),
    TooManyEnd,
    UnclosedEnv(String),
    MathsEnd,
    UnclosedMaths,
    TooManyDC,
    DoubleDC,
    Other(String),
}

pub type Errs = Vec<(u32, E)>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Opt {
    pub prec: String,
    pub key: String,
    pub val: Option<(String, String, String)>,
    pub post: String,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Doc3 {
    pub class: Option<String>,
    pub opts: Vec<Opt>,
    pub pre: Vec<C>,
    pub has_body: bool,
    pub body: Vec<C>,
    pub body_base: u32,
    pub bargs: Vec<(String, Sc)>,
    pub bb: String,
    pub be: String,
    pub trailing: Vec<C>,
    pub trailing_base: u32,
}

/* ---------- comments ---------- */

/// The text without its comments, and whether it had any.
pub fn strip(s: &str) -> (String, bool) {
    let mut out = String::with_capacity(s.len());
    let mut had = false;
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                out.push('\\');
                if let Some(d) = it.next() {
                    out.push(d)
                }
            }
            '%' => {
                had = true;
                for d in it.by_ref() {
                    if d == '\n' {
                        out.push('\n');
                        break;
                    }
                }
            }
            _ => out.push(c),
        }
    }
    (out, had)
}

/* ---------- stage 1 ---------- */

#[derive(Clone, Copy)]
pub struct U {
    c: char,
    esc: bool,
    lone: bool,
    line: u32,
}

pub fn units(t: &str) -> Vec<U> {
    let mut out = Vec::with_capacity(t.len());
    let mut line = 1;
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some(d) => {
                    out.push(U { c: d, esc: true, lone: false, line });
                    if d == '\n' {
                        line += 1
                    }
                }
                None => out.push(U { c, esc: false, lone: true, line }),
            }
        } else {
            out.push(U { c, esc: false, lone: false, line });
            if c == '\n' {
                line += 1
            }
        }
    }
    out
}

impl U {
    fn plain(&self) -> bool {
        !self.esc && !self.lone
    }
    fn opens(&self) -> bool {
        self.plain() && matches!(self.c, '{' | '(' | '[')
    }
    fn closes(&self) -> bool {
        self.plain() && matches!(self.c, '}' | ')' | ']')
    }
    fn names(&self) -> bool {
        self.plain() && (self.c.is_ascii_alphabetic() || self.c == '*' || self.c == '@')
    }
    fn white(&self) -> bool {
        self.plain() && self.c.is_whitespace()
    }
}

pub fn closer(o: char) -> char {
    match o {
        '{' => '}',
        '(' => ')',
        _ => ']',
    }
}

/// index of the bracket closing the one at `at`
fn matching(us: &[U], at: usize) -> Option<usize> {
    let (o, c) = (us[at].c, closer(us[at].c));
    let mut depth = 0;
    for (k, u) in us.iter().enumerate().skip(at) {
        if u.plain() {
            if u.c == o {
                depth += 1
            } else if u.c == c {
                depth -= 1;
                if depth == 0 {
                    return Some(k);
                }
            }
        }
    }
    None
}

pub fn stage1(us: &[U], errs: &mut Errs) -> Vec<C> {
    let mut out: Vec<C> = Vec::new();
    let mut text = String::new();
    let mut tline = 0;
    let mut i = 0;
    macro_rules! flush {
        () => {
            if !text.is_empty() {
                out.push(C { line: tline, t: T::Text(std::mem::take(&mut text)) })
            }
        };
    }
    while i < us.len() {
        let u = us[i];
        if u.lone {
            flush!();
            out.push(C { line: u.line, t: T::Cmd(Cmd { label: String::new(), args: vec![] }) });
            i += 1;
        } else if u.esc {
            flush!();
            let mut label = u.c.to_string();
            let mut args = Vec::new();
            i += 1;
            if u.c.is_ascii_alphabetic() {
                while i < us.len() && us[i].names() {
                    label.push(us[i].c);
                    i += 1;
                }
                loop {
                    let mut j = i;
                    while j < us.len() && us[j].white() {
                        j += 1
                    }
                    if j == us.len() || !us[j].opens() {
                        break;
                    }
                    match matching(us, j) {
                        None => {
                            errs.push((u.line, E::UnclosedArgument(us[j].c)));
                            return out;
                        }
                        Some(k) => {
                            let ws: String = us[i..j].iter().map(|u| u.c).collect();
                            args.push((
                                ws,
                                Sc { v: us[j].c, line: us[j].line, ch: stage1(&us[j + 1..k], errs) },
                            ));
                            i = k + 1;
                        }
                    }
                }
                if i < us.len() && us[i].closes() {
                    errs.push((us[i].line, E::UnexpectedClosing(us[i].c)));
                    return out;
                }
            }
            out.push(C { line: u.line, t: T::Cmd(Cmd { label, args }) });
        } else if u.opens() {
            flush!();
            match matching(us, i) {
                None => {
                    errs.push((u.line, E::UnclosedScope(u.c)));
                    return out;
                }
                Some(k) => {
                    out.push(C {
                        line: u.line,
                        t: T::Scope(Sc { v: u.c, line: u.line, ch: stage1(&us[i + 1..k], errs) }),
                    });
                    i = k + 1;
                }
            }
        } else {
            if text.is_empty() {
                tline = u.line
            }
            text.push(u.c);
            i += 1;
        }
    }
    flush!();
    out
}

/* ---------- printing of reference trees ---------- */

pub fn print(cs: &[C]) -> String {
    let mut s = String::new();
    pr(cs, &mut s);
    s
}

fn pr(cs: &[C], s: &mut String) {
    for c in cs {
        match &c.t {
            T::Text(x) | T::Par(x) => s.push_str(x),
            T::Cmd(c) => pr_cmd(c, s),
            T::Scope(x) => pr_sc(x, s),
            T::Env(e) => {
                s.push_str("\\begin");
                s.push_str(&e.pb);
                s.push('{');
                s.push_str(&e.label);
                s.push('}');
                pr_args(&e.args, s);
                pr(&e.content, s);
                s.push_str("\\end");
                s.push_str(&e.pe);
                s.push('{');
                s.push_str(&e.label);
                s.push('}');
            }
            T::Maths(m) => {
                let (o, c) = delims(m.brackets, m.display);
                s.push_str(o);
                pr(&m.content, s);
                s.push_str(c);
            }
            T::Opaque(m) => s.push_str(&m.to_string()),
        }
    }
}

pub fn delims(brackets: bool, display: bool) -> (&'static str, &'static str) {
    match (brackets, display) {
        (true, true) => ("\\[", "\\]"),
        (true, false) => ("\\(", "\\)"),
        (false, true) => ("$$", "$$"),
        (false, false) => ("$", "$"),
    }
}

fn pr_args(args: &[(String, Sc)], s: &mut String) {
    for (p, a) in args {
        s.push_str(p);
        pr_sc(a, s);
    }
}

pub fn pr_cmd(c: &Cmd, s: &mut String) {
    s.push('\\');
    s.push_str(&c.label);
    pr_args(&c.args, s);
}

fn pr_sc(x: &Sc, s: &mut String) {
    s.push(x.v);
    pr(&x.ch, s);
    s.push(closer(x.v));
}

pub fn nls(s: &str) -> u32 {
    s.bytes().filter(|b| *b == b'\n').count() as u32
}

/* ---------- stage 2 ---------- */

fn map_args2(args: &[(String, Sc)], errs: &mut Errs) -> Vec<(String, Sc)> {
    args.iter()
        .map(|(p, a)| (p.clone(), Sc { v: a.v, line: a.line, ch: stage2(&a.ch, errs) }))
        .collect()
}

fn env_label(c: &Cmd) -> Option<String> {
    match c.args.first() {
        Some((_, a)) if a.v == '{' => Some(print(&a.ch)),
        _ => None,
    }
}

pub fn stage2(list: &[C], errs: &mut Errs) -> Vec<C> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < list.len() {
        let c = &list[i];
        match &c.t {
            T::Scope(x) => out.push(C {
                line: c.line,
                t: T::Scope(Sc { v: x.v, line: x.line, ch: stage2(&x.ch, errs) }),
            }),
            T::Cmd(k) if k.label == "end" => {
                match env_label(k) {
                    None => errs.push((c.line, E::NoLabel)),
                    Some(l) => errs.push((c.line, E::UnexpectedEnd(l))),
                }
                return out;
            }
            T::Cmd(k) if k.label == "begin" => {
                let label = match env_label(k) {
                    None => {
                        errs.push((c.line, E::NoLabel));
                        return out;
                    }
                    Some(l) => l,
                };
                let mut open = vec![label.clone()];
                let mut j = i + 1;
                while j < list.len() && !open.is_empty() {
                    if let T::Cmd(k) = &list[j].t {
                        if k.label == "begin" || k.label == "end" {
                            let l = match env_label(k) {
                                None => {
                                    errs.push((list[j].line, E::NoLabel));
                                    return out;
                                }
                                Some(l) => l,
                            };
                            if k.label == "begin" {
                                open.push(l)
                            } else if open.last() != Some(&l) {
                                errs.push((list[j].line, E::UnexpectedEnd(l)));
                                return out;
                            } else if k.args.len() > 1 {
                                errs.push((list[j].line, E::TooManyEnd));
                                return out;
                            } else {
                                open.pop();
                            }
                        }
                    }
                    j += 1;
                }
                if !open.is_empty() {
                    errs.push((c.line, E::UnclosedEnv(label)));
                    return out;
                }
                // list[j - 1] is the matching end
                let pe = match &list[j - 1].t {
                    T::Cmd(k) => k.args[0].0.clone(),
                    _ => unreachable!(),
                };
                let mut head = String::new();
                pr_cmd(k, &mut head);
                out.push(C {
                    line: c.line,
                    t: T::Env(Box::new(Env {
                        label,
                        args: map_args2(&k.args[1..], errs),
                        content: stage2(&list[i + 1..j - 1], errs),
                        pb: k.args[0].0.clone(),
                        pe,
                        cline: c.line + nls(&head),
                    })),
                });
                i = j;
                continue;
            }
            T::Cmd(k) => out.push(C {
                line: c.line,
                t: T::Cmd(Cmd { label: k.label.clone(), args: map_args2(&k.args, errs) }),
            }),
            _ => out.push(c.clone()),
        }
        i += 1;
    }
    out
}

/* ---------- stage 3 ---------- */

enum It<'a> {
    Ch(char, u32),
    Node(&'a C),
}

fn items(list: &[C]) -> Vec<It<'_>> {
    let mut out = Vec::new();
    for c in list {
        match &c.t {
            T::Text(s) => {
                let mut line = c.line;
                for ch in s.chars() {
                    out.push(It::Ch(ch, line));
                    if ch == '\n' {
                        line += 1
                    }
                }
            }
            _ => out.push(It::Node(c)),
        }
    }
    out
}

/// splits one stretch of text into text and paragraph breaks
pub fn paragraphs(run: &[(char, u32)]) -> Vec<C> {
    let mut out = Vec::new();
    let mut text = String::new();
    let mut tline = 0;
    let mut i = 0;
    while i < run.len() {
        if run[i].0 == '\n' {
            let mut j = i;
            let mut n = 0;
            while j < run.len() && run[j].0.is_whitespace() {
                if run[j].0 == '\n' {
                    n += 1
                }
                j += 1;
            }
            if n >= 2 {
                if !text.is_empty() {
                    out.push(C { line: tline, t: T::Text(std::mem::take(&mut text)) });
                }
                out.push(C { line: run[i].1, t: T::Par(run[i..j].iter().map(|x| x.0).collect()) });
                i = j;
                continue;
            }
        }
        if text.is_empty() {
            tline = run[i].1
        }
        text.push(run[i].0);
        i += 1;
    }
    if !text.is_empty() {
        out.push(C { line: tline, t: T::Text(text) });
    }
    out
}

fn map_args3(args: &[(String, Sc)], errs: &mut Errs) -> Vec<(String, Sc)> {
    args.iter()
        .map(|(p, a)| (p.clone(), Sc { v: a.v, line: a.line, ch: stage3(&a.ch, errs) }))
        .collect()
}

pub fn stage3(list: &[C], errs: &mut Errs) -> Vec<C> {
    s3(&items(list), errs)
}

fn cmd_is(it: &It, name: &str) -> bool {
    matches!(it, It::Node(C { t: T::Cmd(k), .. }) if k.label == name)
}

fn env3(e: &Env, errs: &mut Errs) -> Env {
    Env {
        label: e.label.clone(),
        args: map_args3(&e.args, errs),
        content: stage3(&e.content, errs),
        pb: e.pb.clone(),
        pe: e.pe.clone(),
        cline: e.cline,
    }
}

fn s3(its: &[It], errs: &mut Errs) -> Vec<C> {
    let mut out = Vec::new();
    let mut run: Vec<(char, u32)> = Vec::new();
    let mut i = 0;
    let dollar = |k: usize| matches!(its.get(k), Some(It::Ch('$', _)));
    while i < its.len() {
        if let It::Ch(c, line) = its[i] {
            if c != '$' {
                run.push((c, line));
                i += 1;
                continue;
            }
        }
        out.append(&mut paragraphs(&std::mem::take(&mut run)));
        match &its[i] {
            It::Ch(_, line) => {
                let display = dollar(i + 1);
                let w = if display { 2 } else { 1 };
                let mut k = i + w;
                while k < its.len() && !(dollar(k) && (!display || dollar(k + 1))) {
                    k += 1
                }
                if k >= its.len() {
                    errs.push((*line, E::UnclosedMaths));
                    return out;
                }
                out.push(C {
                    line: *line,
                    t: T::Maths(Maths { brackets: false, display, content: s3(&its[i + w..k], errs) }),
                });
                i = k + w;
                continue;
            }
            It::Node(c) => match &c.t {
                T::Cmd(k) if k.label == ")" || k.label == "]" => {
                    errs.push((c.line, E::MathsEnd));
                    return out;
                }
                T::Cmd(k) if k.label == "(" || k.label == "[" => {
                    let (o, cl) = if k.label == "(" { ("(", ")") } else { ("[", "]") };
                    let mut depth = 0;
                    let mut j = i;
                    while j < its.len() {
                        if cmd_is(&its[j], o) {
                            depth += 1
                        } else if cmd_is(&its[j], cl) {
                            depth -= 1;
                            if depth == 0 {
                                break;
                            }
                        }
                        j += 1
                    }
                    if j >= its.len() {
                        errs.push((c.line, E::UnclosedMaths));
                        return out;
                    }
                    out.push(C {
                        line: c.line,
                        t: T::Maths(Maths {
                            brackets: true,
                            display: o == "[",
                            content: s3(&its[i + 1..j], errs),
                        }),
                    });
                    i = j + 1;
                    continue;
                }
                T::Cmd(k) => out.push(C {
                    line: c.line,
                    t: T::Cmd(Cmd { label: k.label.clone(), args: map_args3(&k.args, errs) }),
                }),
                T::Scope(x) => out.push(C {
                    line: c.line,
                    t: T::Scope(Sc { v: x.v, line: x.line, ch: stage3(&x.ch, errs) }),
                }),
                T::Env(e) => out.push(C { line: c.line, t: T::Env(Box::new(env3(e, errs))) }),
                _ => unreachable!(),
            },
        }
        i += 1;
    }
    out.append(&mut paragraphs(&run));
    out
}

pub fn options(content: &str) -> Vec<Opt> {
    let ws = |s: &str| -> (String, String) {
        // (leading whitespace, rest)
        let rest = s.trim_start_matches(char::is_whitespace);
        (s[..s.len() - rest.len()].to_string(), rest.to_string())
    };
    content
        .split(',')
        .map(|piece| {
            let (prec, rest) = ws(piece);
            if rest.is_empty() {
                return Opt { prec: String::new(), key: String::new(), val: None, post: prec };
            }
            let core = rest.trim_end_matches(char::is_whitespace);
            let post = rest[core.len()..].to_string();
            match core.find('=') {
                None => Opt { prec, key: core.to_string(), val: None, post },
                Some(at) => {
                    let k = &core[..at];
                    let key = k.trim_end_matches(char::is_whitespace);
                    let (eq_post, val) = ws(&core[at + 1..]);
                    Opt {
                        prec,
                        key: key.to_string(),
                        val: Some((k[key.len()..].to_string(), eq_post, val)),
                        post,
                    }
                }
            }
        })
        .collect()
}

pub fn stage3_doc(list: &[C], errs: &mut Errs) -> Doc3 {
    let at = list
        .iter()
        .position(|c| matches!(&c.t, T::Env(e) if e.label == "document"));
    let mut d = Doc3::default();
    let pre = &list[..at.unwrap_or(list.len())];
    for c in pre {
        if let T::Cmd(k) = &c.t {
            if k.label == "documentclass" {
                if d.class.is_some() {
                    errs.push((c.line, E::DoubleDC));
                    break;
                }
                let mut stop = false;
                for (_, a) in &k.args {
                    if a.v == '{' {
                        if d.class.is_some() {
                            errs.push((c.line, E::TooManyDC));
                            stop = true;
                            break;
                        }
                        d.class = Some(print(&a.ch));
                    } else {
                        d.opts.extend(options(&print(&a.ch)));
                    }
                }
                if stop {
                    break;
                }
            }
        }
    }
    d.pre = stage3(pre, errs);
    if let Some(at) = at {
        if let T::Env(e) = &list[at].t {
            d.has_body = true;
            let e3 = env3(e, errs);
            d.body = e3.content;
            d.body_base = e.cline;
            d.bargs = e3.args;
            d.bb = e3.pb;
            d.be = e3.pe;
            d.trailing_base = list[at].line + nls(&print(&list[at..at + 1]));
            d.trailing = stage3(&list[at + 1..], errs);
        }
    }
    d
}

/* ---------- everything about one text ---------- */

pub fn spec1(t: &str) -> Result<Vec<C>, Errs> {
    let mut errs = Vec::new();
    let out = stage1(&units(t), &mut errs);
    if errs.is_empty() {
        Ok(out)
    } else {
        Err(errs)
    }
}

pub fn spec2(s1: &[C]) -> Result<Vec<C>, Errs> {
    let mut errs = Vec::new();
    let out = stage2(s1, &mut errs);
    if errs.is_empty() {
        Ok(out)
    } else {
        Err(errs)
    }
}

pub fn spec3(s2: &[C]) -> Result<Doc3, Errs> {
    let mut errs = Vec::new();
    let out = stage3_doc(s2, &mut errs);
    if errs.is_empty() {
        Ok(out)
    } else {
        Err(errs)
    }
}

/// the first closing bracket standing in a text chunk, if any (known finding F2 concerns these)
pub fn any_node(cs: &[C], f: &mut dyn FnMut(&C) -> bool) -> bool {
    cs.iter().any(|c| {
        f(c) || match &c.t {
            T::Cmd(k) => k.args.iter().any(|(_, a)| any_node(&a.ch, f)),
            T::Scope(x) => any_node(&x.ch, f),
            T::Env(e) => e.args.iter().any(|(_, a)| any_node(&a.ch, f)) || any_node(&e.content, f),
            T::Maths(m) => any_node(&m.content, f),
            _ => false,
        }
    })
}
