//! An explicit-state model of well-formed input: a pushdown automaton over construct-level events
//! whose stack is bounded.  Breadth-first search reaches every state; every transition is replayed
//! against the implementation as a text (the shortest history of the state, the event, and the
//! shortest way to close what is open).  The model also predicts which texts each stage accepts; the
//! prediction is compared with the reference grammar when the traces are generated, so the two
//! independent descriptions check one another.

use crate::spec;
use std::collections::{HashMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum F {
    Group(char),
    /// second or later argument?  multi-line before it?
    Arg(char, bool, bool),
    /// which label, several lines in its header?
    Env(u8, bool),
    Brackets(char),
    Dollar(bool),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Tail {
    Start,
    Text,
    Nl,
    Par,
    /// a command that can take (further) arguments, on one or several lines, with or without arguments
    Cmd(bool, bool),
    CmdWs(bool, bool),
    CmdNl(bool, bool),
    Symbol,
    Block,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct S {
    stack: Vec<F>,
    tail: Tail,
    /// not on the first line any more
    below: bool,
}

const EVENTS: &[&str] = &[
    "a", " ", "\n", "{", "}", "(", ")", "[", "]", "\\c", "\\,", "\\\n", "$", "$$", "\\(", "\\)", "\\[", "\\]",
    "\\begin{e}", "\\begin\n{e}[x\n]", "\\end{e}", "\\end {e}", "\\begin{f}", "\\end{f}",
];

const LABELS: &[&str] = &["e", "f"];

fn step(s: &S, e: &str) -> Option<S> {
    use Tail::*;
    let mut n = s.clone();
    let multi = matches!(s.tail, Cmd(m, _) | CmdWs(m, _) | CmdNl(m, _) if m) || matches!(s.tail, CmdNl(..));
    let cmd = matches!(s.tail, Cmd(..) | CmdWs(..) | CmdNl(..));
    let has_args = matches!(s.tail, Cmd(_, true) | CmdWs(_, true) | CmdNl(_, true));
    n.below |= e.contains('\n');
    match e {
        "a" => {
            // a letter after a command without arguments would lengthen its name
            if matches!(s.tail, Cmd(_, false)) {
                return Some(n);
            }
            n.tail = Text
        }
        " " => {
            n.tail = match s.tail {
                Cmd(m, a) => CmdWs(m, a),
                CmdWs(m, a) => CmdWs(m, a),
                CmdNl(m, a) => CmdNl(m, a),
                Par => Par,
                Nl => Nl,
                _ => Text,
            }
        }
        "\n" => {
            n.tail = match s.tail {
                Cmd(m, a) | CmdWs(m, a) => CmdNl(m, a),
                CmdNl(..) | Nl | Par => Par,
                _ => Nl,
            }
        }
        "{" | "(" | "[" => {
            let c = e.chars().next().unwrap();
            n.stack.push(if cmd { F::Arg(c, has_args, multi) } else { F::Group(c) });
            n.tail = Start;
        }
        "}" | ")" | "]" => {
            let c = e.chars().next().unwrap();
            let closes = |f: &F| matches!(f, F::Group(o) | F::Arg(o, ..) if spec::closer(*o) == c);
            // a lower group of this kind would be closed by it, leaving this one open for good; and
            // directly after a command it is an error unless it closes the group around
            match s.stack.last() {
                Some(f) if closes(f) => {
                    n.stack.pop();
                    n.tail = match f {
                        F::Arg(_, _, m) => Cmd(*m || matches!(s.tail, Nl | Par), true),
                        _ => Block,
                    };
                }
                _ if s.stack.iter().any(closes) => return None,
                _ if matches!(s.tail, Cmd(..)) => return None,
                // whitespace before it makes it text
                _ => n.tail = Text,
            }
        }
        "\\c" => n.tail = Cmd(false, false),
        "\\," | "\\\n" => n.tail = Symbol,
        "$" | "$$" => {
            let display = e == "$$";
            // up to the nearest group, argument or environment, the outermost open dollar decides
            let mut at = None;
            for (k, f) in s.stack.iter().enumerate().rev() {
                match f {
                    F::Dollar(_) => at = Some(k),
                    F::Brackets(_) => {}
                    _ => break,
                }
            }
            match at {
                Some(k) if k + 1 == s.stack.len() && s.stack[k] == F::Dollar(display) => {
                    n.stack.pop();
                    n.tail = Block;
                }
                Some(_) => return None,
                None => {
                    n.stack.push(F::Dollar(display));
                    n.tail = Start;
                }
            }
            // two neighbouring dollars would be read as a pair
            if e == "$" && s.tail == Start && matches!(s.stack.last(), Some(F::Dollar(false))) {
                return None;
            }
            if s.tail == Block || s.tail == Start {
                // keep delimiters apart so that their grouping is evident
                return None;
            }
        }
        "\\(" | "\\[" => {
            n.stack.push(F::Brackets(e.chars().nth(1).unwrap()));
            n.tail = Start;
        }
        "\\)" | "\\]" => {
            let o = if e == "\\)" { '(' } else { '[' };
            if s.stack.last() != Some(&F::Brackets(o)) {
                return None;
            }
            n.stack.pop();
            n.tail = Block;
        }
        _ if e.starts_with("\\begin") => {
            let l = LABELS.iter().position(|l| e.contains(&format!("{{{l}}}"))).unwrap() as u8;
            n.stack.push(F::Env(l, e.contains('\n')));
            // a bracket here is one more argument of the environment
            n.tail = Cmd(e.contains('\n'), true);
        }
        _ => {
            let l = LABELS.iter().position(|l| e.contains(&format!("{{{l}}}"))).unwrap() as u8;
            if !matches!(s.stack.last(), Some(F::Env(k, _)) if *k == l) {
                return None;
            }
            n.stack.pop();
            // a bracket here would be a second argument of the end
            n.tail = Cmd(false, true);
        }
    }
    Some(n)
}

fn close(s: &S) -> String {
    let mut t = String::new();
    let mut tail = s.tail;
    for f in s.stack.iter().rev() {
        match f {
            F::Group(c) | F::Arg(c, ..) => {
                t.push(spec::closer(*c));
                tail = Tail::Block
            }
            F::Env(l, _) => {
                t.push_str(&format!("\\end{{{}}}", LABELS[*l as usize]));
                tail = Tail::Cmd(false, true)
            }
            F::Brackets('(') => t.push_str("\\)"),
            F::Brackets(_) => t.push_str("\\]"),
            F::Dollar(d) => {
                if matches!(tail, Tail::Start | Tail::Block) {
                    t.push('.')
                }
                t.push_str(if *d { "$$" } else { "$" });
                tail = Tail::Block
            }
        }
    }
    t
}

pub struct Explored {
    pub states: u64,
    pub transitions: u64,
    pub texts: Vec<String>,
}

/// `end` with a further bracketed argument is rejected; the model leaves those texts to the reference
fn after_end(hist: &str) -> bool {
    let t = hist.trim_end();
    t.ends_with("\\end{e}") || t.ends_with("\\end {e}") || t.ends_with("\\end{f}")
}

pub fn explore(bound: usize, suffixes: &[&str]) -> Explored {
    let start = S { stack: vec![], tail: Tail::Start, below: false };
    let mut seen: HashMap<S, String> = HashMap::new();
    let mut q = VecDeque::new();
    seen.insert(start.clone(), String::new());
    q.push_back(start);
    let mut transitions = 0;
    let mut texts = Vec::new();
    let push = |t: String, accept: Option<bool>, texts: &mut Vec<String>| {
        if let Some(a) = accept {
            let r = spec::spec1(&t).and_then(|x| spec::spec2(&x)).and_then(|x| spec::spec3(&x));
            assert_eq!(a, r.is_ok(), "model and reference disagree on {t:?}: {r:?}");
        }
        texts.push(t);
    };
    while let Some(s) = q.pop_front() {
        let hist = seen[&s].clone();
        for e in EVENTS {
            if after_end(&hist) && matches!(*e, "{" | "(" | "[") {
                continue;
            }
            let t = format!("{hist}{e}");
            match step(&s, e) {
                None => {
                    // the text as it stands, and with everything closed: malformed or, for dollars,
                    // read differently; the reference decides
                    transitions += 1;
                    texts.push(t.clone());
                    texts.push(format!("{t}{}", close(&s)));
                }
                Some(n) => {
                    transitions += 1;
                    if n.stack.len() > bound {
                        continue;
                    }
                    let open = !n.stack.is_empty();
                    push(t.clone(), Some(!open), &mut texts);
                    let c = close(&n);
                    if open {
                        push(format!("{t}{c}"), Some(true), &mut texts);
                    }
                    for x in suffixes {
                        push(format!("{t}{c}{x}"), None, &mut texts);
                    }
                    if !seen.contains_key(&n) {
                        seen.insert(n.clone(), t);
                        q.push_back(n);
                    }
                }
            }
        }
    }
    Explored { states: seen.len() as u64, transitions, texts }
}
