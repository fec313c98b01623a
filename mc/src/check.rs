//! The command line: `mc check ID TIER`, `mc replay FILE`, and the internal `worker` and `run1`.

use crate::families::{self, Focus};
use crate::run::*;
use crate::textprops::{self as tp, Case, O};
use crate::{api, build, cost, edit, hist, up};
use std::collections::BTreeSet;
use std::fs;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

macro_rules! text_prop {
    ($f:path) => {{
        fn run(s: &str) -> Seen {
            let c = Case::new(s);
            let o = $f(&c);
            Seen { o, state: tp::state(&c) }
        }
        run as fn(&str) -> Seen
    }};
}

fn always(_: &str) -> bool {
    true
}

fn well_formed(s: &str) -> bool {
    Case::new(s).sp1().is_ok()
}

fn text_snippet(s: &str) -> String {
    format!(
        "#[test]\nfn replay() {{\n    use std::str::FromStr;\n    let s = {s:?};\n    let d1 = latex_ast::ast1::Document::from_str(s);\n    let d2 = latex_ast::ast2::Document::from_str(s);\n    let d3 = latex_ast::ast3::Document::from_str(s);\n    println!(\"{{d1:#?}}\\n{{d2:#?}}\\n{{d3:#?}}\");\n}}\n"
    )
}

fn script_snippet(s: &str) -> String {
    format!("// a history or tree in the language of /verif/mc/src/{{api,build}}.rs: {s:?}\n")
}

fn cost_snippet(s: &str) -> String {
    let f: Vec<&str> = s.split('\u{1}').collect();
    if f.len() != 6 {
        return String::new();
    }
    format!(
        "// measure the work of parsing, printing and converting this text for n = 64, 128, 256, ...:\nfn text(n: usize) -> String {{\n    format!(\"{{}}{{}}{{}}{{}}{{}}\", {:?}, {:?}.repeat(n), {:?}, {:?}.repeat(n), {:?})\n}}\n",
        f[2], f[0], f[3], f[1], f[4]
    )
}

fn prefixed(p: &str, v: Vec<Family>) -> Vec<Family> {
    v.into_iter()
        .map(|f| Family {
            name: f.name,
            gen: match f.gen {
                Gen::Trie { pre, syms, post, depth } => Gen::Trie { pre: format!("{p}{pre}"), syms, post, depth },
                Gen::List { len, f } => {
                    let p = p.to_string();
                    Gen::List { len, f: Box::new(move |i| format!("{p}{}", f(i))) }
                }
            },
        })
        .collect()
}

fn builder_syms() -> Vec<String> {
    build::LEAVES
        .iter()
        .chain(build::CMDS)
        .chain(build::PARS)
        .map(|x| x.0.to_string())
        .chain(build::OPENS.chars().chain(build::WHOLE.chars()).map(|c| c.to_string()))
        .chain([".".to_string(), "+".into(), "|".into()])
        .collect()
}

fn builder(pre: &str, quick: bool) -> Vec<Family> {
    let all = builder_syms();
    let all: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
    // fewer node kinds, larger trees
    let core = ["a", "n", "c", "P", "<", "B", "X", "Y", "M", "N", ".", "|"];
    let tiny = ["n", "B", "X", "M", "."];
    let d = |a: usize| if quick { a } else { a + 1 };
    vec![
        trie("trees", pre, &all, "", d(3)),
        trie("trees-core", pre, &core, "", d(6)),
        trie("trees-deep", pre, &tiny, "", if quick { 8 } else { 10 }),
        trie("trees-maths", pre, &["a", "n", "P", "c", "<", "X", "M", "O", "N", "."], "", d(6)),
    ]
}

/// every pair of trees of a few symbols
fn tree_pairs(quick: bool) -> Family {
    let all = builder_syms();
    let core = ["a", "n", "c", "d", "P", "<", "(", "B", "X", "Y", "U", "M", "N", "+", "|"];
    let mut v: Vec<String> = vec![String::new()];
    v.extend(all.iter().filter(|s| *s != "T").cloned());
    v.extend(core.iter().flat_map(|a| core.iter().map(move |b| format!("{a}{b}"))));
    for o in ["<", "B", "J", "X", "Y", "H", "M", "C", "O", "N", "A", ":", "("] {
        for i in ["a", "n", "c", "<", "P", "", "aa", "a.a", ".a"] {
            v.push(format!("{o}{i}"));
            if !quick {
                v.extend(["<", "B", "X", "M"].map(|p| format!("{p}{o}{i}")))
            }
        }
    }
    let n = v.len() as u64;
    let f = move |i: u64| format!("{}&{}", v[(i % n) as usize], v[(i / n) as usize]);
    Family { name: "pairs".into(), gen: Gen::List { len: n * n, f: Box::new(f) } }
}

/// trees with every string in every place that has one
fn placed(pre: &str, quick: bool) -> Vec<Family> {
    let mut v = vec![];
    for k in 0..build::PLACES {
        let pre = format!("{pre}@{k}@");
        v.push(trie(&format!("place-{k}-chars"), &pre, families::CHARS, "", if quick { 4 } else { 5 }));
        v.push(trie(&format!("place-{k}-white"), &pre, families::WHITE, "", if quick { 4 } else { 5 }));
    }
    for k in build::PLACES..build::PLACES + build::LONG_PLACES {
        let pre = format!("{pre}@{k}@");
        v.push(trie(&format!("place-{k}-chars"), &pre, families::CHARS, "", if quick { 3 } else { 4 }));
        v.push(trie(&format!("place-{k}-white"), &pre, families::WHITE, "", if quick { 3 } else { 4 }));
        let odd = move |c: &char| c.is_whitespace() || c.is_control() || (!quick && *c < '\u{3100}');
        let odd = ('\0'..=char::MAX).filter(odd).chain('\u{200b}'..='\u{200f}').chain('\u{205f}'..='\u{2064}').chain(['\u{ad}', '\u{e9}', '\u{301}', '\u{feff}', '\u{1f600}']);
        v.push(list(&format!("place-{k}-odd"), odd.flat_map(|c| ["X", "\nX\n"].map(|t| format!("{pre}{}", t.replace('X', &c.to_string())))).collect()));
    }
    let mut words: Vec<String> =
        families::NAMES.iter().flat_map(|n| ["", "*", " ", "\n", "$"].map(|t| format!("{n}{t}"))).collect();
    for n in [4usize, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097, 65536, 70000] {
        for x in ["a", "\n", " ", "a\n", "\u{e9}", "\n\n", "=", "a "] {
            if n < 60000 || x == "a" || x == "\n" {
                words.push(x.repeat(n));
            }
        }
    }
    let places = build::PLACES as u64;
    let each = |name: &str, n: u64, f: Box<dyn Fn(u64) -> String + Send + Sync>| {
        let pre = pre.to_string();
        Family { name: name.into(), gen: Gen::List { len: n * places, f: Box::new(move |i| format!("{pre}@{}@{}", i % places, f(i / places))) } }
    };
    let n = words.len() as u64;
    v.push(each("place-words", n, Box::new(move |i| words[i as usize].clone())));
    let ctx = if quick { &["X", "\nX\n", "aXb"][..] } else { &["X", "a\nX\nb", "Xa", "aX", "\nX\n", "aXb"] };
    let uni: Vec<char> =
        if quick { ('\0'..'\u{3100}').chain('\u{fe00}'..='\u{ffff}').chain('\u{1f600}'..'\u{1f640}').collect() } else { ('\0'..=char::MAX).collect() };
    let c = ctx.len() as u64;
    let n = uni.len() as u64 * c;
    v.push(each("place-unicode", n, Box::new(move |i| ctx[(i % c) as usize].replace('X', &uni[(i / c) as usize].to_string()))));
    v.push(each("place-pairs", 128 * 128, Box::new(|i| [(i / 128) as u8 as char, (i % 128) as u8 as char].iter().collect())));
    v
}

/// trees with more nodes, or nested deeper, than sequences of symbols reach
fn large_trees(pre: &str, depths: &[usize], widths: &[usize]) -> Family {
    let all = builder_syms();
    let mut v = vec![];
    for o in build::OPENS.chars() {
        for n in depths {
            let open = o.to_string().repeat(*n);
            for i in ["", "a", "n", "c", "P", "$", "4", "[", "Mn"] {
                v.push(format!("{pre}{open}{i}"));
                v.push(format!("{pre}n{open}{i}.a{}c", ".".repeat(*n - 1)));
            }
            for i in ["a", "n", "", "}"] {
                v.push(format!("{pre}{}", format!("{o}{i}.").repeat(*n)));
                v.push(format!("{pre}<{}.n{o}", format!("{o}{i}.").repeat(*n)));
            }
        }
    }
    for s in all.iter().filter(|s| !"TL|".contains(s.as_str())) {
        for n in widths {
            let many = s.repeat(*n);
            for t in ["N", "aN", "Nn", "<N.a", "NcN", "XN", "cNMn"] {
                v.push(format!("{pre}{}", t.replace('N', &many)));
            }
            for t in all.iter().filter(|t| !"TL".contains(t.as_str())) {
                v.push(format!("{pre}{many}{t}"));
            }
            if "anc".contains(s.as_str()) {
                for o in build::OPENS.chars() {
                    for t in all.iter().filter(|t| !"TL".contains(t.as_str())) {
                        v.push(format!("{pre}{o}{many}{t}.n"));
                        v.push(format!("{pre}<{}.n{t}", format!("{o}{s}.").repeat(*n)));
                    }
                }
            }
        }
    }
    list("large-trees", v)
}

/// trees whose nodes mean something to the stage above
fn upward(pre: &str, quick: bool) -> Vec<Family> {
    let env = ["a", "n", "b", "f", "g", "h", "j", "i", "<", "B", "X", "."];
    let maths = ["a", "w", "$", "m", "o", "q", "t", "v", "k", "<", "X", "."];
    let doc = ["a", "p", "$", "x", "y", "z", "D", "G", "H", "A", ".", "T"];
    let d = if quick { 6 } else { 7 };
    vec![trie("up-env", pre, &env, "", d), trie("up-maths", pre, &maths, "", d), trie("up-doc", pre, &doc, "", d - 1)]
}

/// sequences of calls
/// pairs of texts that differ in one place, short ones and long ones
fn similar(quick: bool) -> Vec<String> {
    let mut v = vec![];
    let mut texts: Vec<String> = up::TEXTS.iter().map(|s| s.to_string()).collect();
    for n in if quick { &[20, 200][..] } else { &[9, 20, 70, 130, 300, 1100] } {
        for pad in ["a", "a ", "\n\na", "{b}", "\\c{d}\n"] {
            let pad = pad.repeat(*n);
            for t in ["{a}", "$b$", "\\begin{x}a\\end{x}", "\\c[a]"] {
                texts.extend([format!("{pad}{t}"), format!("{t}{pad}"), format!("{pad}{t}{pad}")]);
            }
        }
    }
    for t in &texts {
        let cs: Vec<char> = t.chars().collect();
        let places: Vec<usize> = if cs.len() < 80 {
            (0..=cs.len()).collect()
        } else {
            (0..=2).chain(cs.len() / 2 - 2..cs.len() / 2 + 2).chain(cs.len() - 4..=cs.len()).collect()
        };
        for i in places {
            let mut put = |x: Vec<char>| {
                let x: String = x.into_iter().collect();
                v.push(format!("P{t}{}{x}", api::END));
                v.push(format!("P{x}{}{t}", api::END));
            };
            for c in ['a', 'b', '\n', ' ', '$', '{', '%'] {
                let mut x = cs.clone();
                if i < cs.len() {
                    x[i] = c;
                    put(x.clone());
                }
                x.insert(i, c);
                put(x);
            }
            let mut x = cs.clone();
            if i + 1 < cs.len() {
                x.swap(i, i + 1);
                put(x.clone());
                x.remove(i);
                put(x);
            }
        }
        v.push(format!("P{t}{}{}", api::END, t.to_uppercase()));
        v.push(format!("P{t}{}{t}{t}", api::END));
        v.push(format!("P{t}{}{t}%", api::END));
        v.push(format!("P{t}{} {t}", api::END));
    }
    v
}

fn calls(quick: bool) -> Vec<Family> {
    let all: Vec<String> =
        (0..up::TEXTS.len()).flat_map(|i| ["1", "2", "3"].map(|st| format!("{}{st}", up::text_symbol(i)))).collect();
    let top: Vec<String> = all.iter().filter(|s| s.ends_with('3')).cloned().collect();
    let r = |v: &Vec<String>| Gen::Trie { pre: String::new(), syms: v.clone(), post: String::new(), depth: 3 };
    let mut v = vec![Family { name: "calls".into(), gen: r(&all) }];
    let long = Gen::Trie { pre: String::new(), syms: top.clone(), post: String::new(), depth: if quick { 4 } else { 5 } };
    v.push(Family { name: "calls-3".into(), gen: long });
    // many calls before one
    let n = if quick { 300 } else { 3000 };
    let pairs: Vec<String> = all.iter().flat_map(|a| all.iter().map(move |b| format!("{}{b}", a.repeat(n)))).collect();
    v.push(list("many-calls", pairs));
    // so many that a 16-bit counter, or a cache of 100000 entries, is exhausted; then all the others
    let every = all.concat();
    let times = if quick { 150_000 } else { 3_000_000 };
    // on other threads
    let up = |s: &String| s.to_uppercase();
    let t = all.iter().flat_map(|a| all.iter().flat_map(move |b| [format!("{a}{}", up(b)), format!("{}{b}", up(a)), format!("{}{}{a}", up(a), up(b))]));
    v.push(list("threads", t.collect()));
    // texts that differ little
    v.push(list("similar", similar(quick)));
    v.push(list("very-many-calls", top.iter().map(|a| format!("{times}*{a}{every}")).collect()));
    v
}

fn text_only(pre: &str, quick: bool) -> Vec<Family> {
    let d = |a: usize| if quick { a } else { a + 1 };
    let uni: Vec<String> = (0..if quick { 0x10000u32 } else { 0x110000 })
        .filter_map(char::from_u32)
        .flat_map(|c| [format!("{c}"), format!("a\n{c}\nb"), format!("a\n{c}"), format!("\n{c}\n"), format!("a{c}b"), format!(" \n\n{c}")])
        .collect();
    let mut v = vec![
        trie("text-chars", pre, families::CHARS, "", d(5)),
        trie("text-par", pre, families::PAR, "", d(6)),
        trie("text-white", pre, families::WHITE, "", d(5)),
    ];
    v.extend(prefixed(pre, vec![list("text-unicode", uni)]));
    v
}

/// the same operation many times and then another, or one that moves the lines far
fn many(name: &str, pre: &str, ops: &[String], quick: bool) -> Family {
    let mut v = vec![];
    for a in ops {
        for b in ops {
            for n in if quick { &[9, 256][..] } else { &[9, 10, 31, 64, 127, 255, 256, 257, 1000] } {
                v.push(format!("{pre}{}{b}", a.repeat(*n)));
            }
        }
        // b: a push that is far into the file
        let far = format!("{}2T", ops[0].trim_end_matches(|c: char| !"<=>".contains(c)));
        v.push(format!("{pre}{far}{a}"));
        v.push(format!("{pre}{a}{far}{a}"));
    }
    list(name, v)
}

/// a push of each string after each, and of nodes with every string
fn strings_pushed(pre: &str, sec: &str, kinds: &str, quick: bool) -> Vec<Family> {
    let words = |syms: &[&str], depth: usize| -> Vec<String> {
        let mut all = vec![String::new()];
        let mut last = all.clone();
        for _ in 0..depth {
            last = last.iter().flat_map(|w| syms.iter().map(move |c| format!("{w}{c}"))).collect();
            all.extend(last.clone());
        }
        all
    };
    let q = |mode: char, kind: char, s: &str| format!("{sec}{mode}`{kind}{s}{}", api::END);
    let mut v = vec![];
    for (name, w) in [("strings", words(families::CHARS, 2)), ("white-strings", words(families::WHITE, if quick { 2 } else { 3 }))] {
        let n = w.len() as u64;
        let label = format!("{pre}{sec}");
        let (pre, sec) = (pre.to_string(), sec.to_string());
        let f = move |i: u64| {
            let (m, i) = (i % 4, i / 4);
            let q = |mode: char, s: &str| format!("{sec}{mode}`t{s}{}", api::END);
            format!("{pre}{}{}", q(['1', '2'][m as usize % 2], &w[(i % n) as usize]), q(['1', '3'][m as usize / 2], &w[(i / n) as usize]))
        };
        v.push(Family { name: format!("{name}-{label}"), gen: Gen::List { len: n * n * 4, f: Box::new(f) } });
    }
    let mut l = vec![];
    let uni: Vec<char> =
        if quick { ('\u{2}'..'\u{3100}').chain('\u{fe00}'..='\u{ffff}').collect() } else { ('\u{2}'..='\u{ffff}').chain(('\u{10000}'..=char::MAX).step_by(61)).collect() };
    for c in uni {
        for k in kinds.chars() {
            l.push(format!("{pre}{}", q('1', k, &c.to_string())));
            l.push(format!("{pre}{}{}", q('1', k, &format!("\n{c}\n")), q('1', 't', "b")));
        }
        let c = c.to_string();
        for (a, b) in [("a", "X"), ("X", "a"), ("a\n", "X\nb"), ("a\nX", "\nb"), ("X\n", "\nX"), ("aX\n", "\nXb"), ("\n", "XX\n")] {
            l.push(format!("{pre}{}{}", q('1', 't', &a.replace('X', &c)), q('1', 't', &b.replace('X', &c))));
            l.push(format!("{pre}{}{}", q('2', 't', &a.replace('X', &c)), q('3', 't', &b.replace('X', &c))));
        }
    }
    for w in families::NAMES {
        for k in kinds.chars() {
            l.push(format!("{pre}{}{}", q('1', k, w), q('3', 't', w)));
        }
    }
    for n in [9usize, 33, 64, 65, 128, 129, 256, 257, 1000, 1024, 4096, 65536] {
        for x in ["a", "\n", " ", "a\n", "\u{e9}"] {
            for y in ["a", "\n", " "] {
                for (i, j) in [(1, n), (n, 1), (n, n)] {
                    l.push(format!("{pre}{}{}", q('1', 't', &x.repeat(i)), q('1', 't', &y.repeat(j))));
                }
            }
            for k in kinds.chars() {
                l.push(format!("{pre}{}{}", q('1', k, &x.repeat(n)), q('2', 't', "b")));
            }
        }
    }
    v.push(list(&format!("pushed-{pre}{sec}"), l));
    v
}

fn histories12(quick: bool) -> Vec<Family> {
    let mut v = vec![];
    for st in ["A", "B"] {
        for s in ["E", "C"] {
            v.extend(strings_pushed(&format!("{st}{s}"), "", if st == "A" { "tcs" } else { "tcse" }, quick));
        }
    }
    let ops = |modes: &str, contents: &str| -> Vec<String> {
        modes.chars().flat_map(|m| contents.chars().map(move |c| format!("{m}{c}"))).collect()
    };
    for (st, extra) in [("A", "7"), ("B", "")] {
        let full = ops(&format!("1234568{extra}"), if st == "A" { "anbe%kmioqgLHjxydX" } else { "anbe%kmioqgvLHjxydDFXY" });
        let core = ops(&format!("1256{extra}"), if st == "A" { "anbmo" } else { "anbmv" });
        let tiny = ops("12", "anm");
        let into = ops("17", "anbmvo");
        let r = |v: &Vec<String>| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        for s in ["E", "T", "C", "O"] {
            let pre = format!("{st}{s}");
            let mk = |name: &str, syms: Vec<String>, depth: usize| Family {
                name: format!("{name}-{pre}"),
                gen: Gen::Trie { pre: pre.clone(), syms, post: String::new(), depth },
            };
            v.push(mk("all-ops", r(&full), 3));
            v.push(mk("core-ops", r(&core), if quick { 4 } else { 5 }));
            v.push(mk("long", r(&tiny), if quick { 7 } else { 8 }));
            v.push(many(&format!("many-{pre}"), &pre, &full, quick));
            if st == "A" {
                v.push(mk("into", r(&into), if quick { 5 } else { 6 }));
            }
        }
    }
    v
}

fn histories3(quick: bool) -> Vec<Family> {
    let ops = |secs: &str, modes: &str, contents: &str| -> Vec<String> {
        secs.chars()
            .flat_map(|s| modes.chars().map(move |m| (s, m)))
            .flat_map(|(s, m)| contents.chars().map(move |c| format!("{s}{m}{c}")))
            .collect()
    };
    let mut v = vec![];
    for (s, sec) in [("E", "="), ("D", "<"), ("F", ">")] {
        v.extend(strings_pushed(s, sec, "tpcsem", quick));
    }
    for s in ["E", "D", "F"] {
        let mk = |name: &str, syms: Vec<String>, depth: usize| Family {
            name: format!("{name}-{s}"),
            gen: Gen::Trie { pre: s.to_string(), syms, post: String::new(), depth },
        };
        v.push(mk("all-ops", ops("<=>", "1234568", "ansbe%$wkmiogvpPMLHcCEjxydDFXY"), 2));
        if !quick {
            v.push(mk("most-ops", ops("<=>", "128", "ansbe%$wkmiogvpPMLHcCEjxydDFXY"), 3));
        }
        v.push(many(&format!("many-{s}"), s, &ops("<=>", "128", "anbpmLHcCv$X"), quick));
        v.push(mk("core-ops", ops("<=>", "1256", "anbpm"), 4));
        v.push(mk("blank-lines", ops("=", "13", "anstlfepkcCE"), 5));
        v.push(mk("long", ops("<=>", "1", "anp"), if quick { 6 } else { 7 }));
        v.push(mk("blank-lines-pre", ops("<", "13", "anstlfe"), if quick { 5 } else { 6 }));
        v.push(mk("blank-lines-post", ops(">", "13", "anstlfe"), if quick { 5 } else { 6 }));
    }
    v
}

/// everything one can do with a document, in any order
fn histories33(quick: bool) -> Vec<Family> {
    let r = |s: &str| s.chars().map(|c| c.to_string()).collect::<Vec<_>>();
    let all = "ankmovMp$whgAKW<=>qcreftsduzXY";
    let core = "amvM=AqcrefsduzW";
    let tiny = "ao>qceduz";
    let mut v = vec![];
    for st in 1..=3 {
        for i in 0..hist::STARTS.len() {
            let pre = format!("{st}{i}");
            let mk = |name: &str, syms: &str, depth: usize| Family {
                name: format!("{name}-{pre}"),
                gen: Gen::Trie { pre: pre.clone(), syms: r(syms), post: String::new(), depth },
            };
            v.push(mk("all-ops", all, if quick { 3 } else { 4 }));
            v.push(mk("core-ops", core, if quick && st != 3 { 4 } else { 5 }));
            v.push(mk("few-ops", tiny, if quick { 6 } else { 7 }));
            // an operation many times, and then what shows it
            let mut w = vec![];
            for a in all.chars() {
                for b in all.chars() {
                    for n in if quick { &[9, 33, 130][..] } else { &[9, 10, 17, 33, 65, 130, 257, 520] } {
                        let x = a.to_string().repeat(*n);
                        w.push(format!("{pre}{x}{b}"));
                        w.push(format!("{pre}{b}{x}c"));
                        w.push(format!("{pre}={x}{b}z"));
                        w.push(format!("{pre}u{x}{b}d"));
                    }
                    let x = format!("{a}{b}");
                    for n in if quick { &[3, 6][..] } else { &[3, 4, 6, 12, 25] } {
                        w.push(format!("{pre}{}", x.repeat(*n)));
                        w.push(format!("{pre}{}n", x.repeat(*n)));
                        w.push(format!("{pre}={}n", x.repeat(*n)));
                    }
                }
            }
            v.push(list(&format!("many-{pre}"), w));
        }
    }
    v
}

fn pump_scripts(quick: bool) -> Vec<Family> {
    let sets = [("", "", ""), ("\\documentclass{c}\n\\begin{document}\n", "z", "\\end{document}\nt"), ("\\c{", "\n", "}"), ("\n$", ".", "$")];
    let mut v = vec![];
    let mut pairs: Vec<(String, String)> = families::PUMPS.iter().map(|p| (p.0.into(), p.1.into())).collect();
    // nesting of every construct directly inside every other
    let nest: Vec<&(&str, &str)> = families::PUMPS.iter().filter(|p| !p.1.is_empty()).collect();
    for a in &nest {
        for b in &nest {
            if a != b {
                pairs.push((format!("{}{}", a.0, b.0), format!("{}{}", b.1, a.1)));
            }
        }
    }
    // and nesting with material beside it
    for a in &nest {
        for m in ["x", "\n", "\\c{y}", "\\begin{z}\\end{z}", "{\n}", "\n\n"] {
            pairs.push((format!("{m}{}", a.0), a.1.into()));
            pairs.push((a.0.into(), format!("{}{m}", a.1)));
        }
    }
    for (k, (a, b)) in pairs.iter().enumerate() {
        for s in sets {
            let single = k < families::PUMPS.len();
            if quick && !single && s != sets[0] {
                continue;
            }
            v.push(cost::script((a, b), s, if quick { if single { 256 } else { 128 } } else if single { 512 } else { 256 }));
        }
    }
    vec![list("growth", v)]
}

/// texts of one or two constructs side by side, again and again
fn flat_scripts(quick: bool) -> Vec<Family> {
    let units: Vec<&str> = families::PUMPS
        .iter()
        .filter(|p| p.1.is_empty() && !matches!(p.0, "{" | "\\(" | "\\begin{x}" | "\\c{\n}["))
        .map(|p| p.0)
        .chain([
            "a ", "\\c ", "\\c\n\n", "\\%", "{}", "({[a]})", "\\c[\n]{b} ", "\\begin{x}[o]{p}\\end{x}", "\\begin{x}\\begin{y}$a$\\end{y}\\end{x}\n",
            "$$$$", "\\[a\n\n\\c{$b$}\\]", "\\(\\(\\)\\)", "$\\c$", "\r\n", "%}\r", "\\begin{document}a\\end{document}", "\\documentclass[a,b=c]",
        ])
        .collect();
    let sets = [
        ("", "", ""),
        ("{", "", "}"),
        ("\\c{", "\n", "}"),
        ("\\begin{q}[o]", ".", "\\end{q}"),
        ("$", ".", "$"),
        ("\\[", ".", "\\]"),
        ("\\documentclass{c}\n\\begin{document}\n", "", "\\end{document}\n"),
        ("\\begin{document}\n\\end{document}", "", ""),
        ("\\documentclass[", "", "]{c}"),
        ("\\d", "", ""),
        ("", "", "{"),
        ("", "", "\\begin{x}"),
        ("", "", "$"),
    ];
    let mut v = vec![];
    for a in &units {
        for s in sets {
            v.push(cost::script((a, ""), s, if quick { 4096 } else { 32768 }));
            for b in &units {
                if a != b && (!quick || s == sets[0] || s == sets[3]) {
                    let s = cost::script((&format!("{a}{b}"), ""), s, if quick { 1024 } else { 8192 });
                    v.push(s);
                }
            }
        }
    }
    vec![list("flat", v)]
}

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
    "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
    "C29", "C30", "C31", "C32", "C33",
];

pub fn prop(id: &str, tier: &str) -> Option<Prop> {
    let quick = tier != "thorough";
    let text = |id: &'static str, run: fn(&str) -> Seen, concerns: fn(&str) -> bool, focus: Focus| {
        let base = match (id, quick) {
            // several parses of every text
            ("C11" | "C14" | "C20" | "C29", true) => 4,
            ("C11" | "C14" | "C20" | "C29", false) => 6,
            (_, true) => 5,
            (_, false) => 7,
        };
        let (families, model) = families::text(quick, focus, base);
        Prop { id, run, concerns, families, model, shrink: true, snippet: text_snippet, bounds: String::new() }
    };
    let api = |id: &'static str, run: fn(&str) -> Seen, families: Vec<Family>| Prop {
        id,
        run,
        concerns: always,
        families,
        model: (0, 0),
        shrink: true,
        snippet: script_snippet,
        bounds: String::new(),
    };
    // how deep and how wide large trees are, for oracles that look at each node once and for those that print every node
    let (deep, wide): (&[usize], &[usize]) =
        if quick { (&[10, 17, 33, 129, 257], &[9, 17, 65, 257]) } else { (&[10, 17, 33, 65, 129, 257, 300], &[9, 10, 17, 33, 65, 129, 257, 1025]) };
    let (shallow, narrow): (&[usize], &[usize]) =
        if quick { (&[10, 17, 33], &[9, 17, 65]) } else { (&[10, 17, 33, 65], &[9, 10, 17, 33, 65, 129, 257]) };
    Some(match id {
        "C01" => text("C01", text_prop!(tp::c01), well_formed, Focus::Stage1),
        "C02" => text("C02", text_prop!(tp::c02), well_formed, Focus::Env),
        "C03" => text("C03", text_prop!(tp::c03), well_formed, Focus::Maths),
        "C04" => text("C04", text_prop!(tp::c04), well_formed, Focus::Maths),
        "C05" => text("C05", text_prop!(tp::c05), well_formed, Focus::Stage1),
        "C06" => text("C06", text_prop!(tp::c06), well_formed, Focus::Env),
        "C07" => text("C07", text_prop!(tp::c07), well_formed, Focus::Maths),
        "C08" => text("C08", text_prop!(tp::c08), well_formed, Focus::Par),
        "C09" => text("C09", text_prop!(tp::c09), well_formed, Focus::Doc),
        "C10" => text("C10", text_prop!(tp::c10), well_formed, Focus::Lines),
        "C11" => {
            let mut p = text("C11", api::c11, always, Focus::Lines);
            p.families = prefixed("T:", p.families);
            p.families.extend(builder("B:", quick));
            p.families.push(large_trees("B:", shallow, narrow));
            p.families.extend(placed("B:", quick));
            p.concerns = |s| s.strip_prefix("T:").is_none_or(well_formed);
            p.snippet = script_snippet;
            p
        }
        "C12" => text("C12", text_prop!(tp::c12), always, Focus::Env),
        "C13" => text("C13", text_prop!(tp::c13), |s| !Case::new(s).sp3().is_ok(), Focus::Lines),
        "C14" => text("C14", text_prop!(tp::c14), always, Focus::All),
        "C15" => text("C15", text_prop!(tp::c15), well_formed, Focus::All),
        "C16" => api("C16", api::c16, histories12(quick)),
        "C17" => api("C17", api::c17, histories3(quick)),
        "C18" => {
            let mut f = text_only("T:", quick);
            f.extend(builder("B:", quick));
            f.push(large_trees("B:", deep, wide));
            f.extend(placed("B:", quick));
            api("C18", api::c18, f)
        }
        "C19" => text("C19", text_prop!(tp::c19), always, Focus::Comments),
        "C20" => text("C20", text_prop!(tp::c20), well_formed, Focus::All),
        "C21" => {
            let mut f = builder("", quick);
            f.push(large_trees("", deep, wide));
            f.extend(placed("", quick));
            api("C21", api::c21, f)
        }
        "C22" => text("C22", text_prop!(tp::c22), well_formed, Focus::All),
        "C23" => {
            let mut p = api("C23", cost::c23, pump_scripts(quick));
            p.shrink = false;
            p.snippet = cost_snippet;
            p
        }
        "C24" => {
            let mut p = text("C24", up::c24, always, Focus::All);
            p.families = prefixed("T:", p.families);
            p.families.extend(builder("B:", quick));
            p.families.extend(upward("B:", quick));
            p.families.push(large_trees("B:", deep, wide));
            p.families.extend(placed("B:", quick));
            p.concerns = |s| s.strip_prefix("T:").is_none_or(well_formed);
            p.snippet = script_snippet;
            p
        }
        "C25" => {
            let mut f = builder("", quick);
            f.push(tree_pairs(quick));
            let all = builder_syms();
            let all: Vec<&str> = all.iter().map(|s| s.as_str()).filter(|s| !"TL|".contains(s)).collect();
            f.push(trie("differences", "", &all, "~", if quick { 2 } else { 3 }));
            f.push(large_trees("", shallow, narrow));
            f.extend(placed("", quick));
            api("C25", up::c25, f)
        }
        "C26" => {
            let mut f = builder("", quick);
            f.push(large_trees("", shallow, narrow));
            f.extend(placed("", quick));
            api("C26", up::c26, f)
        }
        "C27" => api("C27", up::c27, calls(quick)),
        "C29" => text("C29", text_prop!(edit::c29), |s| Case::new(s).sp1().is_ok(), Focus::All),
        "C33" => api("C33", hist::c33, histories33(quick)),
        "C30" => {
            let mut f = builder("", quick);
            f.push(large_trees("", shallow, narrow));
            f.extend(placed("", quick));
            f.extend(upward("", quick));
            api("C30", edit::c30, f)
        }
        "C31" | "C32" => {
            let mut f = flat_scripts(quick);
            f.extend(pump_scripts(quick));
            let mut p = if id == "C31" { api("C31", cost::c31, f) } else { api("C32", cost::c32, f) };
            if id == "C32" {
                p.families.push(list("distinct", cost::distinct()));
            }
            p.shrink = false;
            p.snippet = cost_snippet;
            p
        }
        "C28" => {
            let mut p = api("C28", cost::c28, flat_scripts(quick));
            p.shrink = false;
            p.snippet = cost_snippet;
            p
        }
        _ => return None,
    })
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// the ids of listed findings of a property
fn listed(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default().lines() {
        // finding: property=C01 id=F1 <what fails>
        if let Some(r) = l.strip_prefix("finding: property=") {
            let mut it = r.splitn(3, ' ');
            if it.next() == Some(id) {
                if let (Some(f), Some(w)) = (it.next().and_then(|f| f.strip_prefix("id=")), it.next()) {
                    v.push((f.to_string(), w.to_string()))
                }
            }
        }
    }
    v
}

pub fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["check", id, tier] => std::process::exit(check(id, tier)),
        ["worker", id, tier, cap, slots, skip, out] => {
            let p = prop(id, tier).unwrap();
            worker(p, Path::new(slots), Path::new(skip), Path::new(out), Duration::from_secs(cap.parse().unwrap()))
        }
        ["run1", id, tier, file] => {
            let p = bare(id, tier);
            std::process::exit(run1(&p, &fs::read_to_string(file).unwrap()))
        }
        ["script", id, s] => {
            let p = bare(id, "quick");
            let c = run1(&p, &unescape(s));
            println!("status {c}");
            std::process::exit(c)
        }
        ["sizes", id, tier] => {
            for f in prop(id, tier).unwrap().families {
                let n = match &f.gen {
                    Gen::Trie { syms, depth, .. } => (0..=*depth as u32).map(|d| (syms.len() as u64).pow(d)).sum(),
                    Gen::List { len, .. } => *len,
                };
                println!("{n:>14} {}", f.name)
            }
        }
        ["deep", n] => deep(n.parse().unwrap()),
        ["show", s] => {
            let s = unescape(s);
            let c = Case::new(&s);
            println!("{:#?}\n{:#?}\n{:#?}", c.sp1(), c.sp2(), c.sp3());
            println!("{:#?}\n{:#?}\n{:#?}", c.r1(), c.r2(), c.r3());
        }
        _ => {
            eprintln!("mc check ID TIER | mc script ID TEXT | mc show TEXT");
            std::process::exit(2)
        }
    }
}

/// the property without its families
fn bare(id: &str, tier: &str) -> Prop {
    let _ = tier;
    let run: fn(&str) -> Seen = match id {
        "C01" => text_prop!(tp::c01),
        "C02" => text_prop!(tp::c02),
        "C03" => text_prop!(tp::c03),
        "C04" => text_prop!(tp::c04),
        "C05" => text_prop!(tp::c05),
        "C06" => text_prop!(tp::c06),
        "C07" => text_prop!(tp::c07),
        "C08" => text_prop!(tp::c08),
        "C09" => text_prop!(tp::c09),
        "C10" => text_prop!(tp::c10),
        "C11" => api::c11,
        "C12" => text_prop!(tp::c12),
        "C13" => text_prop!(tp::c13),
        "C14" => text_prop!(tp::c14),
        "C15" => text_prop!(tp::c15),
        "C16" => api::c16,
        "C17" => api::c17,
        "C18" => api::c18,
        "C19" => text_prop!(tp::c19),
        "C20" => text_prop!(tp::c20),
        "C21" => api::c21,
        "C22" => text_prop!(tp::c22),
        "C23" => cost::c23,
        "C24" => up::c24,
        "C25" => up::c25,
        "C26" => up::c26,
        "C27" => up::c27,
        "C28" => cost::c28,
        "C29" => text_prop!(edit::c29),
        "C30" => edit::c30,
        "C33" => hist::c33,
        "C31" => cost::c31,
        "C32" => cost::c32,
        _ => panic!("no such property"),
    };
    Prop { id: "", run, concerns: always, families: vec![], model: (0, 0), shrink: false, snippet: script_snippet, bounds: String::new() }
}

/// Known finding F4: nesting this deep exhausts an ordinary 2 MiB thread stack.
fn deep(n: usize) {
    use std::str::FromStr;
    let s = "{".repeat(n) + &"}".repeat(n);
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || latex_ast::ast1::Document::from_str(&s).map(|d| d.to_string().len()).is_ok())
        .unwrap()
        .join()
        .unwrap();
}

const DEEP: usize = 20000;

fn check(id: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let quick = tier != "thorough";
    let tier = if quick { "quick" } else { "thorough" };
    let Some(p) = prop(id, tier) else {
        eprintln!("no property {id}");
        return 2;
    };
    if matches!(id, "C23" | "C28" | "C31" | "C32") && !cost::instrumented() {
        eprintln!("{id} needs the build that counts basic blocks: run check.sh");
        return 2;
    }
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let cap = Duration::from_secs(if quick { 500 } else { 6 * 3600 });
    let r = supervise(&p, tier, &dir, cap);
    let code = match r {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok(o) => conclude(&p, tier, &dir, o, start),
    };
    let _ = fs::remove_dir_all(&dir);
    code
}

fn conclude(p: &Prop, tier: &str, dir: &Path, o: Outcome, start: Instant) -> i32 {
    let findings = listed(p.id);
    let mut viols = o.viols.clone();
    let mut known_lines = vec![];
    for (id, n, ex) in &o.known {
        match findings.iter().find(|f| &f.0 == id) {
            Some((_, what)) => known_lines.push(format!("{what} ({n} explored cases, e.g. {ex:?})")),
            None => viols.push((ex.clone(), format!("the deviation {id}, which is not a listed finding"))),
        }
    }
    if p.id == "C14" {
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["deep", &DEEP.to_string()])
            .stderr(std::process::Stdio::null())
            .status();
        let died = !st.is_ok_and(|s| s.success());
        if died {
            match findings.iter().find(|f| f.0 == "F4") {
                Some((_, what)) => known_lines.push(what.clone()),
                None => viols.push(("{".repeat(DEEP) + &"}".repeat(DEEP), "stack overflow".into())),
            }
        }
    }
    for l in &known_lines {
        println!("KNOWN-FINDING: property={} {}", p.id, l);
    }
    let mut code = 0;
    let n_viol = o.report.get("violations").copied().unwrap_or(viols.len() as u64).max(viols.len() as u64);
    if !viols.is_empty() {
        code = 1;
        let short: Vec<(String, String)> = viols.iter().take(3).cloned().collect();
        let mut done = BTreeSet::new();
        for (k, (s, m)) in short.into_iter().enumerate() {
            let (s, m) = if k == 0 { shrink(p, tier, dir, s, m) } else { (s, m) };
            if !done.insert(s.clone()) {
                continue;
            }
            let path = root().join(format!("out/replays/{}-{}.json", p.id, k));
            write_file(
                &path,
                &format!(
                    "{{\n \"property\": {},\n \"script\": {},\n \"message\": {},\n \"replay\": {},\n \"rust\": {}\n}}\n",
                    json_str(p.id),
                    json_str(&s),
                    json_str(&m),
                    json_str(&format!("/verif/mc/target/release/mc script {} '{}'", p.id, escape(&s).replace('\'', "'\\''"))),
                    json_str(&(p.snippet)(&s))
                ),
            );
            println!("  {} on {:?}", m, if s.len() > 400 { s.chars().take(400).collect::<String>() + "..." } else { s.clone() });
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
    }
    evidence(p, tier, &o, start, n_viol, &known_lines);
    let g = |k: &str| o.report.get(k).copied().unwrap_or(0);
    println!(
        "{} {}: {} executions, {} non-trivial, {} states, {} transitions, {:.1} s{}",
        p.id,
        tier,
        g("execs"),
        g("nontrivial"),
        g("states"),
        g("edges"),
        start.elapsed().as_secs_f64(),
        o.stopped.as_ref().map(|s| format!(" (stopped: {s})")).unwrap_or_default()
    );
    for s in &o.skipped {
        eprintln!("not executed, it ends the process and is outside the property: {s:?}");
    }
    code
}

fn evidence(p: &Prop, tier: &str, o: &Outcome, start: Instant, n_viol: u64, known: &[String]) {
    let g = |k: &str| o.report.get(k).copied().unwrap_or(0);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let capped = g("capped") == 1;
    let fams: Vec<String> = p
        .families
        .iter()
        .map(|f| {
            let space = match &f.gen {
                Gen::Trie { pre, syms, post, depth } => format!(
                    "all sequences of at most {depth} of [{}] between {} and {}",
                    syms.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(" "),
                    json_str(pre),
                    json_str(post)
                ),
                Gen::List { len, .. } => format!("all {len} members of the list"),
            };
            let ran = o.families.iter().find(|x| x.0 == f.name);
            format!(
                "{{\"name\": {}, \"space\": {}, \"executions\": {}, \"nontrivial\": {}, \"longest\": {}, \"distinct_states\": {}, \"wall_s\": {}}}",
                json_str(&f.name),
                json_str(&space),
                ran.map_or(0, |x| x.1),
                ran.map_or(0, |x| x.2),
                ran.map_or(0, |x| x.3),
                ran.map_or(0, |x| x.4),
                ran.map_or(0.0, |x| x.5)
            )
        })
        .collect();
    let mut samples: Vec<String> = vec![];
    for f in &p.families {
        match &f.gen {
            Gen::Trie { pre, syms, post, depth } => {
                let mut s = pre.clone();
                for k in 0..*depth {
                    s.push_str(&syms[(k * 5 + 3) % syms.len()])
                }
                s.push_str(post);
                samples.push(json_str(&s))
            }
            Gen::List { len, f } => {
                let s = f(len / 2);
                samples.push(json_str(&s.chars().take(200).collect::<String>()))
            }
        }
    }
    samples.truncate(24);
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"nontrivial_traces\": {},\n  \"model_states\": {},\n  \"model_transitions\": {},\n  \"exhaustive\": {},\n  \"stopped\": {},\n  \"not_executed\": [{}],\n  \"known_findings_met\": [{}],\n  \"families\": [\n   {}\n  ],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(tier),
        seed,
        g("states"),
        g("edges"),
        g("execs"),
        g("nontrivial"),
        p.model.0,
        p.model.1,
        !capped && o.stopped.is_none(),
        o.stopped.as_ref().map_or("null".into(), |s| json_str(s)),
        o.skipped.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        known.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        fams.join(",\n   "),
        samples.join(", "),
        json_str("states are the distinct abstract states (shape of the reference tree or its faults, per stage) met by the explored histories plus the states of the pushdown model; transitions are the distinct (state, symbol, state) steps between them plus the model's"),
        start.elapsed().as_secs_f64(),
        n_viol
    );
    write_file(&root().join(format!("evidence/{}.json", p.id)), &text);
    let _ = O::Held(true);
}
