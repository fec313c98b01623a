//! The spaces of texts that are explored.

use crate::run::*;

pub const CHARS: &[&str] = &["a", " ", "\n", "{", "}", "(", ")", "[", "]", "\\", "%", "$", "1"];
pub const STRUCT: &[&str] = &["a", "\n", "{", "}", "[", "]", "\\", "$"];
pub const ENV: &[&str] =
    &["a", "\n", "{", "}", "\\begin{x}", "\\end{x}", "\\begin{y}", "\\end{y}", "\\begin\n{x}[\n]", "\\c", "$"];
pub const ENV_BAD: &[&str] =
    &["\\begin", "\\end", "{x}", "[y]", " ", "\n", "\\begin{x}", "\\end{x}", "\\begin{y}", "\\end{x}{z}", "{", "}"];
pub const MATHS: &[&str] = &["a", "\n", "$", "$$", "\\(", "\\)", "\\[", "\\]", "{", "}"];
pub const MATHS_ENV: &[&str] =
    &["$", "\\(", "\\)", "\\begin{x}", "\\end{x}", "\n", "\\c{", "}", "a", "\\$", "\n\n"];
pub const PAR: &[&str] = &["a", " ", "\n", "\t", "$", "\\c", "{", "}"];
pub const WHITE: &[&str] = &["a", " ", "\n", "\r", "\t", "\u{b}", "\u{a0}", "\u{2028}", "\u{e9}", "$"];
pub const ARGS: &[&str] = &["\\c", "{", "}", "[", "]", "(", ")", " ", "\n", "a", "\\{", "\\"];
pub const DOC: &[&str] = &[
    "\\documentclass{c}",
    "\\documentclass[o\n]{c}{d}",
    "\\begin{document}",
    "\\end{document}",
    "\\begin\n{document}[\n]",
    "\\end \n{document}",
    "\n",
    "a",
    "$",
    "{",
    "}",
];
pub const DOC2: &[&str] = &[
    "\\begin{document}",
    "\\end{document}",
    "\n",
    "\n\n",
    "a",
    "\\c",
    "{\n}",
    "$",
    "\\)",
    "\\(",
    "\\begin{x}",
    "\\end{x}",
];
pub const CLASS: &[&str] = &["\\documentclass", "{c}", "{", "}", "[", "]", "o", ",", "(", ")", "\n", "\\begin{document}\\end{document}"];
pub const OPT: &[&str] = &["a", "=", ",", " ", "\n", "b", "{", "}", "\\c"];
pub const COMMENT: &[&str] =
    &["%", "\n", "\\", "{", "}", "a", "$", "\\begin{x}", "\\end{x}", " ", "\\c", "\r"];
pub const COMMENT2: &[&str] = &[
    "%", "\n", "\\", "[", "]", "(", ")", "\\(", "\\)", "$$", "\\documentclass{c}", "\\begin{document}", "\\end{document}",
];

/// what stands around a varied part, so that lines and nesting are off their origin
pub const SETTINGS: &[(&str, &str)] = &[
    ("\n.{", "}\n"),
    ("\\c[\n]\n{", "}"),
    ("\n\\begin{q}[\n]\n", "\\end{q}."),
    ("\n\\begin{document}\n", "\\end{document}\n"),
    ("\\begin{document}\n\\end{document}\n", ""),
    ("\n$.\n", "\n.$"),
    ("\n$$.\n", "\n.$$"),
    ("\n\\(\n", "\\)"),
    ("a\n\\[\n", "\\]\n"),
    ("\n\\begin{q}\n[.\n", "]\\end{q}"),
    ("\\c{\n}\n[", "]"),
    ("\\begin{document}\n[\n", "\n]\\end{document}"),
    ("\n\\documentclass[\n", "]{c}"),
    ("\\documentclass{", "}"),
];

/// Something of everything.
pub const TOKENS: &[&str] = &[
    "a", " ", "\n", "\n\n", "{", "}", "[", "]", "(", ")", "\\c", "\\,", "\\\\", "\\$", "$", "$$", "\\(", "\\)", "\\[", "\\]", "\\begin{x}", "\\end{x}",
    "\\begin{document}", "\\end{document}", "\\documentclass", "%", "=", ",",
];

/// A varied part inside every pair of settings, or three of them.
fn compositions(quick: bool) -> Family {
    let fills: Vec<String> = if quick {
        FILLS.iter().map(|x| x.to_string()).collect()
    } else {
        FILLS.iter().flat_map(|a| FILLS.iter().map(move |b| format!("{a}{b}"))).collect()
    };
    let n = SETTINGS.len() as u64;
    let f = fills.len() as u64;
    let m = FILLS.len() as u64;
    // pairs with the fill in the inner one and another between the inner and the outer, then triples
    let pairs = n * n * f * m;
    let triples = n * n * n * f;
    let at = move |i: u64| {
        if i < pairs {
            let (x, i) = (&fills[(i % f) as usize], i / f);
            let (y, i) = (FILLS[(i % m) as usize], i / m);
            let (p, q) = (SETTINGS[(i % n) as usize], SETTINGS[(i / n) as usize]);
            format!("{}{}{x}{}{y}{}", p.0, q.0, q.1, p.1)
        } else {
            let i = i - pairs;
            let (x, i) = (&fills[(i % f) as usize], i / f);
            let (p, q, r) =
                (SETTINGS[(i % n) as usize], SETTINGS[(i / n % n) as usize], SETTINGS[(i / n / n) as usize]);
            format!("{}{}{}{x}{}{}{}", p.0, q.0, r.0, r.1, q.1, p.1)
        }
    };
    Family { name: "compositions".into(), gen: Gen::List { len: pairs + triples, f: Box::new(at) } }
}

pub const NAMES: &[&str] = &[
    "a", "A", "Z", "z", "par", "item", "verb", "verbatim", "begin", "end", "begins", "ends", "beginn", "document",
    "documentclass", "documentstyle", "usepackage", "left", "right", "bgroup", "egroup", "math", "displaymath",
    "equation", "align", "tabular", "itemize", "comment", "lstlisting", "minted", "csname", "endcsname", "makeatletter",
    "section", "input", "include", "newcommand", "def", "let", "catcode", "iffalse", "fi", "ensuremath", "text",
    "mbox", "newenvironment", "title", "author", "maketitle", "abstract", "figure", "table", "center", "array",
    "matrix", "cases", "frac", "sqrt", "label", "ref", "cite", "footnote", "emph", "textbf", "textit", "LaTeX",
    "TeX", "filecontents", "preamble", "trailing", "body", "options", "class", "scope", "chunk", "endgroup",
    "begingroup", "appendix", "today", "d", "e", "b", "q", "en", "beg", "doc", "Document", "Begin", "End",
    "theorem", "proof", "enumerate", "description", "quote", "quotation", "verse", "minipage", "subequations", "gather",
    "multline", "eqnarray", "split", "alignat", "flalign", "smallmatrix", "pmatrix", "bmatrix", "vmatrix", "tikzpicture",
    "tabularx", "longtable", "wrapfigure", "frame", "column", "columns", "block", "thebibliography", "bibitem", "titlepage",
    "flushleft", "flushright", "lemma", "definition", "letter", "picture", "list", "trivlist", "tabbing", "alltt", "code",
    "listing", "Verbatim", "SVerbatim", "lrbox", "savenotes", "subfigure", "sloppypar", "multicols", "subsection",
    "subsubsection", "paragraph", "subparagraph", "chapter", "part", "caption", "includegraphics", "hspace", "vspace",
    "hfill", "vfill", "newline", "linebreak", "pagebreak", "newpage", "clearpage", "noindent", "indent", "centering",
    "textsc", "texttt", "textrm", "textsf", "textnormal", "bf", "it", "rm", "tt", "sf", "sc", "em", "small", "large", "Large",
    "huge", "Huge", "tiny", "over", "sum", "int", "prod", "lim", "alpha", "beta", "infty", "cdot", "times", "leq", "geq",
    "neq", "to", "in", "mathbb", "mathcal", "mathrm", "operatorname", "substack", "intertext", "tag", "notag", "nonumber",
    "hline", "cline", "multicolumn", "multirow", "url", "href", "hyperref", "eqref", "pageref", "bibliography",
    "bibliographystyle", "printbibliography", "thispagestyle", "pagestyle", "setlength", "addtolength", "newcounter",
    "setcounter", "stepcounter", "the", "renewcommand", "providecommand", "renewenvironment", "newtheorem", "gdef", "edef",
    "xdef", "global", "long", "expandafter", "relax", "else", "or", "ifx", "ifnum", "iftrue", "loop", "repeat", "advance",
    "RequirePackage", "LoadClass", "ProvidesPackage", "NeedsTeXFormat", "PassOptionsToPackage", "makeatother", "and",
    "thanks", "date", "text", "str", "string", "char", "space", "null", "none", "true", "false", "auto", "self", "error",
    "A4", "ast", "opt", "option", "arg", "args", "line", "lines", "new", "old", "t", "k", "v", "r", "n", "N", "R", "pt", "cm",
];

fn names() -> Family {
    let mut v = Vec::new();
    for n in NAMES {
        for star in ["", "*", "@", "*@x"] {
            let n = format!("{n}{star}");
            for ctx in [
                "\\N", "\\N\n", "\\N a", "\\N{a}", "\\N{a}{b\n}[c] d", "\\N [a]\n(b) c", "\\N{a\n\nb$c$}", "\\N1",
                "x\n\\N$a$\n", "{\\N}", "[\\N{}]", "$\\N$", "\\(\\N{\n}\\)", "\\N\\N", "\\N\\,", "\\c{\\N{a}}",
                "\\begin{N}\\end{N}", "\\begin{N}a\n\nb$c$\\d{e}\n\\end{N}\n\nf", "\n\\begin{N}[o]{\np}\n\\end{N}.",
                "\\begin{x}\\begin{N}\n\\end{N}\n\\end{x}", "\\begin{N}\\begin{N}\\end{N}\\end{N}", "\\begin{N}",
                "a\n\\end{N}", "{\\begin{N}$a$\\end{N}}", "\\begin{document}\n\\N{b}\n\n\\end{document}\n\\N{c}",
                "\\N{\\begin{document}\\end{document}}", "\\documentclass[\\N,N=N]{N}\\begin{document}N\\end{document}",
                "\\begin {N}a\\end\n{N}b", "\\begin{N}(a) [b]\n{c}d\\end{N}e", "\\begin{N} %c\n\\end{N}%d\n\\N %\n{a}",
                "\\N{N}\\N{N}", "\\N[N,N=N , N]{N}\n", "N", "\\$N\\$", "\\N\\begin{N}\\end{N}\\N",
                "\n\\begin{N}$\n\\end{N}", "\n\\N{\n$}", "\n\\begin{N}\n\\)\\end{N}", "\\begin{N}{\n\\end}\\end{N}", "\\N[\\begin]\\N)", "\\begin{N}\\(\\N\\end{N}",
                "\\begin{N}a\\end{N}[b]", "\\N\\documentclass{a}\n\\N{b}", "\\begin{N}\\documentclass{a}\\documentclass{b}\\end{N}", "\\begin{N}\n\\N{", "\\begin{N}\\begin{x}\\end{N}",
            ] {
                v.push(ctx.replace('N', &n));
            }
        }
    }
    list("names", v)
}

const UNI: &[&str] = &[
    "X", "\\X", "\\aX", "\\a{X}", "\\aX{b}", "\\a{b}X[c]", "{X}", "$X$", "\\(X\\)", "aXb", "\nX\n", "a\n\nX\nb", "aX\n\nb",
    "\\begin{X}X\\end{X}", "\\beginX{e}\\endX{e}", "\\begin{e}X{y}\n\\end{e}X", "\\documentclass[Xa=X,bXc,X]{X}", "\\documentclass[a=Xb,aX=bX]{c}", "%Xa\nX", "%a{X\nb", "\\X{X}",
    "a\n\\aX\n\\end", "\\%X%X\n\\X%\n{a}",
    "\\beginX{document}X[a]X{b}\n\\endX{document}X", "\\begin{e}X[a]X{b}X\\endX{e}", "\\documentclassX[a]X{b}X", "$$X$$\\[X\\]$a$X$a$", "{\\X}\\c[\\X](\\X)$\\X$",
    "a\nX\n\nb\nX\\d\n\nX", "\\(\nX\\c{}X\n\\)X{(X)}X",
];

/// Every scalar value; in the quick tier only every 16th beyond the basic plane, and the emoticons.
fn unicode(quick: bool, heavy: bool) -> Family {
    let ctxs = UNI.len() as u64;
    let bmp = 0x10000u64;
    let total = if quick { bmp + 0x100000 / 16 + 0x50 } else { 0x110000 };
    let few = if heavy { 0x3100 * (ctxs - 3) } else { 0 };
    let f = move |i: u64| {
        // with few contexts beyond the first 0x3100 characters
        let (n, k) = if heavy && i >= 0x3100 * ctxs {
            (0x3100 + (i - 0x3100 * ctxs) / 3, [0, 2, 4][((i - 0x3100 * ctxs) % 3) as usize])
        } else {
            (i / ctxs, i % ctxs)
        };
        let c = if !quick || n < bmp {
            n
        } else if n < bmp + 0x100000 / 16 {
            bmp + (n - bmp) * 16
        } else {
            0x1f600 + n - bmp - 0x100000 / 16
        };
        match char::from_u32(c as u32) {
            Some(c) => UNI[k as usize].replace('X', &c.to_string()),
            None => String::new(),
        }
    };
    let len = if heavy { few + total * 3 } else { total * ctxs };
    Family { name: "unicode".into(), gen: Gen::List { len, f: Box::new(f) } }
}

/// Every pair of ASCII characters.
fn ascii_pairs() -> Family {
    let ctxs = [
        "XY", "\\XY{c}", "\\aXY{c}", "{XY}", "\\begin{XY}\\end{XY}", "$XY$", "a\nXY\nb", "\\documentclass[XY]{XY}", "\\c{a}XY[b]",
        "\\documentclass[aXbY,c]{d}", "%XY\nb", "\\beginX{a}\\end{a}Y", "\\(X\\)Y\n\\c", "\\beginXY{document}aXY\\endXY{document}XYb", "\\begin{x}XY[o]XY{p}\\endXY{x}", "\\documentclassXY[a]XY{b}XY\\begin{document}\\end{document}",
        "$$XY$$", "\\[aXY\\]", "\\begin{document}XY[o]\\end{document}", "{a}XY\n\\c", "X\\Y{\n}\\d",
    ];
    let n = ctxs.len() as u64;
    let f = move |i: u64| {
        let (k, i) = (i % n, i / n);
        let (x, y) = ((i / 128) as u8 as char, (i % 128) as u8 as char);
        ctxs[k as usize].chars().map(|c| match c { 'X' => x, 'Y' => y, c => c }).collect()
    };
    Family { name: "ascii-pairs".into(), gen: Gen::List { len: 128 * 128 * n, f: Box::new(f) } }
}

/// repeated and nested constructs
pub const PUMPS: &[(&str, &str)] = &[
    ("{", "}"),
    ("(", ")"),
    ("[", "]"),
    ("\\c{", "}"),
    ("\\c{a}[", "]"),
    ("\\c[\n]{", "}"),
    ("\\begin{x}", "\\end{x}"),
    ("\\begin{x}[\n]\n", "\n\\end{x}"),
    ("\\begin{x}{\\begin{y}\\end{y}}", "\\end{x}"),
    ("\\begin{x}{", "}\\end{x}"),
    ("{\\begin{x}", "\\end{x}}"),
    ("\\(", "\\)"),
    ("\\[\n", "\\]"),
    ("{$", "$}"),
    ("\\c{$$", "$$}"),
    ("\\begin{x}$", "$\\end{x}"),
    ("\\begin{x}\\(", "\\)\\end{x}"),
    ("$\\c{", "}$"),
    ("a", ""),
    ("\u{e9}", ""),
    ("\n", ""),
    (" \n\n", ""),
    ("a\n\n", ""),
    ("\\c", ""),
    ("\\c{a}", ""),
    ("\\c\n", ""),
    ("\\\\", ""),
    ("$a$", ""),
    ("$$a\n$$", ""),
    ("\\(a\\)", ""),
    ("{a\n}", ""),
    ("\\begin{x}\n\\end{x}", ""),
    ("%a\n", ""),
    ("\\c{\n}[", ""),
    ("{", ""),
    ("}", ""),
    ("$", ""),
    ("\\(", ""),
    ("\\begin{x}", ""),
    ("\\end{x}", ""),
    ("%", ""),
    ("\\", ""),
    // arguments and options, in the settings that make them so
    ("[a]", ""),
    ("{\n}", ""),
    (" {b}", ""),
    ("\n(a)", ""),
    ("{$a$}", ""),
    ("[\\e{}]", ""),
    ("o=v,", ""),
    (",", ""),
    ("k,\n", ""),
    (" =", ""),
    ("a=b=", ""),
    (" \n {a}", ""),
    ("\t[\n]", ""),
];

const PUMP_SETTINGS: &[(&str, &str, &str)] = &[
    ("", "", ""),
    ("", "a", "\nb"),
    ("x\n", "\n\n", "\n\n$y$"),
    ("\\documentclass[k=v]{c}\n\\begin{document}\n", "z", "\n\\end{document}\nt"),
    ("\\c{", "", "}"),
    ("\\documentclass[", "o", "]{c}"),
    ("x\n\\d\n", "", "[y]"),
    ("\\begin{q}", "\n", "\\end{q}\\r"),
    ("\n\\begin{document}", "", "\\end{document}\n"),
    ("\n\\documentclass", "", "{c}\\begin{document}\\end{document}"),
    ("$\\d", "", "$"),
    ("{\\d[\n]", "", "\\e}"),
    ("$$", "", "$$"),
    ("\n\\(", "", "\\)"),
    ("\\[", "\n", "\\]a"),
    ("\\begin{q}", "", "\\end{q}\n"),
    ("\\begin{q}\n", "", "\\end\n{q}\\r\n"),
    ("{", "", "}"),
];

pub fn pump(p: (&str, &str), set: (&str, &str, &str), n: usize) -> String {
    format!("{}{}{}{}{}", set.0, p.0.repeat(n), set.1, p.1.repeat(n), set.2)
}

fn pumps(quick: bool, heavy: bool) -> Family {
    let small: Vec<usize> = if heavy { (1..=18).chain([33, 64, 129]).collect() } else if quick { (1..=40).chain([63, 64, 65, 100, 127, 128, 129]).collect() } else { (1..=70).chain([129, 257]).collect() };
    let mut v = Vec::new();
    for p in PUMPS {
        for s in PUMP_SETTINGS {
            for n in &small {
                v.push(pump(*p, *s, *n));
            }
            // nesting beyond the limits of 8-bit counters
            if s.0.len() + s.2.len() <= 9 {
                v.extend([255, 256, 257, 258].map(|n| pump(*p, *s, n)));
            }
            // flat repetition can go beyond the limits of 8- and 16-bit counters
            if p.1.is_empty() && !p.0.contains('{') {
                let big: &[usize] = if quick { &[257, 1025] } else { &[257, 1025, 5000, 20000] };
                for n in big {
                    v.push(pump(*p, *s, *n));
                }
            }
        }
    }
    for n in [255usize, 256, 257, 65535, 65536, 65537, 70000] {
        let nl = "\n".repeat(n);
        for t in ["N\\c{b}\n", "a N\\c{b}\n$c$", "\\c{aN\\d}\\e\n{", "\\begin{x}[N]b\\d\\end{x}\\c\n", "\\c N {a}\\d", "$aN b$\\c\\)",
            "\\begin{document}N\\c\\end{document}\\d\n", "\\(N\\c\\)\\d}", "%aN\\c{", "\\begin{x}N\\end{y}"] {
            v.push(t.replace('N', &nl));
        }
        if n <= 300 {
            // the same with text on every line
            let l = "a\n".repeat(n);
            for t in ["N\\c{b}\n", "\\c{N\\d}\\e", "\\begin{x}N\\c\\end{x}\\d", "$N\\c$\\d", "\\(N\\)\\d\\begin"] {
                v.push(t.replace('N', &l));
            }
        }
    }
    for n in [1usize, 2, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65536] {
        // long names, labels and stretches
        let l = "q".repeat(n);
        for t in ["\\N", "\\N{a}\\N b", "\\begin{N}a\\end{N}", "\\begin{N}\\end{Nq}", "{N}", "N\\c", "$N$", "\\documentclass[N=N,N]{N}",
            "%N\nN", "\\c N{N}",
            // long labels and keys that differ in one place
            "\\begin{Nx}\\end{Ny}", "\\begin{xN}\\end{yN}", "\\begin{NxN}\\end{NyN}", "\\begin{N\\x}\\end{N\\y}", "\\begin{N}\\end{N\\y}",
            "\\begin{Nx}\\end{N x}", "\\begin{Nx}\\begin{Ny}\\end{Nx}\\end{Ny}", "\\begin{\\N}\\end{\\Nx}", "\\begin{a{N}}\\end{a{Nx}}",
            "\\begin{document}\\end{documentN}", "\\documentclass[NxN=NyN,Ny]{c}", "\\documentclass[xN,yN,Nx,Ny,NxN]{cN}", "\\Nx{a}\\Ny{b}", "\\beginN{x}\\endN{x}", "\\documentclassN{c}"] {
            v.push(t.replace('N', &l));
        }
        let l = " ".repeat(n);
        for t in ["\\cN{a}", "\\cNa", "\\cN", "a\nN\nb", "\\beginN{x}\\endN{x}", "\\documentclass[NaN=NbN,N]{c}", "\\cN\\d", "\\cN%\n{a}"] {
            v.push(t.replace('N', &l));
        }
    }
    list("pumped", v)
}

/// Texts beyond what sixteen bits, or a mebibyte, can count.
fn giant(quick: bool, heavy: bool) -> Family {
    let sets = [("", "", ""), ("\n\\begin{q}\n", "", "\\end{q}\\d"), ("\\begin{document}\n", "", "\n\\end{document}\\d{\n}"), ("\\c{", "\n", "}$\n$")];
    let mut v: Vec<(&str, &str, (&str, &str, &str), usize)> = vec![];
    // side by side
    let flat = PUMPS.iter().map(|p| *p).filter(|p| p.1.is_empty() && p.0 != "\\c{\n}[").chain([("{}", ""), ("\\c{}\n", ""), ("$$$$", ""), ("a$b$\n\n", ""), ("\\,", "")]);
    for (k, p) in flat.enumerate() {
        if matches!(p.0, "{" | "\\begin{x}") {
            continue;
        }
        for (j, s) in sets.iter().enumerate() {
            if j == 0 || !heavy && (!quick || (k + j) % 3 == 0) {
                v.push((p.0, p.1, *s, 65540));
            }
            if !quick {
                v.push((p.0, p.1, *s, 140_000));
            }
        }
    }
    // long
    for x in ["a", "\u{e9}", "\n", " ", "a\n"] {
        for s in [("", "", ""), ("\\c ", "\\d", "\n{b}"), ("{", "", "}"), ("$", "", "$\\c"), ("%", "\n", "\\c"), ("\\begin{q}", "\n\n", "\\end{q}"), ("\\begin{", "", "}"), ("\\documentclass[", "=b,", "]{c}")] {
            if !heavy || s.0.len() < 2 {
                v.push((x, "", s, (1 << 20) + 1));
            }
        }
    }
    // deep
    let nest: Vec<(&str, &str)> = PUMPS.iter().filter(|p| !p.1.is_empty()).copied().collect();
    for p in nest {
        for n in if heavy { &[513usize][..] } else if quick { &[513, 1025][..] } else { &[511, 512, 513, 1024, 1025, 2049] } {
            v.push((p.0, p.1, sets[0], *n));
            v.push((p.0, p.1, sets[1], *n));
        }
    }
    let len = v.len() as u64;
    Family { name: "giant".into(), gen: Gen::List { len, f: Box::new(move |i| { let x = v[i as usize]; pump((x.0, x.1), x.2, x.3) }) } }
}

/// Lists of arguments: every number of them, and every kind of whitespace before each.
fn argument_lists(quick: bool, heavy: bool) -> Family {
    let white = [
        "", " ", "\t", "\n", "  ", "\n\n", " \n", "\n ", " \n ", "\n \n", "\r\n", "\t\t", "\u{a0}", "\u{3000}", "\u{2028}", "\u{b}", "\n\t\n\n", "%a\n", " %\n%\n ", "a", "\\ ", "$",
    ];
    // the list is L, its last whitespace W stands after its last argument or before the closing label
    let heads = [
        "\\cLW", "\n\\begin{x}La\\endW{x}\n", "\\begin{x}L\\endW{x}$\n$", "\n\\begin{document}L\na\n\\endW{document}\n$", "\\begin{document}L\\endW{document}\n\n\\d{\n}\\)", "\\documentclassLW",
        "$\\cLW$\\d", "\\begin{x}\\begin{y}L\\endW{y}\n\\end{x}[z]", "{\n\\begin{x}L$W\n$\\end{x}}\\begin", "\\beginLW\\endL", "\\,LW", "\\c*LW\n\\end{x}",
    ];
    let args: &[&'static str] = if heavy { &["[a]", "{\n}"] } else { &["[a]", "{\n}", "[]", "(b)", "{$\nc$}"] };
    let counts: &[usize] = if heavy { &[1, 2, 3, 4] } else if quick { &[1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 17, 33] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 32, 33, 64, 65] };
    // one argument unlike the others, too
    let odd = ["", "{}", "[\n]", "(", "{$}", "{\\end{x}}", "[\n\n\\)]", "{\n\\begin}", "\\d", "%}\n", "[a]"];
    let mut v: Vec<(&'static str, &'static str, usize, usize, usize, bool)> = vec![];
    for h in heads {
        for a in args.iter().copied() {
            for n in counts {
                let places: Vec<usize> = if *n < 8 { (0..=*n).collect() } else { vec![0, 1, 2, n / 2, n - 2, n - 1, *n] };
                for i in places {
                    for w in 0..white.len() {
                        v.push((h, a, *n, i, w, false));
                    }
                    for w in 0..odd.len() {
                        v.push((h, a, *n, i, w, true));
                    }
                }
            }
        }
    }
    let len = v.len() as u64 * 2;
    let f = move |k: u64| {
        let (h, a, n, i, w, odds) = v[(k / 2) as usize];
        let rest = ["", " "][(k % 2) as usize];
        let list: String = (0..n)
            .map(|j| match (i == j, odds) {
                (true, true) => format!("{rest}{}", odd[w]),
                (true, false) => format!("{}{a}", white[w]),
                _ => format!("{rest}{a}"),
            })
            .collect();
        let last = if i < n { rest } else if odds { odd[w] } else { white[w] };
        h.replace('L', &list).replace('W', last)
    };
    Family { name: "argument-lists".into(), gen: Gen::List { len, f: Box::new(f) } }
}

/// Many constructs side by side, or nested, one of which is unlike the others.
fn odd_one(quick: bool, heavy: bool) -> Family {
    let flat: Vec<&'static str> = PUMPS.iter().filter(|p| p.1.is_empty()).map(|p| p.0).collect();
    let nest: Vec<(&'static str, &'static str)> = PUMPS.iter().filter(|p| !p.1.is_empty()).copied().collect();
    let sets: Vec<(&'static str, &'static str, &'static str)> = if heavy {
        vec![PUMP_SETTINGS[0], PUMP_SETTINGS[3], PUMP_SETTINGS[10], PUMP_SETTINGS[15]]
    } else {
        PUMP_SETTINGS.to_vec()
    };
    let ns: &[usize] = if heavy { &[9] } else if quick { &[3, 9, 17] } else { &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33, 65] };
    let mut at: Vec<(usize, usize)> = vec![];
    for n in ns {
        at.push((*n, n - 1));
        at.push((*n, 1));
        if !quick {
            at.extend([(*n, 0), (*n, n / 2), (*n, *n)]);
        }
    }
    at.sort_unstable();
    at.dedup();
    let inner = ["", "a", "\n", "$", "$u$", "}", "\\end", "\n\n", "\\c{\n}", "\\)", "\\begin{y}\n\\end{y}"];
    let na: Vec<(usize, usize)> = if heavy { vec![(6, 3)] } else if quick { vec![(5, 1), (9, 4), (12, 11)] } else { vec![(3, 1), (5, 1), (7, 3), (9, 4), (9, 8), (12, 11), (17, 9), (33, 16), (65, 64)] };
    let f1 = flat.len() * sets.len() * at.len() * FILLS.len();
    let f2 = nest.len() * nest.len() * na.len() * inner.len();
    let f = move |i: u64| {
        let i = i as usize;
        if i < f1 {
            let (x, i) = (FILLS[i % FILLS.len()], i / FILLS.len());
            let ((n, k), i) = (at[i % at.len()], i / at.len());
            let (s, p) = (sets[i % sets.len()], flat[i / sets.len()]);
            format!("{}{}{x}{}{}{}", s.0, p.repeat(k), p.repeat(n - k), s.1, s.2)
        } else {
            let i = i - f1;
            let (x, i) = (inner[i % inner.len()], i / inner.len());
            let ((n, k), i) = (na[i % na.len()], i / na.len());
            let (p, q) = (nest[i % nest.len()], nest[i / nest.len()]);
            format!("\n{}{}{}{x}{}{}{}\n", p.0.repeat(k), q.0, p.0.repeat(n - k), p.1.repeat(n - k), q.1, p.1.repeat(k))
        }
    };
    Family { name: "odd-one".into(), gen: Gen::List { len: (f1 + f2) as u64, f: Box::new(f) } }
}

/// Every kind of whitespace between every two constructs, in every setting.
fn between(quick: bool, heavy: bool) -> Family {
    let white = [
        "", " ", "\n", "\n\n", " \n \n ", "\n \n", "\n\t\n\n", "\r\n\r\n", "\r\n", "\n\u{a0}\n", "\u{2028}\n\n\u{3000}", "\n\n\n", " \n", "\n ", "a", "\na\n\n", "\n\na\n", "\n\u{b}\n", "%a\n\n", "\n%\n", "\n\\\n", "\n\n \n\n",
    ];
    let some = [
        "", "a", "{}", "{\n}", "\\c", "\\c{b}", "\\,", "$a$", "$$$$", "\\(\\)", "\\[\nb\\]", "\\begin{x}\\end{x}", "\\begin{x}[\n]a\\end\n{x}", "[b]", "\\c\n[b]", "\\$", "\n\n", "}", "{{}}", "$\\c$",
    ];
    let mut sets: Vec<(&'static str, &'static str, &'static str)> = PUMP_SETTINGS.to_vec();
    if !heavy {
        sets.extend([("{{", "", "}}"), ("$$a{", "", "}$$"), ("\\c{a}[{", "", "}]"), ("\\begin{x}\\begin{y}", "\\end{y}", "\\end{x}"), ("\\begin{document}\\end{document}", "", ""), ("\\(\\c{$", "$", "}\\)")]);
    }
    let tails: &[&str] = if quick { &[""] } else { &["", "\n", " \n\n", "\n\n{}", "\\c", "$b$"] };
    let (n, w, ns, nt) = (some.len() as u64, white.len() as u64, sets.len() as u64, tails.len() as u64);
    let tails = tails.to_vec();
    let f = move |i: u64| {
        let (t, i) = (tails[(i % nt) as usize], i / nt);
        let (s, i) = (sets[(i % ns) as usize], i / ns);
        let (x, i) = (white[(i % w) as usize], i / w);
        format!("{}{}{x}{}{t}{}{}", s.0, some[(i % n) as usize], some[(i / n) as usize], s.1, s.2)
    };
    Family { name: "between".into(), gen: Gen::List { len: n * n * w * ns * nt, f: Box::new(f) } }
}

/// Labels that differ by one character, for every character.
fn label_unicode(quick: bool) -> Family {
    let cs: Vec<char> = if quick {
        ('\0'..'\u{3100}').chain('\u{a640}'..'\u{a800}').chain('\u{fb00}'..='\u{ffff}').chain('\u{1f600}'..'\u{1f640}').chain('\u{e0000}'..'\u{e0200}').collect()
    } else {
        ('\0'..=char::MAX).collect()
    };
    let mut v = vec![];
    for c in &cs {
        for t in [
            "\\begin{aX}\\end{a}", "\\begin{a}\\end{Xa}", "\\begin{aXb}\\end{ab}", "\\begin{documentX}a\\end{documentX}",
            "\\begin{dXocument}a\n\\end{document}",
        ] {
            v.push((*c, t));
        }
    }
    let n = v.len();
    let mut cases: Vec<String> = vec![];
    for c in cs {
        let mut like: Vec<String> = vec![c.to_lowercase().collect(), c.to_uppercase().collect(), "\u{fffd}".into(), "?".into()];
        // what is left of it in fewer bits
        like.extend([c as u32 & 0xff, c as u32 & 0x7f, c as u32 & 0xffff].iter().filter_map(|x| char::from_u32(*x)).map(String::from));
        like.retain(|x| *x != c.to_string());
        like.dedup();
        for x in like {
            cases.push(format!("\\begin{{a{c}}}\\end{{a{x}}}"));
            cases.push(format!("\\begin{{{x}b}}\\end{{{c}b}}"));
        }
    }
    let len = (n + cases.len()) as u64;
    let f = move |i: u64| match v.get(i as usize) {
        Some((c, t)) => t.replace('X', &c.to_string()),
        None => cases[i as usize - n].clone(),
    };
    Family { name: "label-unicode".into(), gen: Gen::List { len, f: Box::new(f) } }
}

/// Characters of several bytes, and whitespace, after every number of bytes.
fn offsets(quick: bool, heavy: bool) -> Family {
    let ks: Vec<usize> = if heavy {
        (0..=33).chain([63, 64, 127, 128, 255, 256]).collect()
    } else if quick {
        (0..=40).chain(60..=66).chain(124..=130).chain(252..=258).chain([1023, 1024, 4095, 4096]).collect()
    } else {
        (0..=300).chain([511, 512, 1023, 1024, 4094, 4095, 4096, 8191, 8192, 65535, 65536]).collect()
    };
    let cs = [
        "\u{e9}", "\u{20ac}", "\u{1f600}", "e\u{301}", "\u{3000}", "\u{a0}", "\u{2028}", "\n", " ", "\n\n", "\r\n", "\\", "$", "%", "{", "}", "]", "\u{feff}", "\u{85}", "\u{200b}",
    ];
    let ctxs = [
        "AX", "AXb", "\\AX{b}", "\\AXb[c]", "{AX}c", "\\c{AX}[AXb]", "\\begin{AX}b\\end{AX}", "\\begin{AXb}\\end{AXc}", "\\begin{x}AX\\end{x}", "\\begin{x}[AX]AXb\\end{y}",
        "$AX$", "\\(AXb\\)", "$$AX$$", "%AX\nb", "\\documentclass[AX=AXb,AX]{AXc}", "\\documentclass[a=AX]{c}", "\\documentclass[a AX,b]{c}", "\\begin{document}AX\\end{document}AXb",
        "\nAX\n\\c", "AX\\)", "\\cAX)", "a\n\nAX\nb",
    ];
    let (nc, nx) = (cs.len() as u64, ctxs.len() as u64);
    let len = nc * nx * ks.len() as u64 * 2;
    let f = move |i: u64| {
        let (c, i) = (cs[(i % nc) as usize], i / nc);
        let (t, i) = (ctxs[(i % nx) as usize], i / nx);
        let (a, k) = (["a", "\u{e9}"][(i % 2) as usize], ks[(i / 2) as usize]);
        t.replace('A', &a.repeat(k)).replace('X', c)
    };
    Family { name: "offsets".into(), gen: Gen::List { len, f: Box::new(f) } }
}

/// Every fill far inside, and far after, repeated constructs.
fn deep_fills(quick: bool, heavy: bool) -> Family {
    let mut fills: Vec<String> = FILLS.iter().map(|x| x.to_string()).collect();
    for x in [
        "\\end{y}", "\\begin{y}\\end{x}", "\\begin{x}", "\\begin{y}\\end{y}", "\\begin\n{x}[\n]\n\\end\n{x}", "\\begin{x}{\\begin}\\end{x}", "\\begin{x}\n\\end{x}{}",
        "\\c{\n}\n[\\)]", "\n\n$u$\n\n", "$\\c{\n$$v$$}$", "\\c\n}", "\\c]", "\\c{a}\\d", "\\c{a} b", "\n{[(\n)]}", "\\[\\(\\[\\]\\)\\]", "\\(\\(\\)", "\\documentclass[a=b, c]{d}",
        "\\begin{document}\n\\end{document}\n",
    ] {
        fills.push(x.to_string());
    }
    let nest: Vec<(&str, &str)> = PUMPS.iter().filter(|p| !p.1.is_empty()).copied().collect();
    let flat: Vec<&str> = PUMPS.iter().filter(|p| p.1.is_empty()).map(|p| p.0).collect();
    let ns: &[usize] = if heavy { &[3, 9, 17, 33] } else if quick { &[3, 5, 9, 17, 33, 65] } else { &[3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 128, 129, 257] };
    let fs: &[usize] = if heavy { &[9, 65] } else if quick { &[9, 17, 65, 129] } else { &[5, 9, 10, 17, 33, 65, 100, 129, 257, 1025] };
    let ms: &[usize] = if heavy { &[3] } else if quick { &[3, 9] } else { &[2, 3, 4, 5, 9, 17] };
    let short: Vec<String> = ["", "a", "$", "}", "\\)", "\\begin", "\\end{y}", "\\begin{x}\n", "\n\n", "\\c{\n}[\n]", "{\n$v$}", "\n\\c)"].map(String::from).to_vec();
    let one = nest.len() * ns.len() * fills.len();
    let two = nest.len() * nest.len() * ms.len() * short.len();
    let three = flat.len() * fs.len() * fills.len();
    let (ns, fs, ms) = (ns.to_vec(), fs.to_vec(), ms.to_vec());
    let f = move |i: u64| {
        let i = i as usize;
        if i < one {
            let (x, i) = (&fills[i % fills.len()], i / fills.len());
            let (p, n) = (nest[i % nest.len()], ns[i / nest.len()]);
            format!("\n{}{x}{}\n.", p.0.repeat(n), p.1.repeat(n))
        } else if i < one + two {
            let i = i - one;
            let (x, i) = (&short[i % short.len()], i / short.len());
            let (n, i) = (ms[i % ms.len()], i / ms.len());
            let (p, q) = (nest[i % nest.len()], nest[i / nest.len()]);
            format!("{}{}{x}{}{}", p.0.repeat(n), q.0.repeat(n), q.1.repeat(n), p.1.repeat(n))
        } else {
            let i = i - one - two;
            let (x, i) = (&fills[i % fills.len()], i / fills.len());
            let (p, n) = (flat[i % flat.len()], fs[i / flat.len()]);
            format!("{}{x}\n{p}", p.repeat(n))
        }
    };
    Family { name: "deep-fills".into(), gen: Gen::List { len: (one + two + three) as u64, f: Box::new(f) } }
}

/// Real-looking documents in which one position varies over every construct.
fn documents() -> Family {
    let frames: &[&str] = &[
        "\\documentclass[a4paper, 12pt]{article}\nX\n\\usepackage{amsmath}\n\n\\begin{document}\nHello $x$.\n\n\\section{A}\n\\[y\\]\n\\end{document}\n",
        "\\documentclass{article}\n\\begin{document}\n\\begin{itemize}\n  \\item one\n  X\n  \\item two $$a\n\nb$$\n\\end{itemize}\n\\end{document}\n\nend\n",
        "\\documentclass{article}\n\\begin{document}\n\\begin{figure}[h]\n\\caption{aXb}\n\\end{figure}\n$a\nXb$ c\n\\end{document}",
        "\\begin{document}[\nX]\na\n\\end\n{document}\nX",
        "\\newcommand{\\foo}[1]\n{\n X#1\n}\n\\foo{$X$}\n",
        "\\(a\n\\text{b $c$\nX}\n\\)\nX\n",
        "\\[\n\\begin{aligned}\na&=b\\\\X\n\\end{aligned}\n\\]\n.",
        "\\begin{a}{\n}\n\\begin{b}\nX\n\\end{b}\n\\end{a}X",
    ];
    let mut fills: Vec<String> = vec![];
    for a in FILLS {
        fills.push(a.to_string());
        for b in FILLS {
            fills.push(format!("{a}{b}"));
        }
    }
    let mut v = Vec::new();
    for f in frames {
        for x in &fills {
            v.push(f.replace('X', x));
        }
    }
    list("documents", v)
}

const FILLS: &[&str] = &[
    "", "a", " ", "\n", "\n\n", "$", "$$", "\\$", "\\(", "\\)", "\\[", "\\]", "{", "}", "{}", "[]", "[", "]", "(", ")",
    "(b\n)", "\\c", "\\c{d}", "\\c [\n]", "\\\\", "\\", "%", "%$\n", "\\%", "\\begin{e}", "\\end{e}", "\\begin{e}\n\\end{e}", "\\begin",
    "\\end", "\\begin{document}", "\\end{document}", "\\documentclass", "\\documentclass{b}", "\u{e9}", "\r\n", "\t", "$u$", "\\(u\n\\)", "{\n$v$}",
    "1", "&", "~", "#", "=", ",", "*", "@",
    "%!TEX root = a\n", "% -*- b -*-\n", "%%}\n", "%&c\n", "%}\n", "%%\\end{e}\n", "\\\\%{\n", "%\\(\r",
];

/// Environments under every short name.
fn labels(depth: usize) -> Family {
    let mut names = vec![String::new()];
    let mut last = names.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|n| CHARS.iter().map(move |c| format!("{n}{c}"))).collect();
        names.extend(last.clone());
    }
    let ctxs = ["\\begin{N}a\\end{N}", "\\begin{N}$\n$\\end{N}\nb", "\\begin{N}[\n]\\end{N}\\c", "\\begin{N}\\begin{N}\n\\end{N}\\end{N}", "\\end{N}", "\\begin{N}"];
    list("labels", names.iter().flat_map(|n| ctxs.iter().map(move |c| c.replace('N', n))).collect())
}

/// Texts in which one line break at a time becomes a great many of them.
fn far(quick: bool, focus: Focus) -> Family {
    let mut bases: Vec<String> = vec![];
    for (p, q) in SETTINGS {
        for x in FILLS {
            bases.push(format!("{p}{x}{q}"));
            bases.push(format!("{p}\n{x}\n\\e{q}"));
        }
        for (r, t) in SETTINGS {
            for x in ["", "$", "$$", "}", "\\(", "\\end", "\\begin{e}", "\\documentclass{b}", "\\c", "\n\n$v$"] {
                bases.push(format!("{p}{r}{x}{t}{q}"));
            }
        }
    }
    for x in ["\\begin\n{x}\n[a]\n{b}\nY\n\\end\n{x}Z", "\\c\n{Y\n}\n[\n]Z", "{\n(\nY)\n}Z", "$\n\\c\n{Y}\n$Z"] {
        for y in ["", "$", "}", "{", "\\end", "\\c{"] {
            for z in ["", "\n\n", "$", "]", "\\end{x}", "\\c[\n"] {
                bases.push(x.replace('Y', y).replace('Z', z));
            }
        }
    }
    let sizes: &[usize] = if quick { &[256] } else { &[255, 256, 257, 65536] };
    let mut v = vec![];
    for b in &bases {
        for (i, _) in b.match_indices('\n') {
            for n in sizes {
                v.push((b.clone(), i, *n));
            }
        }
    }
    if quick && focus == Focus::Lines {
        for (k, b) in bases.iter().enumerate() {
            if k % 23 == 0 {
                v.extend(b.match_indices('\n').map(|(i, _)| (b.clone(), i, 65536)));
            }
        }
    }
    let f = move |k: u64| {
        let (b, i, n) = &v[k as usize];
        format!("{}{}{}", &b[..*i], "\n".repeat(*n), &b[i + 1..])
    };
    let len = {
        let per: usize = bases.iter().map(|b| b.matches('\n').count()).sum();
        let more: usize = if quick && focus == Focus::Lines {
            bases.iter().step_by(23).map(|b| b.matches('\n').count()).sum()
        } else {
            0
        };
        (per * sizes.len() + more) as u64
    };
    Family { name: "far".into(), gen: Gen::List { len, f: Box::new(f) } }
}

/// Varied texts with something put into every place, in place of every character, or, of a few things, into every two
/// places; and every stretch of them removed, doubled, or moved to another place.
fn edited(quick: bool, heavy: bool) -> Family {
    let bases = [
        "\\documentclass[a, b=c]{d e}\n\\u{v}\n\n\\begin {document}[o]\n{p}A $x$\n\n\\[y\\]\n\\end {document} z\n\n$t$",
        "\\begin{x} [a]\n{b}c\\begin{x}d\\end{x} \\e {f}[g]h\n\\end\n{x}\n\n{i(j[k]l)m}\\, n",
        "a $b\\c{d}$ e $$f {g}\n$$\n\n\\(h \\begin{i}j\\end{i}\\) k\\[\\(l\\)\\]\\$m\n",
        "\\c{a\n\n$b$ \\begin{q}r\\end{q}}\n(s\\)t)[\\]u] v\\w*[x]{y}z%A{\nB\\%C",
        "\\[a\\text{b $c$ d}\n\\{e\\}\\]\n \nf\\begin\n{g h}\ni\\end\n{g h}.\n\\\\[j]\n",
    ];
    let mut things: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).collect();
    for c in [
        "\u{80}", "\u{85}", "\u{a0}", "\u{ad}", "\u{e9}", "\u{df}", "\u{130}", "\u{301}", "\u{1680}", "\u{180e}", "\u{2000}", "\u{2003}", "\u{2009}", "\u{200a}", "\u{200b}",
        "\u{200d}", "\u{200e}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{2060}", "\u{3000}", "\u{4e00}", "\u{fe0f}", "\u{feff}", "\u{ff04}", "\u{ff3c}", "\u{ffff}",
        "\u{1f600}", "\u{10ffff}", "\n\n", "\r\n", " \n", "\n ", "$$", "\\a", "\\a ", "\\,", "\\\\", "\\\n", "\\%", "\\$", "{}", "[]", "()", "{\n}", "$u$", "$\n\n$", "\\(\\)", "\\(",
        "\\)", "\\[\n\\]", "\\[", "\\]", "%\n", "%b\n\n", "%", "\\begin{x}\\end{x}", "\\begin{x}", "\\end{x}", "\\begin{document}\n\\end{document}", "\\begin", "\\end",
        "\\end{document}", "\\begin{document}", "\\documentclass{a}", "\\documentclass[\n]{b}", "\n\n\n\n", "\n\t\n",
    ] {
        things.push(c.to_string());
    }
    let few = if heavy {
        vec!["\n", "$", "\\", "{", "}"]
    } else if quick {
        vec!["\n", " ", "$", "\\", "{", "}", "[", "%", "a", "\n\n"]
    } else {
        vec![
            "\n", " ", "$", "\\", "{", "}", "[", "]", "(", ")", "%", "a", "\n\n", "$$", "\\(", "\\)", "\\begin{x}", "\\end{x}", "{}", "\\c", "\u{a0}", "\u{e9}", "*", "=", ",",
        ]
    };
    let bases: Vec<Vec<char>> = bases.iter().map(|b| b.chars().collect()).collect();
    let n = things.len() as u64;
    let m = few.len() as u64;
    // of each base: the ones, the twos, the moves
    let sizes: Vec<(u64, u64, u64)> = bases
        .iter()
        .map(|b| {
            let l = b.len() as u64 + 1;
            (l * n * 2, l * l * m * m, if heavy { 0 } else { l * l * if quick { 4 } else { l } })
        })
        .collect();
    let len = sizes.iter().map(|s| s.0 + s.1 + s.2).sum();
    let f = move |mut i: u64| {
        let mut k = 0;
        while i >= sizes[k].0 + sizes[k].1 + sizes[k].2 {
            i -= sizes[k].0 + sizes[k].1 + sizes[k].2;
            k += 1;
        }
        let b = &bases[k];
        let l = b.len() as u64 + 1;
        let text = |c: &[char]| c.iter().collect::<String>();
        if i < sizes[k].0 {
            let (x, i) = (&things[(i % n) as usize], i / n);
            let (at, over) = ((i % l) as usize, (i / l) as usize);
            return format!("{}{x}{}", text(&b[..at]), text(&b[(at + over).min(b.len())..]));
        }
        i -= sizes[k].0;
        if i < sizes[k].1 {
            let (x, i) = (few[(i % m) as usize], i / m);
            let (y, i) = (few[(i % m) as usize], i / m);
            let (p, q) = ((i % l) as usize, (i / l) as usize);
            let (p, q) = (p.min(q), p.max(q));
            return format!("{}{x}{}{y}{}", text(&b[..p]), text(&b[p..q]), text(&b[q..]));
        }
        i -= sizes[k].1;
        // a stretch from p to q is removed, doubled, reversed in place; or put at r
        let (p, i) = ((i % l) as usize, i / l);
        let (q, how) = ((i % l) as usize, i / l);
        let (p, q) = (p.min(q), p.max(q));
        let (a, s, z) = (text(&b[..p]), text(&b[p..q]), text(&b[q..]));
        match how {
            0 => format!("{a}{z}"),
            1 => format!("{a}{s}{s}{z}"),
            2 => format!("{s}{a}{z}"),
            3 => format!("{a}{z}{s}"),
            r => {
                let r = r as usize;
                if r <= p {
                    format!("{}{s}{}{z}", text(&b[..r]), text(&b[r..p]))
                } else {
                    format!("{a}{}{s}{}", text(&b[q..r.max(q).min(b.len())]), text(&b[r.max(q).min(b.len())..]))
                }
            }
        }
    };
    Family { name: "edited".into(), gen: Gen::List { len, f: Box::new(f) } }
}

/// Environments begun under one name and ended under another.
fn label_pairs(quick: bool) -> Family {
    let mut names = vec![String::new()];
    let mut last = names.clone();
    for _ in 0..if quick { 2 } else { 3 } {
        last = last.iter().flat_map(|n| CHARS.iter().map(move |c| format!("{n}{c}"))).collect();
        names.extend(last.clone());
    }
    for n in [
        "document", "Document", "DOCUMENT", "document ", " document", "document\n", "documen", "documents", "document*",
        "doc ument", "{document}", "docu\\ment", "document%\n", "dokument", "\u{e9}", "e\u{301}", "E\u{301}", "x*", "X", "A", "a*", "a@",
        "\\a", "\\a ", "\\a{}", "{a}", "{a }", "\\a{a}{b}", "\\a{a} {b}", "\\a{a}  {b}", "\\a {a}", "\\a[a]", "\\a{{a}}", "{{a}}", "\\a{a\n}", "\u{a0}a", "a\u{a0}", "a\u{200b}", "$a$", "a$", "\u{ff41}",
    ] {
        names.push(n.to_string());
    }
    let n = names.len() as u64;
    let ctxs = ["\\begin{X}\\end{Y}", "\n\\begin{X}$\n$\\begin{Y}\\end{X}\n\\end{Y}"];
    let f = move |i: u64| {
        let (c, i) = (ctxs[(i % 2) as usize], i / 2);
        let (x, y) = (&names[(i % n) as usize], &names[(i / n) as usize]);
        // a name may hold an X or a Y
        c.replace('X', "\u{1}").replace('Y', "\u{2}").replace('\u{1}', x).replace('\u{2}', y)
    };
    Family { name: "label-pairs".into(), gen: Gen::List { len: n * n * 2, f: Box::new(f) } }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Stage1,
    Env,
    Maths,
    Par,
    Doc,
    Comments,
    Lines,
    All,
}

/// `base` is the depth of the sequences outside the property's subject
pub fn text(quick: bool, focus: Focus, base: usize) -> (Vec<Family>, (u64, u64)) {
    use Focus::*;
    let q = |a: usize, b: usize| if quick { a } else { b };
    let mut v = vec![];
    // everything everywhere, deeper where the property's subject lies
    let d = |f: &[Focus], base: usize| base + f.contains(&focus) as usize;
    let b = base;
    // each execution of these properties is many parses
    let heavy = quick && base < 5;
    // the others reach one further
    let e = b + (quick && !heavy) as usize;
    v.push(trie("chars", "", CHARS, "", d(&[Stage1, All, Comments], e)));
    v.push(trie("struct", "", STRUCT, "", b + 2));
    v.push(trie("args", "", ARGS, "", d(&[Stage1, Lines], e)));
    v.push(trie("env", "", ENV, "", d(&[Env, Lines], e)));
    v.push(trie("env-bad", "", ENV_BAD, "", d(&[Env], e)));
    v.push(trie("maths", "", MATHS, "", d(&[Maths, Lines, All], e)));
    v.push(trie("maths-env", "", MATHS_ENV, "", d(&[Maths], e)));
    v.push(trie("par", "", PAR, "", d(&[Par], b + 1)));
    v.push(trie("white", "", WHITE, "", d(&[Par], e)));
    v.push(trie("doc", "", DOC, "", d(&[Doc, Lines], e)));
    v.push(trie("doc2", "", DOC2, "", d(&[Doc], e)));
    v.push(trie("class", "", CLASS, "", d(&[Doc], e)));
    v.push(trie("options", "\\documentclass[", OPT, "]{c}", d(&[Doc], b + 1)));
    v.push(trie("comment", "", COMMENT, "", d(&[Comments], e)));
    v.push(trie("comment2", "", COMMENT2, "", d(&[Comments], b - 1)));
    v.push(trie("tokens", "", TOKENS, "", if quick { b } else { b - 1 }));
    v.push(compositions(quick));
    v.push(trie("fills", "", FILLS, "", q(2, 4) + (quick && focus != All) as usize));
    v.push(labels(q(3, 4)));
    for (i, (x, y)) in SETTINGS.iter().enumerate() {
        v.push(trie(&format!("setting-{i}-chars"), x, CHARS, y, b - 1));
        v.push(trie(&format!("setting-{i}-env"), x, ENV, y, b - 1));
        v.push(trie(&format!("setting-{i}-maths"), x, MATHS_ENV, y, b - 1));
    }
    v.push(names());
    v.push(documents());
    v.push(unicode(quick, heavy));
    v.push(ascii_pairs());
    v.push(pumps(quick, heavy));
    v.push(deep_fills(quick, heavy));
    v.push(giant(quick, heavy));
    v.push(offsets(quick, heavy));
    v.push(between(quick, heavy));
    v.push(odd_one(quick, heavy));
    v.push(argument_lists(quick, heavy));
    if !heavy && matches!(focus, Env | Doc | All | Stage1 | Comments) {
        v.push(label_unicode(quick));
    }
    v.push(edited(quick, heavy));
    v.push(far(quick, focus));
    v.push(label_pairs(quick));
    let m = crate::model::explore(q(2, 3), if quick { &["\n\n$z$"] } else { &["\n\n$z$", "[y]\n", "\\d\n{"] });
    let counts = (m.states, m.transitions);
    v.push(list("model", m.texts));
    (v, counts)
}
