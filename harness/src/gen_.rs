//! Workload generators: `soup` produces hostile, mostly invalid input; `Gen::seq` produces valid
//! formulas as token lists which can be laid out in different ways.
use crate::rng::Rng;

pub struct Cmd {
    pub name: String,
    pub kind: String,
    pub ch: Option<char>,
}

pub struct Data {
    pub cmds: Vec<Cmd>,
    pub corpus: Vec<String>,
}

impl Data {
    pub fn load() -> Data {
        let mut cmds = Vec::new();
        for l in include_str!("../data/commands.txt").lines() {
            let mut f = l.split('\t');
            let name = f.next().unwrap().to_string();
            let kind = f.next().unwrap().to_string();
            let ch = f.next().and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32);
            cmds.push(Cmd { name, kind, ch });
        }
        let corpus: Vec<String> = serde_json::from_str(include_str!("../data/corpus.json")).unwrap();
        Data { cmds, corpus }
    }
    pub fn of_kind(&self, k: &str) -> Vec<&Cmd> {
        self.cmds.iter().filter(|c| c.kind == k).collect()
    }
}

pub const ENVS: &[&str] = &[
    "array", "darray", "subarray", "align", "align*", "aligned", "equation", "equation*", "gather", "gather*",
    "gathered", "multline", "multline*", "matrix", "pmatrix", "bmatrix", "Bmatrix", "vmatrix", "Vmatrix", "cases", "dcases",
    "rcases", "drcases", "split", "smallmatrix",
];

pub fn rand_char(r: &mut Rng, xml_only: bool) -> char {
    loop {
        let c = match r.below(10) {
            0..=3 => char::from_u32(r.range(0x20, 0x7e) as u32),
            4 => char::from_u32(r.range(0xa0, 0x3ff) as u32),
            5 => char::from_u32(r.range(0x2000, 0x2bff) as u32),
            6 => char::from_u32(r.range(0x1d400, 0x1d7ff) as u32),
            7 => char::from_u32(r.range(0x300, 0x36f) as u32),
            8 => char::from_u32(r.range(0, 0x1f) as u32),
            _ => char::from_u32((r.next() % 0x110000) as u32),
        };
        if let Some(c) = c {
            if !xml_only || crate::xml::xml_char(c) {
                return c;
            }
        }
    }
}

fn fragment(r: &mut Rng, d: &Data, depth: u32, xml_only: bool, out: &mut String) {
    match r.below(40) {
        0..=5 => out.push(*r.choose(&['a', 'x', 'y', 'f', 'n', 'A', 'Z', 'i', 'q'])),
        6 | 7 => out.push_str(r.pick(&["1", "23", "0", "9.5", "12,3", ".5"])),
        8..=10 => out.push_str(r.pick(&["+", "-", "=", "<", ">", "&", "|", ",", ".", "/", "*", "!", "?", ":", ";", "'", "''", "\"", "`", "@", "#1", "#", "#9", "##", "~", "$", "$$"])),
        11 | 12 => out.push_str(r.pick(&["^", "_", "{", "}", "[", "]", "(", ")", " ", "\n", "%", "%c\n", "\t", "\\", "&", "\\\\"])),
        13..=20 => {
            let c = r.choose(&d.cmds);
            out.push('\\');
            out.push_str(&c.name);
            if r.pct(60) {
                out.push(' ');
            }
            if depth > 0 {
                for _ in 0..r.below(4) {
                    if r.pct(75) {
                        out.push('{');
                        soup_into(r, d, depth - 1, xml_only, out);
                        out.push('}');
                    } else {
                        fragment(r, d, depth - 1, xml_only, out)
                    }
                }
            }
        }
        21 | 22 if depth > 0 => {
            let e = r.pick(ENVS);
            let numbered = r.pct(30);
            out.push_str(&format!("\\begin{{{e}}}"));
            if e.contains("array") || r.pct(3) {
                out.push_str(r.pick(&["{cc}", "{l|r}", "{|c||c|}", "{:c}", "{}", "{lcr}", "{x}", "{c", "[t]{c}", "c", "{r}"]));
            }
            for _ in 0..r.below(8) {
                match r.below(9) {
                    0..=2 => out.push('&'),
                    3 | 4 => out.push_str("\\\\"),
                    5 => out.push_str(r.pick(&["\\hline ", "\\hdashline ", "\\\\[2pt]", "\\\\*", "\\cr ", "\\newline "])),
                    6 if numbered => out.push_str(r.pick(&["\\tag{1}", "\\label{a}", "\\nonumber ", "\\notag ", "\\tag*{x}"])),
                    _ => soup_into(r, d, depth - 1, xml_only, out),
                }
            }
            if r.pct(92) {
                let e2 = if r.pct(97) { e } else { r.pick(ENVS) };
                out.push_str(&format!("\\end{{{e2}}}"));
            }
        }
        23 | 24 if depth > 0 => {
            out.push_str("\\left");
            out.push_str(r.pick(&["(", "[", "\\{", "|", ".", "<", "\\langle ", "\\lfloor ", "x", "\\|", "/", "\\uparrow "]));
            soup_into(r, d, depth - 1, xml_only, out);
            if r.pct(20) {
                out.push_str("\\middle|");
                soup_into(r, d, depth - 1, xml_only, out);
            }
            if r.pct(92) {
                out.push_str("\\right");
                out.push_str(r.pick(&[")", "]", "\\}", "|", ".", ">", "\\rangle ", "\\rfloor ", "y", "\\|"]));
            }
        }
        25 | 26 if depth > 0 => {
            out.push('{');
            soup_into(r, d, depth - 1, xml_only, out);
            out.push('}');
        }
        27 => out.push_str(r.pick(&[
            "\\text{a < b & c}", "\\text{<b>\"'&amp;}", "\\operatorname{a<b&c}", "\\mathrm{<}", "\\color{red}", "\\color{<x>}", "\\textcolor{#ff0000}{x}", "\\label{<a&b\">}",
            "\\eqref{a}", "\\eqref{a\"b<c>}", "\\tag{<i>}", "\\tag*{\"&}", "\\begin{<b>}", "\\<", "\\&", "\\\"", "\\'", "\\hspace{1<2}", "\\hspace{3em}", "\\genfrac{<}{>}{1pt}{}{a}{b}", "\\genfrac(){}{0}ab",
            "\\text{\\textbf{x<y}}", "\\text{\\\"a\\'{e}\\^o}", "\\url{x}", "\\raisebox{2pt}{a}", "\\sideset{_a^b}{_c^d}\\sum", "\\prescript{a}{b}{C}", "\\mbox{x}", "\\text{$x<y$}", "\\undefinedcmd", "\\unknown<", "\\fbox{a<b}",
        ])),
        28 => out.push_str(r.pick(&[
            "\\newcommand{\\foo}[1]{#1+#1}", "\\newcommand\\bar{x}", "\\renewcommand{\\alpha}{\\beta}", "\\providecommand{\\foo}{y}", "\\def\\foo#1#2{#2#1}", "\\gdef\\foo{z}", "\\global\\def\\foo{w}",
            "\\let\\foo=\\alpha", "\\let\\foo\\bar", "\\foo{a}{b}", "\\foo", "\\def\\foo{\\foo}", "\\def\\x#1{\\x{#1#1}}\\x a", "\\newcommand{\\foo}[2][d]{#1}", "\\newcommand{\\foo}", "\\def\\foo#1", "\\let\\foo", "\\global", "\\global x",
            "\\newcommand{\\foo}[3]{#4}", "\\renewcommand\\foo{\\text{#1}}", "\\def\\foo#2{}", "\\newcommand{x}{y}", "\\foo\\foo",
        ])),
        29..=31 => out.push(rand_char(r, xml_only)),
        32 | 33 => out.push_str(r.pick(&["^{a}", "_{b}", "^a_b", "_1^2", "^\\prime", "''^2", "^'", "_\\text{x}", "^{}", "_{}", "\\limits_a", "\\nolimits^b", "\\sum_{i}^n", "\\int_0^1", "\\lim_{x\\to0}", "\\prod\\limits^a", "\\limits"])),
        34 => out.push_str(r.pick(&["\\over ", "\\choose ", "\\atop ", "\\brace ", "\\displaystyle ", "\\scriptstyle ", "\\bf ", "\\rm ", "\\cal ", "\\Huge ", "\\tiny ", "\\not", "\\not=", "\\not\\in ", "\\big(", "\\Bigl|", "\\bigm/", "\\biggr."])),
        35 => out.push_str(r.pick(&["\u{338}", "é", "ß", "∑", "≤", "𝔸", "′", "‴", "\u{200d}", "日本", "😀", "\u{feff}", "\u{2061}", "ﬁ"])),
        _ => {
            if !d.corpus.is_empty() && r.pct(50) {
                let c: Vec<char> = r.choose(&d.corpus).chars().collect();
                let a = r.below(c.len().max(1));
                let b = (a + 1 + r.below(25)).min(c.len());
                out.extend(&c[a.min(b)..b]);
            } else {
                out.push('z')
            }
        }
    }
}

pub fn soup_into(r: &mut Rng, d: &Data, depth: u32, xml_only: bool, out: &mut String) {
    let n = 1 + r.below(if depth > 2 { 8 } else { 4 });
    for _ in 0..n {
        fragment(r, d, depth, xml_only, out);
        if out.len() > 4000 {
            return;
        }
    }
}

/// Hostile input: random fragments, mutated corpus, pure noise.
pub fn soup(r: &mut Rng, d: &Data, xml_only: bool) -> String {
    let mut s = String::new();
    match r.below(10) {
        0..=4 => {
            let dep = 1 + r.below(4) as u32;
            soup_into(r, d, dep, xml_only, &mut s)
        }
        5..=7 => {
            // mutate the corpus
            let mut c: Vec<char> = r.choose(&d.corpus).chars().collect();
            for _ in 0..(1 + r.below(4)) {
                let n = c.len();
                match r.below(6) {
                    0 if n > 0 => {
                        let i = r.below(n);
                        let j = (i + 1 + r.below(4)).min(n);
                        c.drain(i..j);
                    }
                    1 => {
                        let mut f = String::new();
                        fragment(r, d, 1, xml_only, &mut f);
                        let i = r.below(n + 1);
                        let tail = c.split_off(i);
                        c.extend(f.chars());
                        c.extend(tail);
                    }
                    2 => {
                        let o: Vec<char> = r.choose(&d.corpus).chars().collect();
                        let i = r.below(n + 1);
                        let tail = c.split_off(i);
                        c.extend(o);
                        c.extend(tail);
                    }
                    3 if n > 1 => {
                        let i = r.below(n);
                        let j = r.below(n);
                        c.swap(i, j);
                    }
                    4 if n > 0 => {
                        let i = r.below(n);
                        let j = (i + 1 + r.below(12)).min(n);
                        let dup: Vec<char> = c[i..j].to_vec();
                        let tail = c.split_off(j);
                        c.extend(dup);
                        c.extend(tail);
                    }
                    _ => {
                        let i = r.below(n + 1);
                        c.insert(i, rand_char(r, xml_only));
                    }
                }
            }
            s = c.into_iter().collect();
        }
        8 => {
            for _ in 0..r.below(60) {
                s.push(rand_char(r, xml_only));
            }
        }
        _ => {
            // a valid formula with one token dropped, doubled or replaced
            let g = Gen { d };
            let mut t = g.formula(r);
            if !t.is_empty() {
                let i = r.below(t.len());
                match r.below(4) {
                    0 => {
                        t.remove(i);
                    }
                    1 => {
                        let x = t[i].clone();
                        t.insert(i, x);
                    }
                    2 => {
                        let j = r.below(t.len());
                        t.swap(i, j);
                    }
                    _ => {
                        let mut f = String::new();
                        fragment(r, d, 1, xml_only, &mut f);
                        t[i] = T::A(f);
                    }
                }
            }
            s = layout(&t, Lay::Min, r);
        }
    }
    if xml_only {
        s.retain(crate::xml::xml_char);
    }
    s
}

// ------------------------------------------------------------------------------------------

/// A piece of a valid formula.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    /// A control word (printed with the backslash).
    W(String),
    /// Anything else, printed as is.
    A(String),
    /// Optional braces around a single-token argument.
    Ob,
    Cb,
    /// No whitespace may be put here.
    Glue,
}

pub fn w(s: &str) -> T {
    T::W(s.to_string())
}
pub fn a(s: &str) -> T {
    T::A(s.to_string())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lay {
    /// As little whitespace as possible; optional braces written.
    Min,
    /// One space between all tokens.
    Spaced,
    /// Random whitespace, newlines and comments.
    Wild,
    /// As `Min`, without the optional braces.
    NoBraces,
    /// As `Min`, with the optional braces doubled or not, at random.
    MixedBraces,
}

pub fn layout(t: &[T], lay: Lay, r: &mut Rng) -> String {
    let mut s = String::new();
    let mut last_word = false;
    let mut glue = true;
    let mut braces: Vec<u8> = Vec::new();
    for tok in t {
        let piece: String = match tok {
            T::Glue => {
                glue = true;
                continue;
            }
            T::W(x) => format!("\\{x}"),
            T::A(x) => x.clone(),
            T::Ob => match lay {
                Lay::NoBraces => {
                    // a brace-less argument
                    continue;
                }
                Lay::MixedBraces => {
                    let n = r.below(4) as u8; // 0..=3, mostly 1
                    let n = if n == 3 { 1 } else { n };
                    braces.push(n);
                    if n == 0 {
                        continue;
                    }
                    "{".repeat(n as usize)
                }
                _ => "{".into(),
            },
            T::Cb => match lay {
                Lay::NoBraces => continue,
                Lay::MixedBraces => {
                    let n = braces.pop().unwrap_or(1);
                    if n == 0 {
                        continue;
                    }
                    "}".repeat(n as usize)
                }
                _ => "}".into(),
            },
        };
        if piece.is_empty() {
            continue;
        }
        let first = piece.chars().next().unwrap();
        let need = last_word && (first.is_ascii_alphabetic() || first == '*' && !star_ok(&s));
        if need {
            s.push(' ');
        }
        if !glue || need {
            match lay {
                Lay::Spaced if !need => s.push(' '),
                Lay::Wild => s.push_str(&wild_ws(r)),
                _ => {}
            }
        }
        s.push_str(&piece);
        last_word = matches!(tok, T::W(_));
        glue = false;
    }
    s
}

/// Whether a `*` may follow the command at the end of `s` without a space.
fn star_ok(s: &str) -> bool {
    let name = &s[s.rfind('\\').unwrap_or(0)..];
    thread_local! {
        static KNOWN: std::cell::RefCell<std::collections::HashMap<String, bool>> = Default::default();
    }
    KNOWN.with_borrow_mut(|k| {
        *k.entry(name.into()).or_insert_with(|| {
            // these exist with a star, too
            !["\\operatorname", "\\tag"].contains(&name)
                && math_core::LatexToMathML::new(Default::default()).is_ok_and(|c| {
                    !matches!(c.convert_with_local_state(name, math_core::MathDisplay::Inline),
                        Err(e) if e.error_message().contains("Unknown command"))
                })
        })
    })
}

pub fn wild_ws(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(10) {
        0..=4 => {}
        5 => s.push(' '),
        6 => s.push('\n'),
        7 => {
            for _ in 0..=r.below(4) {
                s.push(*r.choose(&[' ', '\t', '\n', '\r', ' ']));
            }
        }
        _ => {
            if r.pct(40) {
                s.push(' ');
            }
            for _ in 0..=r.below(2) {
                s.push('%');
                s.push_str(r.pick(&["", " c", "{", "} \\frac", "\\", "% %", "$&^_", "é", " \\end{x}", "\\begin{"]));
                s.push('\n');
                if r.pct(40) {
                    s.push_str(r.pick(&[" ", "\t", "\n", "  \n"]));
                }
            }
        }
    }
    s
}

pub struct Gen<'d> {
    pub d: &'d Data,
}

const GREEK: &[&str] = &["alpha", "beta", "gamma", "delta", "pi", "omega", "Gamma", "Delta", "Omega", "varepsilon", "ell", "hbar", "aleph"];
const FUNCS: &[&str] = &["sin", "cos", "log", "exp", "det", "lim", "max", "min", "sup", "gcd", "argmax", "ln", "dim", "Pr"];
const RELS: &[&str] = &["leq", "geq", "in", "subset", "equiv", "sim", "to", "mapsto", "Rightarrow", "approx", "perp", "mid", "neq", "notin"];
const BINS: &[&str] = &["cdot", "times", "pm", "cup", "cap", "oplus", "otimes", "setminus", "wedge", "ast", "circ"];
const ACC: &[&str] = &["hat", "bar", "tilde", "vec", "dot", "ddot", "check", "breve", "overline", "underline", "widehat", "mathring", "overrightarrow", "acute", "grave"];
const ALPH: &[&str] = &["mathbb", "mathcal", "mathfrak", "mathbf", "mathrm", "mathit", "mathsf", "mathtt", "mathscr", "boldsymbol", "bm"];
/// Commands which stand for several symbols.
pub const MULTI: &[&str] = &["ldots", "cdots", "coloneqq", "dblcolon", "ngeqq", "nsubseteqq", "implies", "surd", "idotsint"];
const SP: &[&str] = &["\\,", "\\;", "\\:", "\\!", "\\>", "\\ "];
const LD: &[&str] = &["(", "[", "\\{", "|", ".", "\\langle", "\\lfloor", "\\lceil", "\\|", "/", "\\lbrace", "\\lvert"];
const RD: &[&str] = &[")", "]", "\\}", "|", ".", "\\rangle", "\\rfloor", "\\rceil", "\\|", "/", "\\rbrace", "\\rvert"];

/// A delimiter as token.
pub fn delim(s: &str) -> T {
    match s.strip_prefix('\\') {
        Some(n) if n.chars().all(|c| c.is_ascii_alphabetic()) => w(n),
        _ => a(s),
    }
}

impl<'d> Gen<'d> {
    pub fn formula(&self, r: &mut Rng) -> Vec<T> {
        let mut o = Vec::new();
        let depth = 1 + r.below(4) as u32;
        self.seq(r, depth, &mut o);
        o
    }

    pub fn seq(&self, r: &mut Rng, depth: u32, o: &mut Vec<T>) {
        let n = 1 + r.below(if depth >= 3 { 6 } else { 4 });
        for _ in 0..n {
            self.item(r, depth, o);
        }
    }

    pub fn atom(&self, r: &mut Rng, o: &mut Vec<T>) {
        if r.pct(3) {
            // one command made of several symbols
            return o.push(w(r.pick(MULTI)));
        }
        match r.below(12) {
            0..=5 => o.push(a(&r.choose(&['a', 'b', 'c', 'x', 'y', 'z', 'n', 'A', 'K', 'f']).to_string())),
            6 | 7 => o.push(a(&r.choose(&['0', '1', '2', '7', '9']).to_string())),
            8 | 9 => o.push(w(r.pick(GREEK))),
            10 => o.push(w("infty")),
            _ => {
                let l = self.d.of_kind("Letter");
                loop {
                    let c = r.choose(&l);
                    if c.name.chars().all(|c| c.is_ascii_alphabetic()) {
                        o.push(w(&c.name));
                        return;
                    }
                }
            }
        }
    }

    /// An argument in braces; a single atom may be written without them.
    pub fn arg(&self, r: &mut Rng, depth: u32, o: &mut Vec<T>) {
        if depth == 0 || r.pct(50) {
            o.push(T::Ob);
            self.atom(r, o);
            o.push(T::Cb);
        } else {
            o.push(a("{"));
            self.seq(r, depth - 1, o);
            o.push(a("}"));
        }
    }

    pub fn group(&self, r: &mut Rng, depth: u32, o: &mut Vec<T>) {
        o.push(a("{"));
        self.seq(r, depth.saturating_sub(1), o);
        o.push(a("}"));
    }

    fn scripts(&self, r: &mut Rng, depth: u32, o: &mut Vec<T>) {
        let d = depth.saturating_sub(1);
        match r.below(6) {
            0 | 1 => {
                o.push(a("^"));
                self.arg(r, d, o)
            }
            2 => {
                o.push(a("_"));
                self.arg(r, d, o)
            }
            3 => {
                o.push(a("_"));
                self.arg(r, d, o);
                o.push(a("^"));
                self.arg(r, d, o)
            }
            4 => {
                o.push(a("^"));
                self.arg(r, d, o);
                o.push(a("_"));
                self.arg(r, d, o)
            }
            _ => {
                o.push(a(r.pick(&["'", "''", "'''"])));
                if r.pct(30) {
                    o.push(T::Glue);
                    o.push(a("^"));
                    self.arg(r, d, o);
                }
            }
        }
    }

    pub fn table_body(&self, r: &mut Rng, depth: u32, cols: usize, rows: usize, o: &mut Vec<T>) {
        for i in 0..rows {
            for j in 0..cols {
                if r.pct(85) {
                    self.seq(r, depth.saturating_sub(1).min(2), o);
                }
                if j + 1 < cols {
                    o.push(a("&"));
                }
            }
            if i + 1 < rows {
                o.push(a("\\\\"));
                // a `[` or `*` directly after `\\` would be an argument of it
                o.push(a("{}"));
            }
        }
    }

    pub fn text(&self, r: &mut Rng) -> String {
        let mut s = String::new();
        for _ in 0..(1 + r.below(4)) {
            s.push_str(r.pick(&["a", "if ", " and ", "x", "é", "1.5", "~", "--", "<", "\\&", "\\%", "'q'", "\\textbf{b}", "\\emph{e f}", " ", "(z)", "=", "\\_", "\\{", "\\textit{i}", "\\'e", "\\\"{o}"]));
        }
        s
    }

    pub fn item(&self, r: &mut Rng, depth: u32, o: &mut Vec<T>) {
        let d = depth.saturating_sub(1);
        if depth == 0 {
            return self.atom(r, o);
        }
        match r.below(62) {
            0..=11 => {
                self.atom(r, o);
                if r.pct(35) {
                    self.scripts(r, depth, o)
                }
            }
            12..=15 => match r.below(3) {
                0 => o.push(a(r.pick(&["+", "-", "=", "<", ">", ",", ";", ":", "/", "!", "*", "|", "."]))),
                1 => o.push(w(r.pick(RELS))),
                _ => o.push(w(r.pick(BINS))),
            },
            16 => {
                let k = r.pick(&["Relation", "BinaryOp", "ForceBinaryOp", "Op", "Ord", "UprightLetter", "ForceRelation"]);
                let l = self.d.of_kind(k);
                loop {
                    let c = r.choose(&l);
                    if c.name.chars().all(|c| c.is_ascii_alphabetic()) {
                        o.push(w(&c.name));
                        break;
                    }
                }
            }
            17..=19 => {
                o.push(w(r.pick(&["frac", "dfrac", "tfrac", "binom", "dbinom", "tbinom", "cfrac"])));
                self.arg(r, d, o);
                self.arg(r, d, o);
            }
            20 | 21 => {
                o.push(w("sqrt"));
                if r.pct(35) {
                    o.push(a("["));
                    self.atom(r, o);
                    o.push(a("]"));
                }
                self.arg(r, d, o);
            }
            22..=24 => {
                o.push(w(r.pick(&["sum", "prod", "int", "bigcup", "oint", "coprod", "iint", "bigoplus"])));
                if r.pct(30) {
                    o.push(w(r.pick(&["limits", "nolimits", "displaylimits"])));
                }
                if r.pct(80) {
                    self.scripts2(r, d, o);
                }
            }
            25 | 26 => {
                o.push(w(r.pick(FUNCS)));
                if r.pct(50) {
                    self.scripts2(r, d, o);
                }
            }
            27 | 28 => {
                o.push(w(r.pick(ACC)));
                self.arg(r, d, o);
            }
            29..=31 => {
                o.push(w("left"));
                o.push(delim(r.pick(LD)));
                self.seq(r, d, o);
                if r.pct(20) {
                    o.push(w("middle"));
                    o.push(delim(r.pick(&["|", "/", "\\|", "\\vert"])));
                    self.seq(r, d, o);
                }
                o.push(w("right"));
                o.push(delim(r.pick(RD)));
            }
            32 => {
                let n = r.pick(&["", "l", "r", "m"]);
                o.push(w(&format!("{}{}", r.pick(&["big", "Big", "bigg", "Bigg"]), n)));
                let dl = loop {
                    let x = r.pick(if n == "r" { RD } else { LD });
                    if x != "." {
                        break x;
                    }
                };
                o.push(delim(dl));
            }
            33 => {
                o.push(w(r.pick(&["overset", "underset", "stackrel"])));
                self.arg(r, d, o);
                self.arg(r, d, o);
            }
            34 => {
                o.push(w(r.pick(&["overbrace", "underbrace", "overbracket", "underparen"])));
                self.arg(r, d, o);
                if r.pct(50) {
                    o.push(a(r.pick(&["^", "_"])));
                    self.arg(r, d, o);
                }
            }
            35 => {
                o.push(w(r.pick(&["xrightarrow", "xleftarrow", "xmapsto", "xRightarrow"])));
                if r.pct(40) {
                    o.push(a("["));
                    self.atom(r, o);
                    o.push(a("]"));
                }
                self.arg(r, d, o);
            }
            36 | 37 => {
                let c = r.pick(&["text", "textbf", "textit", "textrm", "texttt", "textsf", "emph", "textrm"]);
                let t = self.text(r);
                o.push(a(&format!("\\{c}{{{t}}}")));
            }
            38 | 39 => {
                o.push(w(r.pick(ALPH)));
                if r.pct(60) {
                    o.push(T::Ob);
                    o.push(a(&r.choose(&['A', 'R', 'x', 'k', 'Z', 'h', '1']).to_string()));
                    o.push(T::Cb);
                } else {
                    self.group(r, d, o);
                }
            }
            40 => {
                o.push(a("{"));
                o.push(w(r.pick(&["displaystyle", "textstyle", "scriptstyle", "scriptscriptstyle", "rm", "bf", "it", "cal", "sf", "tt"])));
                self.seq(r, d, o);
                o.push(a("}"));
            }
            41 => {
                if r.pct(50) {
                    o.push(a("{"));
                    o.push(a(&format!("\\color{{{}}}", r.pick(&["red", "blue", "green", "teal", "orange"]))));
                    self.seq(r, d, o);
                    o.push(a("}"));
                } else {
                    o.push(a(&format!("\\textcolor{{{}}}", r.pick(&["red", "blue", "cyan"]))));
                    self.arg(r, d, o);
                }
            }
            42 => {
                o.push(w(r.pick(&["phantom", "hphantom", "vphantom", "boxed", "cancel", "bcancel", "xcancel", "cramped"])));
                self.arg(r, d, o);
            }
            43 => {
                o.push(w(r.pick(&["mathrel", "mathbin", "mathop", "mathord", "mathopen", "mathclose", "mathpunct", "mathinner"])));
                self.arg(r, d, o);
            }
            44 | 45 => {
                if r.pct(50) {
                    o.push(a(r.pick(SP)));
                } else {
                    o.push(w(r.pick(&["quad", "qquad", "thinspace", "enspace"])));
                }
            }
            46 => {
                o.push(w("not"));
                if r.pct(50) {
                    o.push(a(r.pick(&["=", "<", ">"])));
                } else {
                    o.push(w(r.pick(&["in", "leq", "equiv", "subset"])));
                }
            }
            47 => {
                let n = r.pick(&["foo", "tr", "Hom", "rank"]);
                let star = r.pct(30);
                o.push(a(&format!("\\operatorname{}{{{n}}}", if star { "*" } else { "" })));
                if r.pct(40) {
                    self.scripts2(r, d, o);
                }
            }
            48..=50 => {
                let e = r.pick(&["matrix", "pmatrix", "bmatrix", "vmatrix", "cases", "aligned", "gathered", "array", "Bmatrix", "Vmatrix", "dcases", "rcases"]);
                let cols = if *e == *"gathered" { 1 } else if e.ends_with("cases") { 1 + r.below(2) } else { 1 + r.below(3) };
                let rows = 1 + r.below(3);
                let spec = if *e == *"array" {
                    let mut s = String::from("{");
                    for _ in 0..cols {
                        s.push_str(r.pick(&["l", "c", "r", "c|", "|l"]));
                    }
                    s.push('}');
                    s
                } else {
                    String::new()
                };
                o.push(a(&format!("\\begin{{{e}}}{spec}")));
                self.table_body(r, depth, cols, rows, o);
                o.push(a(&format!("\\end{{{e}}}")));
            }
            51 => {
                // infix fraction in a group
                o.push(a("{"));
                self.seq(r, d, o);
                o.push(w(r.pick(&["over", "choose", "atop", "brace", "brack"])));
                self.seq(r, d, o);
                o.push(a("}"));
            }
            52 => {
                o.push(w("mathchoice"));
                for _ in 0..4 {
                    self.group(r, d.min(1), o);
                }
            }
            53 => {
                o.push(w(r.pick(&["set", "Set", "braket", "bra", "ket", "Bra", "pmod", "pod"])));
                self.group(r, d.min(2), o);
            }
            54 => {
                o.push(w(r.pick(&["bmod", "cdots", "dots", "ldots", "vdots", "iff", "implies", "surd", "coloneqq", "prime", "backslash", "colon"])));
            }
            55 => {
                let z = r.pick(&["\\hspace{2em}", "\\kern3pt", "\\mkern 4mu", "\\hskip1em", "\\mspace{5mu}", "\\hspace{-1.5pt}"]);
                o.push(a(z));
                // keep a following letter or digit from being read as part of the unit
                o.push(a("{}"));
            }
            56 => {
                o.push(w("genfrac"));
                o.push(a(r.pick(&["(", "[", "{}"])));
                o.push(a(r.pick(&[")", "]", "{}"])));
                o.push(a(r.pick(&["{}", "{0pt}", "{2pt}"])));
                o.push(a(r.pick(&["{}", "{0}", "{1}", "{2}"])));
                self.arg(r, d, o);
                self.arg(r, d, o);
            }
            57 => {
                o.push(w("prescript"));
                self.arg(r, 0, o);
                self.arg(r, 0, o);
                self.arg(r, d, o);
            }
            58 => {
                o.push(w("sideset"));
                o.push(a("{"));
                o.push(a("_"));
                self.arg(r, 0, o);
                o.push(a("}"));
                o.push(a("{"));
                o.push(a("^"));
                self.arg(r, 0, o);
                o.push(a("}"));
                o.push(w("sum"));
            }
            _ => {
                self.group(r, d, o);
                if r.pct(40) {
                    self.scripts(r, depth, o)
                }
            }
        }
    }

    fn scripts2(&self, r: &mut Rng, d: u32, o: &mut Vec<T>) {
        match r.below(3) {
            0 => {
                o.push(a("_"));
                self.arg(r, d, o);
            }
            1 => {
                o.push(a("_"));
                self.arg(r, d, o);
                o.push(a("^"));
                self.arg(r, d, o);
            }
            _ => {
                o.push(a("^"));
                self.arg(r, d, o);
            }
        }
    }
}
