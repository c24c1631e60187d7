//! C33: delimiters, accents and arrows grow where it was asked for, and only there; the \big family gives
//! its four sizes.
//!
//! What an operator does is decided as MathML Core does it: by its attributes, and without them by the operator
//! dictionary for its form, which follows from its place. Only operators about which the dictionary leaves no doubt
//! are generated.
use crate::conv::{self, Cfg, Outcome};
use crate::ctx::Ctx;
use crate::rng::Rng;
use crate::xml::{self, El};
use serde_json::json;

pub fn case(prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    if prop != "C33" {
        return false;
    }
    c33(c, r);
    true
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum G {
    /// Grows with its content, or with what it stands on or under.
    Grow,
    /// Has the size of its glyph.
    Plain,
    /// Has this size, in tenths of an em (1.2, 1.6, 2.0 and 2.5 in TeX; math-core gives 1.2, 1.623, 2.047 and 2.470).
    Size(u32),
}

/// (source, character)
const DELIM: &[(&str, &str)] = &[
    ("(", "("), (")", ")"), ("[", "["), ("]", "]"), ("\\{", "{"), ("\\}", "}"), ("\\lbrace", "{"), ("\\rbrace", "}"),
    ("\\langle", "⟨"), ("\\rangle", "⟩"), ("\\lfloor", "⌊"), ("\\rfloor", "⌋"), ("\\lceil", "⌈"), ("\\rceil", "⌉"), ("|", "|"),
    ("\\|", "‖"), ("\\vert", "|"), ("\\Vert", "‖"), ("\\lvert", "|"), ("\\rvert", "|"), ("\\lVert", "‖"), ("\\rVert", "‖"),
    ("/", "/"), ("\\backslash", "\\"), ("\\uparrow", "↑"), ("\\downarrow", "↓"), ("\\updownarrow", "↕"), ("\\Uparrow", "⇑"),
    ("\\Downarrow", "⇓"), ("\\Updownarrow", "⇕"), ("\\lbrack", "["), ("\\rbrack", "]"), ("\\llbracket", "⟦"),
    ("\\rrbracket", "⟧"), ("\\lgroup", "⟮"), ("\\rgroup", "⟯"), ("⟨", "⟨"), ("⟩", "⟩"), ("⌊", "⌊"), ("⌉", "⌉"), ("‖", "‖"),
    ("\\lAngle", "⟪"), ("\\rAngle", "⟫"),
];
const FENCES: &str = "()[]{}⟨⟩⌊⌋⌈⌉⟦⟧⟪⟫⟮⟯";
const BARS: &str = "|‖";
const VARROWS: &str = "↑↓↕⇑⇓⇕";
const HARROWS: &str = "←→↔⇐⇒⇔↼⇀↽⇁↦↩↪⇌⇋↠↞⇄⇆";
/// Accents which stretch without being told to.
const ISTRETCHY: &str = "^_~¯ˆˇˉˍ˜˷\u{302}‾⌢⌣⎴⎵⏜⏝⏞⏟⏠⏡";
/// Accents which do not.
const ISTIFF: &str = "´`˙¨˘˚\u{20d7}\u{20db}\u{20dc}\u{303}\u{332}";

/// (command, grows, needs unreliable rendering)
const ACCENTS: &[(&str, bool, bool)] = &[
    ("hat", false, false), ("check", false, false), ("bar", false, false), ("tilde", false, false), ("vec", false, false), ("acute", false, false),
    ("grave", false, false), ("dot", false, false), ("ddot", false, false), ("breve", false, false), ("mathring", false, false),
    ("dddot", false, false), ("ddddot", false, false), ("widehat", true, false), ("overline", true, false), ("underline", true, false),
    ("overrightarrow", true, false), ("overleftarrow", true, false), ("overleftrightarrow", true, false), ("underrightarrow", true, false),
    ("underleftarrow", true, false), ("underleftrightarrow", true, false), ("Overrightarrow", true, false), ("overgroup", true, false),
    ("undergroup", true, false), ("overbrace", true, false), ("underbrace", true, false), ("overbracket", true, false),
    ("underbracket", true, false), ("overparen", true, false), ("underparen", true, false), ("overleftharpoon", true, false),
    ("overrightharpoon", true, false), ("widetilde", true, true), ("widecheck", true, true), ("utilde", true, true),
];
const XARROWS: &[&str] = &[
    "xrightarrow", "xleftarrow", "xleftrightarrow", "xRightarrow", "xLeftarrow", "xLeftrightarrow", "xmapsto", "xhookleftarrow",
    "xhookrightarrow", "xrightharpoonup", "xrightharpoondown", "xleftharpoonup", "xleftharpoondown", "xrightleftharpoons",
    "xleftrightharpoons", "xtwoheadrightarrow", "xtwoheadleftarrow", "xtofrom",
];
const ARROWS: &[&str] = &[
    "rightarrow", "leftarrow", "to", "gets", "leftrightarrow", "Rightarrow", "Leftarrow", "Leftrightarrow", "mapsto", "hookrightarrow",
    "hookleftarrow", "rightharpoonup", "leftharpoondown", "rightleftharpoons", "twoheadrightarrow", "twoheadleftarrow",
];
const ENVS: &[(&str, bool, bool)] = &[
    ("pmatrix", true, true), ("bmatrix", true, true), ("Bmatrix", true, true), ("vmatrix", true, true), ("Vmatrix", true, true),
    ("cases", true, false), ("dcases", true, false), ("rcases", false, true), ("drcases", false, true), ("matrix", false, false),
    ("aligned", false, false), ("array", false, false),
];
const BIG: &[(&str, u32)] = &[("big", 12), ("Big", 16), ("bigg", 20), ("Bigg", 25)];

struct M<'r> {
    r: &'r mut Rng,
    s: String,
    want: Vec<(G, String)>,
    unreliable: bool,
    infix: bool,
    /// What `|` does, as changed by `\set`, `\Set` and `\Braket`.
    bar: G,
    in_set: bool,
}

impl M<'_> {
    fn w(&mut self, g: G, what: &str) {
        self.want.push((g, what.into()));
    }
    /// A delimiter which stands for itself. Whether `\vert` keeps its meaning in a `\Set` is not decided here.
    fn plain(&mut self) -> (&'static str, &'static str) {
        match self.delim() {
            ("\\vert", ch) if self.in_set => ("\\rvert", ch),
            x => x,
        }
    }
    fn delim(&mut self) -> (&'static str, &'static str) {
        *self.r.choose(DELIM)
    }
    /// A delimiter after a command, with or without what may stand between the two.
    fn after(&mut self, cmd: &str, d: &str) {
        self.s.push_str(cmd);
        if self.r.pct(15) {
            self.s.push_str(self.r.pick(&[" ", "  ", "%x\n"]));
        }
        self.s.push_str(d);
        if d.ends_with(|c: char| c.is_ascii_alphabetic()) {
            self.s.push(' ');
        }
    }
    fn letter(&mut self) {
        let l = self.r.pick(&["x", "a", "b", "7", "\\alpha ", "n", "\\infty "]);
        self.s.push_str(l);
    }
    fn group(&mut self, d: u32) {
        self.s.push('{');
        if self.r.pct(8) {
            let (s, ch) = self.plain();
            let at = self.s.len();
            self.after("", s);
            if self.r.pct(50) {
                self.w(if s == "|" { self.bar } else { G::Plain }, ch);
            } else {
                let (n, size) = *self.r.choose(BIG);
                let k = self.r.pick(&["", "l", "r", "m"]);
                self.s.truncate(at);
                self.after(&format!("\\{n}{k}"), s);
                self.w(G::Size(size), ch);
            }
        } else {
            self.seq(d);
        }
        self.s.push('}');
    }
    fn seq(&mut self, d: u32) {
        if self.r.pct(70) {
            self.letter();
        } else {
            self.s.push_str("{}");
        }
        let n = if d == 0 { self.r.below(2) } else { 1 + self.r.below(3) };
        for _ in 0..n {
            self.item(d);
        }
    }
    fn scripts(&mut self, d: u32) {
        // in the output the subscript comes first
        let at = self.want.len();
        if self.r.pct(20) {
            self.s.push('^');
            self.group(d.saturating_sub(1));
        }
        let up = self.want.split_off(at);
        if self.r.pct(12) {
            self.s.push('_');
            self.group(d.saturating_sub(1));
        }
        self.want.extend(up);
    }
    fn item(&mut self, d: u32) {
        let d1 = d.saturating_sub(1);
        match self.r.below(if d == 0 { 5 } else { 15 }) {
            0 => self.letter(),
            1 if self.r.pct(15) => {
                // an arrow alone as an argument
                let a = self.r.pick(ARROWS);
                let cmd = self.r.pick(&["x^", "x_", "\\sqrt", "\\overline", "\\mathop", "\\mathord", "\\mathbin", "\\frac1", "\\binom1", "\\boxed"]);
                if cmd == "\\binom1" {
                    self.w(G::Grow, cmd);
                }
                self.s.push_str(&format!("{cmd}\\{a} "));
                self.w(G::Plain, a);
                if matches!(cmd, "\\binom1" | "\\overline") {
                    self.w(G::Grow, cmd);
                }
            }
            1 => {
                let o = self.r.pick(&["+", "=", ",", "\\in ", "\\sum ", "-", "\\cdot ", "\\lim "]);
                self.s.push_str(o);
            }
            2 => {
                // as it is
                let (s, ch) = self.plain();
                match self.r.below(8) {
                    1 => {
                        // the class does not change the size
                        let k = self.r.pick(&["\\mathopen", "\\mathclose", "\\mathord", "\\mathrel", "\\mathbin", "\\mathpunct", "\\mathinner"]);
                        let (n, size) = *self.r.choose(BIG);
                        self.s.push_str(&format!("{k}{{\\{n}{s}}}"));
                        self.w(G::Size(size), ch);
                        return;
                    }
                    0 => {
                        let k = self.r.pick(&["\\mathopen", "\\mathclose", "\\mathord", "\\mathrel", "\\mathbin", "\\mathpunct"]);
                        self.s.push_str(&format!("{k}{{{s}}}"));
                    }
                    _ => self.after("", s),
                }
                self.w(if s == "|" { self.bar } else { G::Plain }, ch);
                if self.r.pct(50) {
                    self.letter();
                }
            }
            3 => {
                let (n, size) = *self.r.choose(BIG);
                let k = self.r.pick(&["", "l", "r", "m"]);
                let (s, ch) = self.delim();
                self.after(&format!("\\{n}{k}"), s);
                self.w(G::Size(size), ch);
                self.scripts(d);
            }
            4 => {
                let n = self.r.pick(ARROWS);
                self.s.push_str(&format!("\\{n} "));
                self.w(G::Plain, n);
            }
            5..=6 => {
                for i in 0..2 + self.r.below(3) {
                    if i == 0 {
                        self.end("\\left");
                    } else {
                        let (s, ch) = self.delim();
                        self.after("\\middle", s);
                        self.w(G::Grow, ch);
                    }
                    if self.r.pct(85) {
                        self.seq(d1);
                    }
                    if self.r.pct(60) {
                        break;
                    }
                }
                self.end("\\right");
                self.scripts(d1);
            }
            7 => {
                let (n, l, rr) = *self.r.choose(ENVS);
                if l {
                    self.w(G::Grow, n);
                }
                let rows = 1 + self.r.below(3);
                let spec = if n == "array" { "{cc}" } else { "" };
                self.s.push_str(&format!("\\begin{{{n}}}{spec}"));
                for i in 0..rows {
                    if i > 0 {
                        self.s.push_str("\\\\");
                    }
                    self.seq(d1.min(1));
                    if self.r.pct(50) {
                        self.s.push('&');
                        self.seq(d1.min(1));
                    }
                }
                self.s.push_str(&format!("\\end{{{n}}}"));
                if rr {
                    self.w(G::Grow, n);
                }
                self.scripts(d1);
            }
            8 => {
                let (cmd, grow, unreliable) = *self.r.choose(ACCENTS);
                if unreliable && !self.unreliable {
                    return self.letter();
                }
                self.s.push_str(&format!("\\{cmd}"));
                self.group(d1);
                self.w(if grow { G::Grow } else { G::Plain }, cmd);
                if self.r.pct(20) {
                    self.s.push_str(self.r.pick(&["^", "_"]));
                    self.group(d1);
                }
            }
            9 => {
                let n = self.r.pick(XARROWS);
                self.w(G::Grow, n);
                self.s.push_str(&format!("\\{n}"));
                if self.r.pct(40) {
                    self.s.push_str("[y]");
                }
                self.group(d1);
            }
            10 => match self.r.below(5) {
                0 | 1 => {
                    let n = self.r.pick(&["\\binom", "\\dbinom", "\\tbinom"]);
                    self.s.push_str(n);
                    self.w(G::Grow, n);
                    self.group(d1);
                    self.group(d1);
                    self.w(G::Grow, n);
                }
                2 => {
                    let (l, rr) = (self.delim(), self.delim());
                    self.s.push_str(&format!("\\genfrac{{{}}}{{{}}}{{{}}}{{}}", l.0, rr.0, if self.r.pct(50) { "" } else { "2pt" }));
                    self.w(G::Grow, l.1);
                    self.group(d1);
                    self.group(d1);
                    self.w(G::Grow, rr.1);
                }
                _ => {
                    let n = self.r.pick(&["choose", "brack", "brace", "over", "atop"]);
                    let f = !matches!(n, "over" | "atop");
                    self.s.push('{');
                    if f {
                        self.w(G::Grow, n);
                    }
                    let outer = std::mem::replace(&mut self.infix, true);
                    self.group(d1);
                    self.s.push_str(&format!("\\{n} "));
                    self.group(d1);
                    self.infix = outer;
                    if f {
                        self.w(G::Grow, n);
                    }
                    self.s.push('}');
                }
            },
            11 => {
                self.s.push_str(self.r.pick(&["\\frac", "\\dfrac", "\\tfrac", "\\cfrac"]));
                self.group(d1);
                self.group(d1);
            }
            12 => {
                let n = self.r.pick(&["\\sqrt", "\\boxed", "\\phantom", "\\textcolor{red}", "\\mathrm", "", "x^", "x_", "\\sum_", "\\mathop", "\\mathord", "\\cancel"]);
                self.s.push_str(n);
                self.group(d1);
            }
            13 => {
                let (n, g, bar, ends) = *self.r.choose(&[
                    ("set", G::Plain, Some(G::Plain), "{}"), ("Set", G::Grow, Some(G::Grow), "{}"), ("Braket", G::Grow, Some(G::Grow), "⟨⟩"),
                    ("braket", G::Plain, None, "⟨⟩"), ("bra", G::Plain, None, "⟨|"), ("ket", G::Plain, None, "|⟩"),
                    ("Bra", G::Grow, None, "⟨|"), ("Ket", G::Grow, None, "|⟩"),
                ]);
                self.s.push_str(&format!("\\{n}{{"));
                self.w(g, ends);
                let outer = (self.bar, self.in_set);
                self.in_set |= bar.is_some();
                self.bar = bar.unwrap_or(outer.0);
                for i in 0..1 + self.r.below(3) {
                    if i > 0 {
                        self.s.push('|');
                        let b = self.bar;
                        self.w(b, "|");
                    }
                    self.seq(d1);
                }
                (self.bar, self.in_set) = outer;
                self.w(g, ends);
                self.s.push('}');
                self.scripts(d1);
            }
            _ => {
                let n = self.r.pick(&["\\overset", "\\underset", "\\stackrel"]);
                self.s.push_str(n);
                // the annotation stands behind what it is put on
                let at = self.want.len();
                self.group(d1);
                let note = self.want.split_off(at);
                if self.r.pct(25) {
                    let a = self.r.pick(ARROWS);
                    self.s.push_str(&format!("\\{a} "));
                    self.w(G::Plain, a);
                } else {
                    self.group(d1);
                }
                self.want.extend(note);
            }
        }
    }
    fn end(&mut self, cmd: &str) {
        if self.r.pct(10) {
            self.after(cmd, ".");
        } else {
            let (s, ch) = self.delim();
            self.after(cmd, s);
            self.w(G::Grow, ch);
        }
    }
}

/// Which of the forms the operator has, from its place.
fn form(path: &[&El], e: &El) -> &'static str {
    match e.attr("form") {
        Some("prefix") => return "prefix",
        Some("postfix") => return "postfix",
        Some(_) => return "infix",
        None => {}
    }
    // the largest embellished operator with `e` at its core
    let mut i = path.len();
    let mut cur: *const El = e;
    while i > 0 {
        let p = path[i - 1];
        let els = p.els();
        let first = els.first().is_some_and(|x| std::ptr::eq(*x, cur));
        match p.name.as_str() {
            "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" | "mmultiscripts" | "mfrac" => {
                if !first {
                    return "postfix";
                }
            }
            "mrow" | "mpadded" | "mphantom" | "mtd" | "math" | "msqrt" | "mstyle" => {
                let solid: Vec<&&El> = els.iter().filter(|x| x.name != "mspace").collect();
                if solid.len() > 1 || !matches!(p.name.as_str(), "mrow" | "mpadded" | "mphantom") {
                    return if els.len() == 1 {
                        "infix"
                    } else if first {
                        "prefix"
                    } else if els.last().is_some_and(|x| std::ptr::eq(*x, cur)) {
                        "postfix"
                    } else {
                        "infix"
                    };
                }
            }
            _ => return "infix",
        }
        cur = p;
        i -= 1;
    }
    "infix"
}

fn read<'a>(e: &'a El, path: &mut Vec<&'a El>, o: &mut Vec<(G, String)>) -> Result<(), String> {
    if e.name == "mo" {
        let t = e.text();
        let Some(ch) = t.chars().next() else { return Ok(()) };
        let known = t.chars().count() == 1;
        let is = |l: &str| known && l.contains(ch);
        let stretchy = match e.attr("stretchy") {
            Some(v) => v == "true",
            None => {
                is(FENCES) || is(VARROWS) || is(HARROWS) || is(ISTRETCHY) || is(BARS) && form(path, e) != "infix"
            }
        };
        let delimiter = is(FENCES) || is(BARS) || is(VARROWS) || is("/\\");
        let size = (e.attr("minsize"), e.attr("maxsize"));
        let g = match size {
            (None, None) => if stretchy { G::Grow } else { G::Plain },
            (Some(a), Some(b)) if a == b => {
                let n = a.strip_suffix("em").and_then(|n| n.parse::<f64>().ok()).ok_or_else(|| format!("size {a}"))?;
                if !stretchy {
                    return Err(format!("a delimiter {t} with a size which does not stretch to it"));
                }
                let symmetric = match e.attr("symmetric") {
                    Some(v) => v == "true",
                    None => is(FENCES) || is(BARS) && form(path, e) != "infix",
                };
                if !symmetric {
                    return Err(format!("a delimiter {t} with a size which is not centred"));
                }
                G::Size((n * 10.0).round() as u32)
            }
            _ => return Err(format!("a delimiter {t} with the sizes {size:?}")),
        };
        if delimiter || is(HARROWS) || is(ISTRETCHY) || is(ISTIFF) || g != G::Plain {
            o.push((g, t));
        }
        return Ok(());
    }
    path.push(e);
    for k in e.els() {
        read(k, path, o)?;
    }
    path.pop();
    Ok(())
}

fn c33(c: &mut Ctx, r: &mut Rng) {
    let mut cfg = Cfg::random(r);
    cfg.max_exp = None;
    cfg.annotation = false;
    let block = r.pct(50);
    let mut m = M { r, s: String::new(), want: vec![], unreliable: cfg.unreliable, infix: false, bar: G::Plain, in_set: false };
    let d = 1 + m.r.below(3) as u32;
    m.seq(d);
    let (s, want) = (m.s, m.want);
    let key = format!("{s:?}|{block}");
    match conv::local(&cfg.conv(), &s, block) {
        Outcome::Panic(_) => c.stat("skipped: panic"),
        Outcome::Err { start, end, msg } => c.viol(&key, "a correct formula is rejected", json!({"span": [start, end], "error": msg})),
        Outcome::Ok { mathml, .. } => {
            let Ok(t) = xml::parse(&mathml) else { return c.stat("skipped: not well-formed") };
            let t = xml::strip_layout(&t);
            let mut got = vec![];
            if let Err(e) = read(&t, &mut vec![], &mut got) {
                return c.viol(&key, "the size of a delimiter is not as written", json!({"what": e, "output": mathml}));
            }
            if !want.is_empty() {
                c.nontrivial(&key);
            }
            for (g, _) in &want {
                c.stat(match g {
                    G::Grow => "growing",
                    G::Plain => "not growing",
                    G::Size(_) => "with a size",
                });
            }
            let (w, g): (Vec<G>, Vec<G>) = (want.iter().map(|x| x.0).collect(), got.iter().map(|x| x.0).collect());
            if w != g {
                let i = w.iter().zip(&g).take_while(|(a, b)| a == b).count();
                c.viol(
                    &key,
                    "a delimiter, accent or arrow does not have the size asked for",
                    json!({"number": i, "expected": want.get(i).map(|x| format!("{x:?}")), "got": got.get(i).map(|x| format!("{x:?}")), "output": mathml}),
                );
            }
            c.sample(|| json!({"input": s, "sizes": format!("{g:?}")}));
        }
    }
}
