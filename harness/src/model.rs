//! A reference model of formulas: the generator writes a formula and, at the same time, the tree
//! which the output has to show, with the style, colour and alphabet of every symbol. `norm` brings
//! an actual output tree into the same form, applying the rules of MathML Core for styles and
//! movable limits, so that only what a reader sees is compared.
use crate::gen_::{T, a, delim, w};
use crate::rng::Rng;
use crate::xml::{El, Node};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    D,
    T,
    S,
    SS,
}
impl St {
    pub fn script(self) -> St {
        match self {
            St::D | St::T => St::S,
            _ => St::SS,
        }
    }
    pub fn frac(self) -> St {
        match self {
            St::D => St::T,
            St::T => St::S,
            _ => St::SS,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            St::D => "D",
            St::T => "T",
            St::S => "S",
            St::SS => "SS",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Leaf {
    pub ch: String,
    /// Some for symbols whose style is claimed.
    pub st: Option<String>,
    pub color: Option<String>,
    /// For delimiters: whether it grows with its content.
    pub fence: Option<bool>,
    /// Number of the element which it shares with other letters (0: none).
    pub run: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum X {
    L(Leaf),
    N { head: String, stacked: Option<bool>, kids: Vec<Option<Vec<X>>> },
}

pub fn node(head: &str, kids: Vec<Vec<X>>) -> X {
    X::N { head: head.into(), stacked: None, kids: kids.into_iter().map(Some).collect() }
}

#[derive(Clone, Copy)]
pub struct Facets {
    pub style: bool,
    pub color: bool,
    pub stacked: bool,
    pub fence: bool,
}

pub fn print(v: &[X], f: Facets, o: &mut String) {
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(' ');
        }
        match x {
            X::L(l) => {
                o.push_str(&l.ch);
                if f.style {
                    if let Some(s) = &l.st {
                        o.push(':');
                        o.push_str(s);
                    }
                }
                if f.color {
                    if let Some(c) = &l.color {
                        o.push('#');
                        o.push_str(c.trim_start_matches('#'));
                    }
                }
                if f.fence && l.fence == Some(true) {
                    o.push_str("!");
                }
            }
            X::N { head, stacked, kids } => {
                o.push('(');
                o.push_str(head);
                if f.stacked {
                    match stacked {
                        Some(true) => o.push_str("/stacked"),
                        Some(false) => o.push_str("/side"),
                        None => {}
                    }
                }
                for k in kids {
                    match k {
                        None => o.push_str(" -"),
                        Some(k) => {
                            o.push_str(" [");
                            print(k, f, o);
                            o.push(']');
                        }
                    }
                }
                o.push(')');
            }
        }
    }
}
pub fn show(v: &[X], f: Facets) -> String {
    let mut s = String::new();
    print(v, f, &mut s);
    s
}

// ------------------------------------------------------------------------------------------
// Normal form of an actual output

const DELIMS: &str = "()[]{}|‖⟨⟩⌊⌋⌈⌉/\\↑↓";

#[derive(Clone)]
struct NC {
    disp: bool,
    level: i32,
    color: Option<String>,
    known: bool,
}
impl NC {
    fn st(&self) -> Option<String> {
        if !self.known {
            return None;
        }
        Some(match (self.disp, self.level) {
            (true, 0) => "D".into(),
            (false, 0) => "T".into(),
            (false, 1) => "S".into(),
            (false, n) if n >= 2 => "SS".into(),
            (true, n) => format!("D{n}"),
            (_, n) => format!("level{n}"),
        })
    }
    fn attrs(&self, e: &El) -> NC {
        let mut n = self.clone();
        match e.attr("displaystyle") {
            Some("true") => n.disp = true,
            Some("false") => n.disp = false,
            _ => {}
        }
        if let Some(l) = e.attr("scriptlevel") {
            if let Ok(v) = l.parse::<i32>() {
                n.level = if l.starts_with(['+', '-']) { n.level + v } else { v };
            }
        }
        if let Some(s) = e.attr("style") {
            for d in s.split(';') {
                if let Some((k, v)) = d.split_once(':') {
                    if k.trim() == "color" {
                        n.color = Some(v.trim().to_string());
                    }
                }
            }
        }
        n
    }
    fn script(&self) -> NC {
        NC { disp: false, level: self.level + 1, ..self.clone() }
    }
    /// `auto-add` of fractions
    fn frac(&self) -> NC {
        NC { disp: false, level: if self.disp { self.level } else { self.level + 1 }, ..self.clone() }
    }
}

fn is_vs(c: char) -> bool {
    ('\u{fe00}'..='\u{fe0f}').contains(&c)
}

fn leaf_chars(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in t.chars() {
        if is_vs(c) && !v.is_empty() {
            v.last_mut().unwrap().push(c);
        } else if matches!(c, '\u{2061}'..='\u{2064}') || c.is_whitespace() {
        } else {
            v.push(c.to_string());
        }
    }
    v
}

/// What MathML Core shows for a single character in <mi> without mathvariant="normal".
pub fn italic(c: &str) -> String {
    let mut it = c.chars();
    let (x, rest) = (it.next().unwrap(), it.as_str());
    format!("{}{rest}", alph("it", x).unwrap_or(x))
}

/// Letters of one alphabet which follow each other are one element, so that scripts of the last one
/// are attached to all of them; `align` takes such a tree apart where the formula has a single
/// letter with scripts.
pub fn align(want: &[X], got: Vec<X>) -> Vec<X> {
    let mut o: Vec<X> = vec![];
    for mut g in got {
        let i = o.len();
        if let X::N { head, kids, .. } = &mut g {
            if head == "scr" {
                if let Some(Some(base)) = kids.first_mut() {
                    let n = base.len();
                    let one = n > 1 && matches!(&base[0], X::L(a) if a.run > 0 && base.iter().all(|x| matches!(x, X::L(b) if b.run == a.run)));
                    let apart = one
                        && want.len() >= i + n
                        && want[i..i + n - 1].iter().all(|x| matches!(x, X::L(_)))
                        && matches!(&want[i + n - 1], X::N { head, kids, .. } if head == "scr" && matches!(&kids[0], Some(b) if b.len() == 1));
                    if apart {
                        let last = base.split_off(n - 1);
                        o.append(base);
                        *base = last;
                    }
                }
            }
            let i = o.len();
            if let Some(X::N { kids: wk, .. }) = want.get(i) {
                for (k, w) in kids.iter_mut().zip(wk) {
                    if let (Some(k), Some(w)) = (k, w) {
                        *k = align(w, std::mem::take(k));
                    }
                }
            }
        }
        o.push(g);
    }
    o
}

thread_local! {
    static RUN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static ALPH: HashMap<(String, char), char> = {
        let mut m = HashMap::new();
        for l in include_str!("../data/alphabets.txt").lines() {
            let f: Vec<&str> = l.split('\t').collect();
            m.insert((f[0].to_string(), f[1].chars().next().unwrap()), f[2].chars().next().unwrap());
        }
        m
    };
}
pub fn alph(f: &str, c: char) -> Option<char> {
    ALPH.with(|m| m.get(&(f.to_string(), c)).copied())
}

/// Default of `movablelimits` in MathML Core's operator dictionary (category J).
pub fn dict_movable(t: &str) -> bool {
    let mut it = t.chars();
    let Some(c) = it.next() else { return false };
    if it.next().is_some() {
        return false;
    }
    matches!(c as u32, 0x220F..=0x2211 | 0x22C0..=0x22C3 | 0x2A00..=0x2A0A | 0x2A1D | 0x2A1E | 0x2AFC | 0x2AFF)
}

/// The operator at the core of an element, as MathML Core finds it.
fn core_mo(e: &El) -> Option<&El> {
    match e.name.as_str() {
        "mo" => Some(e),
        "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" | "mmultiscripts" | "mfrac" => {
            e.els().first().and_then(|x| core_mo(x))
        }
        "mrow" | "mpadded" | "mphantom" => {
            let v: Vec<&El> = e.els().into_iter().filter(|x| x.name != "mspace").collect();
            if v.len() == 1 { core_mo(v[0]) } else { None }
        }
        _ => None,
    }
}

pub fn norm_root(math: &El) -> Result<Vec<X>, String> {
    let c = NC { disp: math.attr("display") == Some("block"), level: 0, color: None, known: true };
    let mut o = vec![];
    norm_kids(math, &c, &mut o)?;
    Ok(o)
}

fn norm_kids(e: &El, c: &NC, o: &mut Vec<X>) -> Result<(), String> {
    for k in e.els() {
        norm(k, c, o)?;
    }
    Ok(())
}

fn slot(e: &El, c: &NC) -> Result<Vec<X>, String> {
    let mut o = vec![];
    norm(e, c, &mut o)?;
    Ok(o)
}

fn norm(e: &El, c0: &NC, o: &mut Vec<X>) -> Result<(), String> {
    let c = c0.attrs(e);
    let els = e.els();
    let need = |n: usize| if els.len() == n { Ok(()) } else { Err(format!("<{}> with {} children", e.name, els.len())) };
    match e.name.as_str() {
        "mspace" => {}
        "semantics" => norm(els.first().ok_or("empty semantics")?, &c, o)?,
        "mrow" => {
            if !e.attr("class").is_some_and(|k| k.starts_with("menclose")) {
                norm_kids(e, &c, o)?
            }
        }
        "mpadded" => {
            if let Some(k) = ["width", "height", "voffset"].iter().find(|k| e.attr(k).is_some()) {
                let mut v = vec![];
                norm_kids(e, &c, &mut v)?;
                o.push(node(&format!("pad-{k}"), vec![v]));
            } else {
                norm_kids(e, &c, o)?
            }
        }
        "mphantom" | "msqrt" => {
            let mut v = vec![];
            norm_kids(e, &c, &mut v)?;
            o.push(node(if e.name == "msqrt" { "sqrt" } else { "phantom" }, vec![v]));
        }
        "menclose" => {
            let mut v = vec![];
            norm_kids(e, &c, &mut v)?;
            o.push(node(&format!("enclose-{}", e.attr("notation").unwrap_or("")), vec![v]));
        }
        "mi" | "mn" | "mo" => {
            let t = e.text();
            let l = leaf_chars(&t);
            let single = e.name == "mi" && l.len() == 1 && e.attr("mathvariant") != Some("normal");
            let run = if e.name == "mi" && l.len() > 1 { RUN.with(|r| { r.set(r.get() + 1); r.get() }) } else { 0 };
            for ch in l {
                let fence = if e.name == "mo" && DELIMS.contains(ch.as_str()) && !ch.is_empty() {
                    // delimiters grow by default
                    Some(e.attr("stretchy") != Some("false"))
                } else {
                    None
                };
                o.push(X::L(Leaf { ch: if single { italic(&ch) } else { ch }, st: c.st(), color: c.color.clone(), fence, run }));
            }
        }
        "mtext" => o.push(X::L(Leaf { ch: format!("{:?}", e.text()), st: c.st(), color: c.color.clone(), fence: None, run: 0 })),
        "mfrac" => {
            need(2)?;
            let f = c.frac();
            let head = match e.attr("linethickness") {
                None => "frac",
                Some(t) if t.starts_with('0') && !t.contains(|c: char| ('1'..='9').contains(&c)) => "stack",
                Some(_) => "frac-line",
            };
            o.push(node(head, vec![slot(els[0], &f)?, slot(els[1], &f)?]));
        }
        "mroot" => {
            need(2)?;
            let i = NC { disp: false, level: c.level + 2, ..c.clone() };
            o.push(node("root", vec![slot(els[0], &c)?, slot(els[1], &i)?]));
        }
        "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" => {
            let side = e.name.starts_with("ms");
            let (sub, sup) = match e.name.as_str() {
                "msub" | "munder" => (Some(1), None),
                "msup" | "mover" => (None, Some(1)),
                _ => (Some(1), Some(2)),
            };
            need(if sub.is_some() && sup.is_some() { 3 } else { 2 })?;
            if !side && els.len() == 2 && els[1].name == "mspace" {
                // only there to make the other part wide enough
                return norm(els[0], &c, o);
            }
            let base = slot(els[0], &c)?;
            if e.attr("accent") == Some("true") || e.attr("accentunder") == Some("true") {
                let cc = NC { known: false, ..c.clone() };
                let head = if e.name == "mover" { "accent" } else { "underaccent" };
                o.push(node(head, vec![base, slot(els[1], &cc)?]));
                return Ok(());
            }
            let s = c.script();
            let stacked = !side && {
                let movable = core_mo(els[0]).is_some_and(|m| match m.attr("movablelimits") {
                    Some(v) => v == "true",
                    None => dict_movable(&m.text()),
                });
                !(movable && !c.disp)
            };
            let f = |i: Option<usize>| i.map(|i| slot(els[i], &s)).transpose();
            o.push(X::N { head: "scr".into(), stacked: Some(stacked), kids: vec![Some(base), f(sub)?, f(sup)?] });
        }
        "mmultiscripts" => {
            let s = c.script();
            let mut kids = vec![];
            for (i, k) in els.iter().enumerate() {
                if k.name == "mprescripts" {
                    kids.push(None);
                } else {
                    kids.push(Some(slot(k, if i == 0 { &c } else { &s })?));
                }
            }
            let pre = kids.iter().position(|k| k.is_none()).unwrap_or(kids.len());
            if pre == 3 {
                let t = |k: Option<Vec<X>>| k.filter(|v| !v.is_empty());
                let sup = t(kids.remove(2));
                let sub = t(kids.remove(1));
                let inner = X::N { head: "multi".into(), stacked: None, kids };
                o.push(X::N { head: "scr".into(), stacked: Some(false), kids: vec![Some(vec![inner]), sub, sup] });
                return Ok(());
            }
            o.push(X::N { head: "multi".into(), stacked: None, kids });
        }
        "mtable" => {
            let mut t = c.clone();
            if e.attr("displaystyle").is_none() {
                t.disp = false;
            }
            let mut rows = vec![];
            for r in &els {
                let mut cells = vec![];
                for d in r.els() {
                    let dc = t.attrs(d);
                    let mut v = vec![];
                    norm_kids(d, &dc, &mut v)?;
                    // cells made only for rules and numbers hold nothing
                    cells.push(v);
                }
                while cells.last().is_some_and(|c| c.is_empty()) {
                    cells.pop();
                }
                rows.push(vec![node("row", cells)]);
            }
            o.push(node("table", rows));
        }
        "merror" => o.push(node("error", vec![])),
        n => return Err(format!("unexpected <{n}>")),
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------
// Generator

#[derive(Clone, Debug)]
pub struct E {
    pub st: St,
    pub color: Option<String>,
    pub font: &'static str,
}

/// Weights (percent) of the kinds of items.
#[derive(Clone)]
pub struct Bias {
    pub fonts: u32,
    pub colors: u32,
    pub styles: u32,
    pub ops: u32,
    pub tables: u32,
    pub other: u32,
}

pub struct M<'r> {
    pub r: &'r mut Rng,
    pub o: Vec<T>,
    pub b: Bias,
    pub last_digit: bool,
    /// Counters of what was generated.
    pub n_fonts: u32,
    pub n_colors: u32,
    pub n_styles: u32,
    pub n_limits: u32,
    pub n_nodes: u32,
    pub n_choice: u32,
    /// Inside of how many numerators of infix fractions
    pub in_num: u32,
}

pub const FONT_CMDS: &[(&str, &str)] = &[
    ("mathbf", "bf"), ("mathrm", "rm"), ("mathit", "it"), ("mathbb", "bb"), ("mathcal", "cal"), ("mathscr", "scr"),
    ("mathfrak", "frak"), ("mathsf", "sf"), ("mathtt", "tt"), ("boldsymbol", "bi"), ("bm", "bi"), ("bold", "bf"),
    ("frak", "frak"), ("Bbb", "bb"),
];
pub const FONT_SWITCHES: &[(&str, &str)] = &[("rm", "rm"), ("bf", "bf"), ("it", "it"), ("cal", "cal"), ("sf", "sf"), ("tt", "tt")];
const GLOW: &[(&str, char)] = &[
    ("alpha", 'α'), ("beta", 'β'), ("gamma", 'γ'), ("delta", 'δ'), ("epsilon", 'ϵ'), ("varepsilon", 'ε'), ("zeta", 'ζ'), ("eta", 'η'),
    ("theta", 'θ'), ("vartheta", 'ϑ'), ("iota", 'ι'), ("kappa", 'κ'), ("lambda", 'λ'), ("mu", 'μ'), ("nu", 'ν'), ("xi", 'ξ'),
    ("omicron", 'ο'), ("pi", 'π'), ("varpi", 'ϖ'), ("rho", 'ρ'), ("varrho", 'ϱ'), ("sigma", 'σ'), ("varsigma", 'ς'), ("tau", 'τ'),
    ("upsilon", 'υ'), ("phi", 'ϕ'), ("varphi", 'φ'), ("chi", 'χ'), ("psi", 'ψ'), ("omega", 'ω'), ("varkappa", 'ϰ'),
];
const GUP: &[(&str, char)] = &[
    ("Gamma", 'Γ'), ("Delta", 'Δ'), ("Theta", 'Θ'), ("Lambda", 'Λ'), ("Xi", 'Ξ'), ("Pi", 'Π'), ("Sigma", 'Σ'), ("Upsilon", 'Υ'),
    ("Phi", 'Φ'), ("Psi", 'Ψ'), ("Omega", 'Ω'),
];
const GVAR: &[(&str, char)] = &[("varGamma", 'Γ'), ("varDelta", 'Δ'), ("varTheta", 'Θ'), ("varLambda", 'Λ'), ("varPi", 'Π'), ("varSigma", 'Σ'), ("varOmega", 'Ω')];
/// Symbols which no alphabet changes, as single tokens: (source, character)
const SYM: &[(&str, &str)] = &[
    ("\\infty", "∞"), ("\\forall", "∀"), ("\\exists", "∃"), ("\\emptyset", "∅\u{fe00}"), ("\\aleph", "ℵ"), ("\\top", "⊤"), ("\\bot", "⊥"),
    ("\\angle", "∠"), ("\\%", "%"), ("\\#", "#"), ("\\&", "&"), ("\\neg", "¬"),
];
/// Operators and relations: (source, character)
const OPS: &[(&str, &str)] = &[
    ("+", "+"), ("-", "−"), ("=", "="), ("<", "<"), (">", ">"), (",", ","), (";", ";"), ("*", "∗"), ("\\times", "×"), ("\\pm", "±"),
    ("\\cdot", "⋅"), ("\\leq", "≤"), ("\\geq", "≥"), ("\\in", "∈"), ("\\to", "→"), ("\\subset", "⊂"), ("\\cup", "∪"), ("\\cap", "∩"),
    ("\\approx", "≈"), ("\\equiv", "≡"), ("\\sim", "∼"), ("\\Rightarrow", "⇒"), ("\\mapsto", "↦"), ("\\oplus", "⊕"), ("\\otimes", "⊗"),
    ("\\wedge", "∧"), ("\\vee", "∨"), ("\\neq", "≠"), ("\\notin", "∉"), ("\\div", "÷"), ("\\mp", "∓"), ("\\ll", "≪"), ("\\supseteq", "⊇"),
    ("\\circ", "∘"), ("\\star", "⋆"), ("\\uparrow", "↑"), ("\\Leftrightarrow", "⇔"), ("\\prec", "≺"), ("\\ni", "∋"), ("\\cdots", "⋯"),
];
pub const BIGOPS: &[(&str, &str, bool)] = &[
    ("sum", "∑", true), ("prod", "∏", true), ("coprod", "∐", true), ("bigcup", "⋃", true), ("bigcap", "⋂", true), ("bigoplus", "⨁", true),
    ("bigotimes", "⨂", true), ("bigodot", "⨀", true), ("bigvee", "⋁", true), ("bigwedge", "⋀", true), ("bigsqcup", "⨆", true),
    ("biguplus", "⨄", true), ("int", "∫", false), ("oint", "∮", false), ("iint", "∬", false), ("iiint", "∭", false),
];
pub const NAMES: &[(&str, &str, bool)] = &[
    ("lim", "lim", true), ("max", "max", true), ("min", "min", true), ("sup", "sup", true), ("inf", "inf", true), ("gcd", "gcd", true),
    ("det", "det", true), ("Pr", "Pr", true), ("limsup", "limsup", true), ("liminf", "liminf", true), ("sin", "sin", false), ("cos", "cos", false),
    ("log", "log", false), ("exp", "exp", false), ("ln", "ln", false), ("dim", "dim", false), ("ker", "ker", false), ("arg", "arg", false),
    ("deg", "deg", false), ("hom", "hom", false), ("tan", "tan", false), ("arcsin", "arcsin", false), ("sinh", "sinh", false), ("lg", "lg", false),
];
/// (source, character) of delimiters
pub const LDEL: &[(&str, &str)] = &[
    ("(", "("), ("[", "["), ("\\{", "{"), ("|", "|"), ("\\|", "‖"), ("\\langle", "⟨"), ("\\lfloor", "⌊"), ("\\lceil", "⌈"),
    ("\\lbrace", "{"), ("\\lvert", "|"), ("\\lVert", "‖"), ("\\lbrack", "["), ("/", "/"),
];
pub const RDEL: &[(&str, &str)] = &[
    (")", ")"), ("]", "]"), ("\\}", "}"), ("|", "|"), ("\\|", "‖"), ("\\rangle", "⟩"), ("\\rfloor", "⌋"), ("\\rceil", "⌉"),
    ("\\rbrace", "}"), ("\\rvert", "|"), ("\\rVert", "‖"), ("\\rbrack", "]"), ("/", "/"),
];
const COLORS: &[(&str, &str)] = &[("{red}", "#FF0000"), ("{blue}", "#0000FF"), ("{black}", "#000000"), ("{white}", "#FFFFFF")];


fn src(s: &str) -> T {
    match s.strip_prefix('\\') {
        Some(n) if n.chars().all(|c| c.is_ascii_alphabetic()) => w(n),
        _ => a(s),
    }
}

impl<'r> M<'r> {
    pub fn new(r: &'r mut Rng, b: Bias) -> Self {
        M { r, o: vec![], b, last_digit: false, n_fonts: 0, n_colors: 0, n_styles: 0, n_limits: 0, n_nodes: 0, n_choice: 0, in_num: 0 }
    }
    fn put(&mut self, t: T) {
        self.last_digit = false;
        self.o.push(t);
    }
    fn leaf(&self, e: &E, ch: &str) -> X {
        X::L(Leaf { ch: ch.into(), st: Some(e.st.name().into()), color: e.color.clone(), fence: None, run: 0 })
    }
    fn fence(&self, e: &E, ch: &str, grows: bool) -> X {
        X::L(Leaf { ch: ch.into(), st: Some(e.st.name().into()), color: e.color.clone(), fence: Some(grows), run: 0 })
    }
    fn letters(&self, e: &E, s: &str) -> Vec<X> {
        s.chars().map(|c| self.leaf(e, &c.to_string())).collect()
    }
    /// How a letter or digit shows in the alphabet of the context; `upright` for letters which are
    /// upright unless an alphabet says otherwise.
    pub fn shape(c: char, font: &str, upright: bool) -> String {
        match font {
            "" => {
                if upright {
                    c.to_string()
                } else {
                    alph("it", c).unwrap_or(c).to_string()
                }
            }
            "rm" => c.to_string(),
            "cal" => format!("{}\u{fe00}", alph("scr", c).unwrap_or(c)),
            "scr" => format!("{}\u{fe01}", alph("scr", c).unwrap_or(c)),
            // capital Greek letters are upright in bold, too
            "bi" if upright => alph("bf", c).unwrap_or(c).to_string(),
            f => alph(f, c).unwrap_or(c).to_string(),
        }
    }
    /// A colour specification, and the colour it stands for.
    fn color(&mut self) -> (String, String) {
        let r = &mut *self.r;
        match r.below(5) {
            0 | 1 => {
                let (n, c) = *r.choose(COLORS);
                (n.into(), c.into())
            }
            2 => {
                let v: Vec<u8> = (0..3).map(|_| if r.pct(20) { *r.choose(&[0, 9, 10, 15, 16, 255]) } else { r.below(256) as u8 }).collect();
                let hex: String = v.iter().map(|b| format!("{b:02X}")).collect();
                let shown: String = hex.chars().map(|c| if r.pct(40) { c.to_ascii_lowercase() } else { c }).collect();
                (format!("[HTML]{{{shown}}}"), format!("#{hex}"))
            }
            3 => {
                let v: Vec<u8> = (0..3).map(|_| if r.pct(20) { *r.choose(&[0, 9, 10, 99, 100, 254, 255]) } else { r.below(256) as u8 }).collect();
                let sp = if r.pct(20) { ", " } else { "," };
                let s: Vec<String> = v.iter().map(|b| b.to_string()).collect();
                (format!("[RGB]{{{}}}", s.join(sp)), v.iter().fold("#".into(), |o, b| format!("{o}{b:02X}")))
            }
            _ => {
                let mut s = vec![];
                let mut o = String::from("#");
                while s.len() < 3 {
                    let d = r.below(4) as u32;
                    let k = r.below(10usize.pow(d) + 1) as f64 / 10f64.powi(d as i32);
                    let x = k * 255.0 + 0.5;
                    if (x - x.round()).abs() < 1e-3 && d > 0 && k < 1.0 && k > 0.0 {
                        continue;
                    }
                    s.push(if d == 0 { format!("{k:.0}") } else { format!("{k:.*}", d as usize) });
                    o.push_str(&format!("{:02X}", x as u8));
                }
                (format!("[rgb]{{{}}}", s.join(",")), o)
            }
        }
    }
    /// One token showing one symbol.
    pub fn atom(&mut self, e: &E) -> X {
        for _ in 0..20 {
            match self.r.below(10) {
                0..=4 => {
                    let c = (if self.r.pct(65) { b'a' } else { b'A' } + self.r.below(26) as u8) as char;
                    if c == 'I' && e.font == "frak" {
                        // a known finding
                        continue;
                    }
                    self.put(a(&c.to_string()));
                    return self.leaf(e, &Self::shape(c, e.font, false));
                }
                5 | 6 if matches!(e.font, "" | "rm" | "bf" | "bb" | "sf" | "tt") => {
                    if self.last_digit {
                        continue;
                    }
                    let c = (b'0' + self.r.below(10) as u8) as char;
                    self.put(a(&c.to_string()));
                    self.last_digit = true;
                    return self.leaf(e, &Self::shape(c, if e.font.is_empty() { "rm" } else { e.font }, false));
                }
                7 if matches!(e.font, "" | "it" | "bf" | "bi") => {
                    let (n, c) = *self.r.choose(GLOW);
                    self.put(w(n));
                    return self.leaf(e, &Self::shape(c, e.font, false));
                }
                8 if matches!(e.font, "" | "rm" | "it" | "bf" | "bi") => {
                    let var = self.r.pct(30);
                    let (n, c) = *self.r.choose(if var { GVAR } else { GUP });
                    self.put(w(n));
                    return self.leaf(e, &Self::shape(c, e.font, !var));
                }
                9 => {
                    let (s, c) = *self.r.choose(SYM);
                    self.put(src(s));
                    return self.leaf(e, c);
                }
                _ => {}
            }
        }
        self.put(a("x"));
        self.leaf(e, &Self::shape('x', e.font, false))
    }
    /// An argument of a command.
    pub fn arg(&mut self, e: &E, d: u32) -> Vec<X> {
        if d == 0 || self.r.pct(35) {
            self.put(T::Ob);
            let x = self.atom(e);
            self.put(T::Cb);
            vec![x]
        } else {
            self.group(e, d - 1)
        }
    }
    pub fn group(&mut self, e: &E, d: u32) -> Vec<X> {
        self.put(a("{"));
        let v = self.seq(e, d);
        self.put(a("}"));
        v
    }
    pub fn formula(&mut self, e: &E) -> Vec<X> {
        let d = 1 + self.r.below(4) as u32;
        self.seq(e, d)
    }
    /// The content of a group, cell or formula.
    pub fn seq(&mut self, e0: &E, d: u32) -> Vec<X> {
        self.seq_then(e0, d).0
    }
    /// ... and what holds after it, in the same group.
    fn seq_then(&mut self, e0: &E, d: u32) -> (Vec<X>, E) {
        let mut e = e0.clone();
        let mut v = vec![];
        let n = 1 + self.r.below(if d >= 3 { 5 } else { 3 });
        for i in 0..n {
            if self.r.pct(self.b.styles) {
                self.n_styles += 1;
                let (n, s) = *self.r.choose(&[("displaystyle", St::D), ("textstyle", St::T), ("scriptstyle", St::S), ("scriptscriptstyle", St::SS)]);
                self.put(w(n));
                e.st = s;
            }
            if self.r.pct(self.b.colors) {
                self.n_colors += 1;
                let (n, c) = self.color();
                self.put(w("color"));
                self.put(T::Glue);
                self.put(a(&n));
                e.color = Some(c);
            }
            if self.r.pct(self.b.fonts) {
                self.n_fonts += 1;
                let (n, f) = *self.r.choose(FONT_SWITCHES);
                self.put(w(n));
                e.font = f;
            }
            let _ = i;
            self.item(&e, d, &mut v);
        }
        (v, e)
    }
    /// The content of an optional argument, which is a group of its own.
    fn opt_arg(&mut self, e: &E, d: u32) -> Vec<X> {
        self.put(a("["));
        let from = self.o.len();
        let v = if self.r.pct(50) { vec![self.atom(e)] } else { self.seq(e, d.min(1)) };
        // A `]` outside braces would end the argument.
        let mut depth = 0;
        let bare = self.o[from..].iter().any(|t| {
            if let T::A(s) = t {
                match s.as_str() {
                    "{" => depth += 1,
                    "}" => depth -= 1,
                    _ => {}
                }
                return depth == 0 && s.starts_with(']');
            }
            false
        });
        if bare {
            self.o.insert(from, a("{"));
            self.put(a("}"));
        }
        self.put(a("]"));
        v
    }
    fn op(&mut self, e: &E) -> X {
        let (s, c) = *self.r.choose(OPS);
        self.put(src(s));
        let mut l = self.leaf(e, c);
        if let X::L(l) = &mut l {
            if DELIMS.contains(c) {
                l.fence = None;
            }
        }
        l
    }
    /// Optional scripts after an operand. `style`: None if stacking isn't claimed.
    fn scripts(&mut self, e: &E, d: u32, base: Vec<X>, stacked: Option<bool>, always: bool) -> Vec<X> {
        if !always && !self.r.pct(40) {
            return base;
        }
        let s = E { st: e.st.script(), ..e.clone() };
        let dd = d.saturating_sub(1);
        let (mut sub, mut sup) = (None, None);
        match self.r.below(6) {
            0 | 1 => {
                self.put(a("^"));
                sup = Some(self.arg(&s, dd));
            }
            2 => {
                self.put(a("_"));
                sub = Some(self.arg(&s, dd));
            }
            3 => {
                self.put(a("^"));
                sup = Some(self.arg(&s, dd));
                self.put(a("_"));
                sub = Some(self.arg(&s, dd));
            }
            4 => {
                self.put(a("_"));
                sub = Some(self.arg(&s, dd));
                self.put(a("^"));
                sup = Some(self.arg(&s, dd));
            }
            _ if stacked == Some(false) => {
                let most = if self.r.pct(15) { 8 } else { 3 };
                let n = 1 + self.r.below(most);
                self.put(a(&"'".repeat(n)));
                let mut v = if n <= 4 { vec![self.leaf(&s, ["′", "″", "‴", "⁗"][n - 1])] } else { vec![self.leaf(&s, "′"); n] };
                if self.r.pct(30) {
                    self.put(T::Glue);
                    self.put(a("^"));
                    v.extend(self.arg(&s, dd));
                }
                if self.r.pct(30) {
                    self.put(a("_"));
                    sub = Some(self.arg(&s, dd));
                }
                sup = Some(v);
            }
            _ => {
                self.put(a("_"));
                sub = Some(self.arg(&s, dd));
            }
        }
        self.n_nodes += 1;
        vec![X::N { head: "scr".into(), stacked, kids: vec![Some(base), sub, sup] }]
    }

    fn operand(&mut self, e: &E, d: u32, base: Vec<X>, v: &mut Vec<X>) {
        let x = self.scripts(e, d, base, Some(false), false);
        v.extend(x);
    }

    pub fn item(&mut self, e: &E, d: u32, v: &mut Vec<X>) {
        if d == 0 {
            let x = self.atom(e);
            v.push(x);
            return;
        }
        let b = self.b.clone();
        let p = self.r.below(100) as u32;
        let mut acc = 0;
        let mut hit = |w: u32| {
            acc += w;
            p < acc
        };
        if hit(b.fonts) {
            self.font_item(e, d, v)
        } else if hit(b.colors) {
            self.n_colors += 1;
            let (n, c) = *self.r.choose(COLORS);
            self.put(a(&format!("\\textcolor{n}")));
            let e2 = E { color: Some(c.into()), ..e.clone() };
            let x = self.arg(&e2, d - 1);
            self.operand(e, d, x, v);
        } else if hit(b.ops) {
            self.big_item(e, d, v)
        } else if hit(b.tables) {
            self.table_item(e, d, v)
        } else if hit(b.other) {
            self.other_item(e, d, v)
        } else if hit(14) {
            let x = self.op(e);
            v.push(x);
        } else if hit(12) {
            let x = self.group(e, d - 1);
            self.operand(e, d, x, v);
        } else {
            let x = self.atom(e);
            // (several digits in a row are one number)
            if self.last_digit && e.font.is_empty() && self.r.pct(30) {
                let mut n = vec![x];
                for _ in 0..=self.r.below(2) {
                    let c = (b'0' + self.r.below(10) as u8) as char;
                    self.o.push(T::Glue);
                    self.o.push(a(&c.to_string()));
                    n.push(self.leaf(e, &c.to_string()));
                }
                self.operand(e, d, n, v);
                return;
            }
            self.operand(e, d, vec![x], v);
        }
    }

    fn font_item(&mut self, e: &E, d: u32, v: &mut Vec<X>) {
        self.n_fonts += 1;
        let (n, f) = *self.r.choose(FONT_CMDS);
        self.put(w(n));
        let e2 = E { font: f, ..e.clone() };
        let x = self.arg(&e2, d - 1);
        self.operand(e, d, x, v);
    }

    fn big_item(&mut self, e: &E, d: u32, v: &mut Vec<X>) {
        let (base, limits) = match self.r.below(3) {
            // (not in the numerator of an infix fraction: a known finding)
            _ if self.in_num == 0 && self.r.pct(10) => (self.sideset(e, d), true),
            0 => {
                let (n, s, l) = *self.r.choose(NAMES);
                self.put(w(n));
                (self.letters(e, s), l)
            }
            1 if self.r.pct(30) => {
                let star = self.r.pct(50);
                let n = self.r.pick(&["foo", "rank", "Hom", "tr"]);
                self.put(a(&format!("\\operatorname{}{{{n}}}", if star { "*" } else { "" })));
                (self.letters(e, n), star)
            }
            _ => {
                let (n, s, l) = *self.r.choose(BIGOPS);
                self.put(w(n));
                (vec![self.leaf(e, s)], l)
            }
        };
        let mut stacked = limits && e.st == St::D;
        let mut explicit = false;
        if self.r.pct(30) {
            explicit = true;
            // the last one counts
            while self.r.pct(8) {
                let n = self.r.pick(&["limits", "nolimits", "displaylimits"]);
                self.put(w(n));
            }
            match self.r.below(3) {
                0 => {
                    self.put(w("limits"));
                    stacked = true;
                }
                1 => {
                    self.put(w("nolimits"));
                    stacked = false;
                }
                _ => {
                    self.put(w("displaylimits"));
                    stacked = e.st == St::D;
                }
            }
        }
        if explicit || self.r.pct(80) {
            self.n_limits += 1;
            let x = self.scripts_big(e, d, base, stacked);
            v.extend(x);
        } else {
            v.extend(base);
        }
    }
    /// `\sideset{..}{..}\sum`: an operator with scripts on both sides; what else is in the arguments stands
    /// next to the operator, between the two scripts, or behind those on the right.
    fn sideset(&mut self, e: &E, d: u32) -> Vec<X> {
        self.put(w("sideset"));
        let dd = d.saturating_sub(2);
        let s = E { st: e.st.script(), ..e.clone() };
        let mut parts: Vec<(Option<Vec<X>>, Option<Vec<X>>, Vec<X>)> = vec![];
        for _ in 0..2 {
            self.put(a("{"));
            let (mut sub, mut sup) = (None, None);
            let k = self.r.below(6);
            if k == 5 {
                self.put(a("'"));
                sup = Some(vec![self.leaf(&s, "′")]);
            }
            if k == 0 || k == 2 {
                self.put(a("_"));
                sub = Some(self.arg(&s, dd));
            }
            if k == 1 || k == 2 || k == 3 {
                self.put(a("^"));
                sup = Some(self.arg(&s, dd));
            }
            if k == 3 {
                self.put(a("_"));
                sub = Some(self.arg(&s, dd));
            }
            let mut rest = vec![];
            if self.r.pct(15) {
                rest = vec![self.atom(e)];
            }
            self.put(a("}"));
            parts.push((sub, sup, rest));
        }
        let (n, c, _) = *self.r.choose(BIGOPS);
        self.put(w(n));
        let op = self.leaf(e, c);
        self.n_nodes += 1;
        let (psub, psup, after) = parts.pop().unwrap();
        let (lsub, lsup, mut base) = parts.pop().unwrap();
        base.push(op);
        let some = |k: Option<Vec<X>>| Some(k.unwrap_or_default());
        let inner = X::N { head: "multi".into(), stacked: None, kids: vec![Some(base), None, some(lsub), some(lsup)] };
        let mut v = vec![X::N { head: "scr".into(), stacked: Some(false), kids: vec![Some(vec![inner]), psub, psup] }];
        v.extend(after);
        v
    }
    fn scripts_big(&mut self, e: &E, d: u32, base: Vec<X>, stacked: bool) -> Vec<X> {
        let s = E { st: e.st.script(), ..e.clone() };
        let dd = d.saturating_sub(1);
        let (mut sub, mut sup) = (None, None);
        let k = self.r.below(4);
        if k == 0 || k == 2 {
            self.put(a("_"));
            sub = Some(self.arg(&s, dd));
        }
        if k > 0 {
            self.put(a("^"));
            sup = Some(self.arg(&s, dd));
        }
        if k == 3 {
            self.put(a("_"));
            sub = Some(self.arg(&s, dd));
        }
        self.n_nodes += 1;
        vec![X::N { head: "scr".into(), stacked: Some(stacked), kids: vec![Some(base), sub, sup] }]
    }

    fn table_item(&mut self, e: &E, d: u32, v: &mut Vec<X>) {
        self.n_nodes += 1;
        let (n, l, rr, st): (&str, &str, &str, St) = *self.r.choose(&[
            ("matrix", "", "", St::T), ("pmatrix", "(", ")", St::T), ("bmatrix", "[", "]", St::T), ("Bmatrix", "{", "}", St::T),
            ("vmatrix", "|", "|", St::T), ("Vmatrix", "‖", "‖", St::T), ("cases", "{", "", St::T), ("dcases", "{", "", St::D),
            ("rcases", "", "}", St::T), ("drcases", "", "}", St::D), ("aligned", "", "", St::D), ("gathered", "", "", St::D),
            ("array", "", "", St::T), ("darray", "", "", St::D), ("subarray", "", "", St::S),
        ]);
        let cols = match n {
            "gathered" | "subarray" => 1,
            "cases" | "dcases" | "rcases" | "drcases" => 1 + self.r.below(2),
            _ => 1 + self.r.below(3),
        };
        let spec = match n {
            "array" | "darray" => format!("{{{}}}", "c".repeat(cols)),
            "subarray" => "{c}".into(),
            _ => String::new(),
        };
        self.put(a(&format!("\\begin{{{n}}}{spec}")));
        let rows = 1 + self.r.below(3);
        let e2 = E { st, ..e.clone() };
        let mut t = vec![];
        for i in 0..rows {
            let mut cells = vec![];
            for j in 0..cols {
                let mut c = vec![];
                if self.r.pct(88) {
                    c = self.seq(&e2, (d - 1).min(2));
                }
                cells.push(c);
                if j + 1 < cols {
                    self.put(a("&"));
                }
            }
            while cells.last().is_some_and(|c| c.is_empty()) {
                cells.pop();
            }
            t.push(vec![node("row", cells)]);
            if i + 1 < rows {
                self.put(a("\\\\"));
                self.put(a("{}"));
            } else if t.last().unwrap()[0] == node("row", vec![]) {
                // an empty last row may be no row at all
                let x = self.atom(&e2);
                // (in the last cell)
                let mut cells = vec![vec![]; cols - 1];
                cells.push(vec![x]);
                *t.last_mut().unwrap() = vec![node("row", cells)];
            }
        }
        self.put(a(&format!("\\end{{{n}}}")));
        let mut x = vec![];
        if !l.is_empty() {
            x.push(self.fence(e, l, true));
        }
        x.push(node("table", t));
        if !rr.is_empty() {
            x.push(self.fence(e, rr, true));
        }
        self.operand(e, d, x, v);
    }

    fn other_item(&mut self, e: &E, d: u32, v: &mut Vec<X>) {
        let d1 = d - 1;
        self.n_nodes += 1;
        match self.r.below(26) {
            0..=3 => {
                let mut k = *self.r.choose(&["frac", "dfrac", "tfrac", "frac", "cfrac"]);
                if self.in_num > 0 {
                    k = "frac";
                }
                self.put(w(k));
                let st = match k {
                    "dfrac" | "cfrac" => St::T,
                    "tfrac" => St::S,
                    _ => e.st.frac(),
                };
                let e2 = E { st, ..e.clone() };
                let n = self.arg(&e2, d1);
                let m = self.arg(&e2, d1);
                self.operand(e, d, vec![node("frac", vec![n, m])], v);
            }
            4 => {
                let mut k = *self.r.choose(&["binom", "dbinom", "tbinom"]);
                if self.in_num > 0 {
                    k = "binom";
                }
                self.put(w(k));
                let (out, st) = match k {
                    "dbinom" => (St::D, St::T),
                    "tbinom" => (St::T, St::S),
                    _ => (e.st, e.st.frac()),
                };
                let _ = out;
                let e2 = E { st, ..e.clone() };
                let n = self.arg(&e2, d1);
                let m = self.arg(&e2, d1);
                let _ = out;
                let x = vec![self.fence(e, "(", true), node("stack", vec![n, m]), self.fence(e, ")", true)];
                self.operand(e, d, x, v);
            }
            5 => {
                self.put(w("genfrac"));
                let (lo, ls) = *self.r.choose(&[("{}", ""), ("(", "("), ("[", "["), ("\\{", "{")]);
                let (ro, rs) = *self.r.choose(&[("{}", ""), (")", ")"), ("]", "]"), ("\\}", "}")]);
                self.put(src(lo));
                self.put(src(ro));
                let (t, head) = *self.r.choose(&[("{}", "frac"), ("{0pt}", "stack"), ("{2pt}", "frac-line")]);
                self.put(a(t));
                let k = self.r.below(5);
                let out = [e.st, St::D, St::T, St::S, St::SS][k];
                self.put(a(["{}", "{0}", "{1}", "{2}", "{3}"][k]));
                let eo = E { st: out, ..e.clone() };
                let e2 = E { st: out.frac(), ..e.clone() };
                self.in_num += 1;
                let n = self.arg(&e2, d1);
                let m = self.arg(&e2, d1);
                self.in_num -= 1;
                let mut x = vec![];
                if !ls.is_empty() {
                    x.push(self.fence(&eo, ls, true));
                }
                x.push(node(head, vec![n, m]));
                if !rs.is_empty() {
                    x.push(self.fence(&eo, rs, true));
                }
                self.operand(e, d, x, v);
            }
            6 => {
                let k = *self.r.choose(&[("over", "frac", "", ""), ("atop", "stack", "", ""), ("choose", "stack", "(", ")"), ("brace", "stack", "{", "}"), ("brack", "stack", "[", "]")]);
                self.put(a("{"));
                let e2 = E { st: e.st.frac(), ..e.clone() };
                // (which colour the delimiters have is not claimed)
                let old = self.b.clone();
                self.b.colors = if k.2.is_empty() { self.b.colors } else { 0 };
                self.in_num += 1;
                let (n, end) = self.seq_then(&e2, d1.min(2));
                self.in_num -= 1;
                self.put(w(k.0));
                // (colours and fonts last until the end of the group, styles until the end of the numerator)
                let m = self.seq(&E { st: e2.st, ..end }, d1.min(2));
                self.b = old;
                self.put(a("}"));
                let mut x = vec![];
                if !k.2.is_empty() {
                    x.push(self.fence(e, k.2, true));
                }
                x.push(node(k.1, vec![n, m]));
                if !k.3.is_empty() {
                    x.push(self.fence(e, k.3, true));
                }
                self.operand(e, d, x, v);
            }
            7 | 8 => {
                self.put(w("sqrt"));
                if self.r.pct(40) {
                    let i = self.opt_arg(&E { st: St::SS, ..e.clone() }, d1);
                    let x = self.arg(e, d1);
                    self.operand(e, d, vec![node("root", vec![x, i])], v);
                } else {
                    let x = self.arg(e, d1);
                    self.operand(e, d, vec![node("sqrt", vec![x])], v);
                }
            }
            9 | 10 => {
                let (n, c, over) = *self.r.choose(&[
                    ("hat", "ˆ", true), ("tilde", "˜", true), ("vec", "⃗", true), ("dot", "˙", true), ("ddot", "¨", true), ("check", "ˇ", true),
                    ("breve", "˘", true), ("acute", "´", true), ("grave", "`", true), ("bar", "¯", true), ("overrightarrow", "→", true),
                    ("overleftarrow", "←", true), ("underrightarrow", "→", false), ("overbrace", "⏞", true), ("underbrace", "⏟", false),
                    ("overparen", "⏜", true), ("underbracket", "⎵", false), ("underparen", "⏝", false), ("overbracket", "⎴", true),
                ]);
                self.put(w(n));
                // (an operator in it would decide on the place of the label)
                let old = self.b.clone();
                if n.contains("brace") || n.contains("bracket") || n.contains("paren") {
                    self.b.ops = 0;
                }
                let x = self.arg(e, d1);
                self.b = old;
                let mut l = self.leaf(e, c);
                if let X::L(l) = &mut l {
                    l.st = None;
                }
                let x = node(if over { "accent" } else { "underaccent" }, vec![x, vec![l]]);
                if n.ends_with("brace") || n.ends_with("bracket") || n.ends_with("paren") {
                    if self.r.pct(60) {
                        self.put(a(if over { "^" } else { "_" }));
                        let lab = self.arg(&E { st: e.st.script(), ..e.clone() }, d1);
                        let kids = if over { vec![Some(vec![x]), None, Some(lab)] } else { vec![Some(vec![x]), Some(lab), None] };
                        v.push(X::N { head: "scr".into(), stacked: Some(true), kids });
                    } else {
                        v.push(x);
                    }
                } else {
                    self.operand(e, d, vec![x], v);
                }
            }
            11..=13 => {
                self.put(w("left"));
                let mut x = vec![];
                let dot = self.r.pct(12);
                if dot {
                    self.put(a("."));
                } else {
                    let (s, c) = *self.r.choose(LDEL);
                    self.put(delim(s));
                    x.push(self.fence(e, c, true));
                }
                if self.r.pct(25) {
                    // (no switches directly in the parts)
                    let old = self.b.clone();
                    self.b = Bias { fonts: 0, colors: 0, styles: 0, ..old.clone() };
                    x.extend(self.seq(e, d1));
                    self.put(w("middle"));
                    let (s, c) = *self.r.choose(&[("|", "|"), ("\\|", "‖"), ("/", "/"), ("\\vert", "|")]);
                    self.put(delim(s));
                    x.push(self.fence(e, c, true));
                    x.extend(self.seq(e, d1));
                    self.b = old;
                } else {
                    x.extend(self.seq(e, d1));
                }
                self.put(w("right"));
                if !dot && self.r.pct(12) {
                    self.put(a("."));
                } else {
                    let (s, c) = *self.r.choose(RDEL);
                    self.put(delim(s));
                    x.push(self.fence(e, c, true));
                }
                self.operand(e, d, x, v);
            }
            14 => {
                let lr = self.r.below(2);
                let n = *self.r.choose(&["big", "Big", "bigg", "Bigg"]);
                self.put(w(&format!("{n}{}", ["l", "r"][lr])));
                let (s, c) = *self.r.choose(if lr == 0 { LDEL } else { RDEL });
                self.put(delim(s));
                let x = self.fence(e, c, true);
                v.push(x);
            }
            15 => {
                let (s, c) = *self.r.choose(&[("(", "("), (")", ")"), ("[", "["), ("]", "]"), ("\\{", "{"), ("\\}", "}"), ("\\langle", "⟨"), ("\\rangle", "⟩"), ("\\lfloor", "⌊"), ("\\rfloor", "⌋"), ("|", "|")]);
                self.put(delim(s));
                let x = self.fence(e, c, false);
                v.push(x);
            }
            16 | 17 => {
                let over = self.r.pct(60);
                let n = if over { *self.r.choose(&["overset", "stackrel"]) } else { "underset" };
                self.put(w(n));
                let s = self.arg(&E { st: e.st.script(), ..e.clone() }, d1);
                let base = if self.r.pct(40) {
                    self.put(T::Ob);
                    let x = self.op(e);
                    self.put(T::Cb);
                    vec![x]
                } else {
                    // big operators in it would take their own limits
                    let old = self.b.clone();
                    self.b.ops = 0;
                    let x = self.arg(e, d1);
                    self.b = old;
                    x
                };
                let kids = if over { vec![Some(base), None, Some(s)] } else { vec![Some(base), Some(s), None] };
                v.push(X::N { head: "scr".into(), stacked: Some(true), kids });
            }
            18 => {
                let (n, c) = *self.r.choose(&[("xrightarrow", "→"), ("xleftarrow", "←"), ("xRightarrow", "⇒"), ("xmapsto", "↦"), ("xleftrightarrow", "↔"), ("xhookrightarrow", "↪")]);
                self.put(w(n));
                let s = E { st: e.st.script(), ..e.clone() };
                let mut sub = None;
                if self.r.pct(40) {
                    sub = Some(self.opt_arg(&s, d1));
                }
                let sup = Some(self.arg(&s, d1));
                let l = self.leaf(e, c);
                v.push(X::N { head: "scr".into(), stacked: Some(true), kids: vec![Some(vec![l]), sub, sup] });
            }
            19 => {
                let t = *self.r.choose(&["a", "if x", " and ", "10", "é."]);
                let c = *self.r.choose(&["text", "textrm", "mbox", "textnormal"]);
                let c = if c == "mbox" || c == "textnormal" { "text" } else { c };
                self.put(a(&format!("\\{c}{{{t}}}")));
                let x = self.leaf(e, &format!("{:?}", t.replace(' ', "\u{a0}")));
                self.operand(e, d, vec![x], v);
            }
            20 => {
                let (n, h): (&str, &[&str]) = *self.r.choose(&[
                    ("phantom", &["phantom"][..]), ("hphantom", &["pad-height", "phantom"][..]), ("vphantom", &["pad-width", "phantom"][..]),
                    ("cancel", &["enclose-updiagonalstrike"][..]), ("bcancel", &["enclose-downdiagonalstrike"][..]),
                    ("xcancel", &["enclose-updiagonalstrike downdiagonalstrike"][..]),
                ]);
                self.put(w(n));
                let mut x = self.arg(e, d1);
                for h in h.iter().rev() {
                    x = vec![node(h, vec![x])];
                }
                self.operand(e, d, x, v);
            }
            21 if self.in_num == 0 => {
                // (switches would have an effect on what follows)
                let old = self.b.clone();
                self.b = Bias { fonts: 0, colors: 0, styles: 0, ..old.clone() };
                self.n_choice += 1;
                self.put(w("mathchoice"));
                let mut keep = vec![];
                for s in [St::D, St::T, St::S, St::SS] {
                    let x = self.group(e, d1.min(1));
                    if s == e.st {
                        keep = x;
                    }
                }
                self.b = old;
                // (the alternative stands there as if it were written without braces)
                v.extend(keep);
                // (a number after it would continue a number at its end)
                self.last_digit = true;
            }
            22 => {
                let n = *self.r.choose(&["mathord", "mathrel", "mathbin", "mathpunct", "mathinner", "mathopen", "mathclose"]);
                self.put(w(n));
                let old = self.b.clone();
                self.b.other = 0;
                let x = self.group(e, d1.min(1));
                self.b = old;
                v.extend(x);
            }
            23 => {
                let (n, l, rr, grow) = *self.r.choose(&[("bra", "⟨", "|", false), ("ket", "|", "⟩", false), ("Bra", "⟨", "|", true), ("Ket", "|", "⟩", true)]);
                self.put(w(n));
                let f = self.fence(e, l, grow);
                v.push(f);
                // (switches would have an effect on what follows)
                let old = self.b.clone();
                self.b = Bias { fonts: 0, colors: 0, styles: 0, ..old.clone() };
                let x = self.group(e, d1.min(1));
                self.b = old;
                v.extend(x);
                let f = self.fence(e, rr, grow);
                v.push(f);
            }
            24 => {
                self.put(w("prescript"));
                let s = E { st: e.st.script(), ..e.clone() };
                let sup = self.arg(&s, 0);
                let sub = self.arg(&s, 0);
                let base = self.arg(e, d1);
                let x = X::N { head: "multi".into(), stacked: None, kids: vec![Some(base), None, Some(sub), Some(sup)] };
                self.operand(e, d, vec![x], v);
            }
            _ => {
                let (s, c) = *self.r.choose(&[("=", "≠"), ("<", "≮"), (">", "≯"), ("\\in", "∉"), ("\\subset", "⊄"), ("\\equiv", "≢"), ("\\leq", "≰")]);
                self.put(w("not"));
                self.put(src(s));
                let x = self.leaf(e, c);
                v.push(x);
            }
        }
    }
}
