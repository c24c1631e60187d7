//! C27: spacing between atoms.
//!
//! A row of atoms with known classes is generated; the space which TeX puts between them is
//! compared with the space between the same things in the output, which comes from the
//! attributes and, where there are none, from the operator dictionary of MathML Core.
use crate::conv::{self, Cfg, Outcome};
use crate::ctx::Ctx;
use crate::rng::Rng;
use crate::xml::{self, El};
use serde_json::json;

pub fn case(prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    if prop != "C27" {
        return false;
    }
    c27(c, r);
    true
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
enum K {
    Ord,
    Op,
    Bin,
    Rel,
    Open,
    Close,
    Punct,
    Inner,
}
use K::*;

/// The TeXbook, chapter 18. Negative: not in scripts. 9: impossible.
const TABLE: [[i8; 8]; 8] = [
    // Ord Op Bin Rel Open Close Punct Inner
    [0, 1, -2, -3, 0, 0, 0, -1],
    [1, 1, 9, -3, 0, 0, 0, -1],
    [-2, -2, 9, 9, -2, 9, 9, -2],
    [-3, -3, 9, 0, -3, 0, 0, -3],
    [0, 0, 9, 0, 0, 0, 0, 0],
    [0, 1, -2, -3, 0, 0, 0, -1],
    [-1, -1, 9, -1, -1, -1, -1, -1],
    [-1, 1, -2, -3, -1, 0, -1, -1],
];

fn between(l: K, r: K, script: bool) -> f64 {
    match TABLE[l as usize][r as usize] {
        9 => unreachable!("{l:?} {r:?}"),
        n if n < 0 && script => 0.0,
        n => [0.0, 3.0, 4.0, 5.0][n.unsigned_abs() as usize] / 18.0,
    }
}

const ORD: &[(&str, &str)] = &[
    ("\\alpha ", "α"), ("\\infty ", "∞"), ("\\forall ", "∀"), ("\\exists ", "∃"), ("\\neg ", "¬"), ("\\nabla ", "∇"), ("\\ell ", "ℓ"), ("|", "|"),
    ("\\|", "‖"), ("/", "/"), ("\\varnothing ", "∅"), ("\\angle ", "∠"), ("\\%", "%"), ("\\#", "#"), ("\\&", "&"), ("\\$", "$"), ("\\Omega ", "Ω"),
    ("\\partial ", "∂"), ("\\aleph ", "ℵ"), ("\\prime ", "′"), ("\\backslash ", "\\"), ("\\top ", "⊤"), ("\\bot ", "⊥"), ("\\triangle ", "△"), ("\\Re ", "ℜ"),
    ("∞", "∞"), ("∀", "∀"), ("α", "α"), ("\\hbar ", "ℏ"), ("\\lnot ", "¬"), ("\\vert ", "|"), ("\\Vert ", "‖"), ("\\diagup ", "⟋"),
];
const OP: &[(&str, &str)] = &[
    ("\\sum ", "∑"), ("\\prod ", "∏"), ("\\int ", "∫"), ("\\bigcup ", "⋃"), ("\\bigoplus ", "⨁"), ("\\oint ", "∮"), ("\\lim ", "lim"), ("\\sin ", "sin"), ("\\log ", "log"),
    ("\\max ", "max"), ("\\det ", "det"), ("\\operatorname{foo}", "foo"), ("\\operatorname*{foo}", "foo"), ("\\coprod ", "∐"), ("∑", "∑"), ("∫", "∫"), ("\\exp ", "exp"), ("\\iint ", "∬"), ("\\bigwedge ", "⋀"),
    ("\\bigvee ", "⋁"), ("\\bigcap ", "⋂"), ("\\bigsqcup ", "⨆"), ("\\bigotimes ", "⨂"), ("\\bigodot ", "⨀"), ("\\biguplus ", "⨄"), ("\\liminf ", "lim\u{2009}inf"), ("\\argmax ", "arg\u{2009}max"), ("\\Pr ", "Pr"), ("\\gcd ", "gcd"),
];
const BIN: &[(&str, &str)] = &[
    ("+", "+"), ("-", "−"), ("*", "∗"), ("\\times ", "×"), ("\\cdot ", "⋅"), ("\\cup ", "∪"), ("\\cap ", "∩"), ("\\wedge ", "∧"), ("\\vee ", "∨"), ("\\oplus ", "⊕"),
    ("\\otimes ", "⊗"), ("\\pm ", "±"), ("\\mp ", "∓"), ("\\div ", "÷"), ("\\setminus ", "∖"), ("\\circ ", "∘"), ("\\star ", "⋆"), ("\\ast ", "∗"), ("\\sqcup ", "⊔"), ("\\uplus ", "⊎"),
    ("\\ltimes ", "⋉"), ("\\wr ", "≀"), ("\\amalg ", "⨿"), ("\\bigtriangleup ", "△"), ("\\triangleleft ", "◁"), ("\\dagger ", "†"), ("\\boxplus ", "⊞"), ("\\boxtimes ", "⊠"), ("\\land ", "∧"), ("\\lor ", "∨"),
    ("\\bullet ", "∙"), ("\\odot ", "⊙"), ("\\ominus ", "⊖"), ("\\oslash ", "⊘"), ("\\ddagger ", "‡"), ("\\sqcap ", "⊓"), ("\\diamond ", "⋄"), ("\\bigcirc ", "◯"), ("\\lhd ", "⊲"), ("\\rhd ", "⊳"), ("\\unlhd ", "⊴"), ("\\unrhd ", "⊵"),
    ("\\bigtriangledown ", "▽"), ("\\triangleright ", "▷"), ("\\rtimes ", "⋊"), ("\\intercal ", "⊺"), ("\\dotplus ", "∔"), ("\\barwedge ", "⊼"), ("\\veebar ", "⊻"), ("\\curlyvee ", "⋎"), ("\\curlywedge ", "⋏"), ("\\Cup ", "⋓"), ("\\Cap ", "⋒"), ("\\boxminus ", "⊟"), ("\\boxdot ", "⊡"),
    ("\\circledast ", "⊛"), ("\\circledcirc ", "⊚"), ("\\circleddash ", "⊝"), ("\\divideontimes ", "⋇"), ("\\leftthreetimes ", "⋋"), ("\\rightthreetimes ", "⋌"), ("\\doublebarwedge ", "⩞"), ("∪", "∪"), ("×", "×"), ("±", "±"),
];
const REL: &[(&str, &str)] = &[
    ("=", "="), ("<", "<"), (">", ">"), (":", ":"), ("\\le ", "≤"), ("\\ge ", "≥"), ("\\in ", "∈"), ("\\ni ", "∋"), ("\\subset ", "⊂"), ("\\sim ", "∼"), ("\\approx ", "≈"), ("\\equiv ", "≡"),
    ("\\to ", "→"), ("\\Rightarrow ", "⇒"), ("\\leftarrow ", "←"), ("\\mapsto ", "↦"), ("\\mid ", "∣"), ("\\parallel ", "∥"), ("\\perp ", "⟂"), ("\\models ", "⊨"), ("\\propto ", "∝"), ("\\ll ", "≪"), ("\\prec ", "≺"),
    ("\\neq ", "≠"), ("\\vdash ", "⊢"), ("\\uparrow ", "↑"), ("\\Downarrow ", "⇓"), ("\\not=", "≠"), ("\\not\\in ", "∉"), ("≤", "≤"), ("→", "→"), ("\\longrightarrow ", "⟶"), ("\\frown ", "⌢"), ("\\smile ", "⌣"),
    ("\\therefore ", "∴"), ("\\because ", "∵"), ("\\vartriangle ", "△"), ("\\blacktriangleleft ", "◀"), ("\\bowtie ", "⋈"), ("\\asymp ", "≍"), ("\\doteq ", "≐"), ("\\sqsubseteq ", "⊑"), ("\\supseteq ", "⊇"), ("\\succ ", "≻"),
    ("\\dashv ", "⊣"), ("\\cong ", "≅"), ("\\simeq ", "≃"), ("\\vartriangleleft ", "⊲"), ("\\trianglerighteq ", "⊵"), ("\\hookrightarrow ", "↪"), ("\\rightleftharpoons ", "⇌"), ("\\leadsto ", "⇝"), ("\\nmid ", "∤"), ("\\pitchfork ", "⋔"),
    ("\\leqslant ", "⩽"), ("\\preceq ", "⪯"), ("\\lesssim ", "≲"), ("\\gtrless ", "≷"), ("\\nearrow ", "↗"), ("\\Vdash ", "⊩"), ("\\between ", "≬"), ("\\multimap ", "⊸"), ("\\ratio ", "∶"), ("\\backepsilon ", "϶"), ("\\triangleq ", "≜"),
    ("\\restriction ", "↾"), ("\\upharpoonright ", "↾"), ("\\owns ", "∋"), ("\\gets ", "←"), ("\\iff ", ""), ("\\doteqdot ", "≑"), ("\\subsetneq ", "⊊"), ("\\varsubsetneq ", "⊊"), ("\\nleqslant ", "⩽̸"),
    ("\\bigm|", "|"), ("\\Bigm/", "/"), ("\\biggm\\|", "‖"), ("\\Biggm\\vert ", "|"), ("\\bigm\\uparrow ", "↑"),
];
const OPEN: &[(&str, &str)] = &[
    ("(", "("), ("[", "["), ("\\{", "{"), ("\\langle ", "⟨"), ("\\lfloor ", "⌊"), ("\\lceil ", "⌈"), ("\\lvert ", "|"), ("\\lVert ", "‖"), ("\\lbrack ", "["), ("\\lbrace ", "{"), ("\\bigl(", "("), ("\\Bigl|", "|"), ("\\lgroup ", "⟮"),
    ("\\ulcorner ", "⌜"), ("\\llbracket ", "⟦"), ("\\lparen ", "("), ("\\biggl\\langle ", "⟨"), ("\\bigl\\uparrow ", "↑"), ("\\Biggl/", "/"), ("\\lmoustache ", "⎰"), ("\\llcorner ", "⌞"), ("⌊", "⌊"), ("⟨", "⟨"),
];
const CLOSE: &[(&str, &str)] = &[
    (")", ")"), ("]", "]"), ("\\}", "}"), ("\\rangle ", "⟩"), ("\\rfloor ", "⌋"), ("\\rceil ", "⌉"), ("\\rvert ", "|"), ("\\rVert ", "‖"), ("\\rbrack ", "]"), ("!", "!"), ("\\bigr)", ")"), ("\\Bigr|", "|"), ("\\rgroup ", "⟯"),
    ("\\urcorner ", "⌝"), ("\\rrbracket ", "⟧"), ("\\rparen ", ")"), ("\\biggr\\rangle ", "⟩"), ("\\bigr\\uparrow ", "↑"), ("\\Biggr/", "/"), ("\\rmoustache ", "⎱"), ("\\lrcorner ", "⌟"), ("⌋", "⌋"), ("?", "?"),
];
const PUNCT: &[(&str, &str)] = &[(",", ","), (";", ";"), ("\\cdotp ", "·"), ("\\ldotp ", "."), ("\\colon ", ":")];

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    /// something visible
    Leaf(String),
    In,
    Out,
    /// a cell which goes on from the one before it
    Cell,
}

struct Atom {
    k: K,
    /// what follows sees this class (only `\\left` and `\\right` have two)
    right: K,
    ev: Vec<(f64, Ev)>,
}

struct G<'a> {
    s: String,
    r: &'a mut Rng,
    script: bool,
    last_digit: bool,
    last_letter: bool,
    switches: u64,
    tables: u64,
}

fn leaf(t: &str) -> Vec<(f64, Ev)> {
    vec![(0.0, Ev::Leaf(t.into()))]
}

/// The things in a row with the spaces before them, and the space at the end.
type Row = (Vec<(f64, Ev)>, f64);

enum Item {
    A(Atom),
    Kern(f64),
}

fn assemble(items: Vec<Item>, script: bool) -> Row {
    // binary operators with nothing to operate on are ordinary
    let mut ks: Vec<(K, K)> = items.iter().filter_map(|i| if let Item::A(a) = i { Some((a.k, a.right)) } else { None }).collect();
    for i in 0..ks.len() {
        if ks[i].0 == Bin && (i == 0 || matches!(ks[i - 1].1, Bin | Op | Rel | Open | Punct)) {
            ks[i] = (Ord, Ord);
        } else if matches!(ks[i].0, Rel | Close | Punct) && i > 0 && ks[i - 1].1 == Bin {
            ks[i - 1] = (Ord, Ord);
        }
    }
    if ks.last() == Some(&(Bin, Bin)) {
        *ks.last_mut().unwrap() = (Ord, Ord);
    }
    let mut out: Vec<(f64, Ev)> = Vec::new();
    let mut gap = 0.0;
    let mut prev = None;
    let mut n = 0;
    for i in items {
        match i {
            Item::Kern(v) => gap += v,
            Item::A(a) => {
                let (k, right) = ks[n];
                n += 1;
                if let Some(p) = prev {
                    gap += between(p, k, script);
                    if p == Inner && a.k == Bin && k == Ord {
                        // see DESIGN.md
                        gap = f64::NAN;
                    }
                }
                prev = Some(right);
                for (g, e) in a.ev {
                    out.push((gap + g, e));
                    gap = 0.0;
                }
            }
        }
    }
    (out, gap)
}

impl Atom {
    fn new(k: K, ev: Vec<(f64, Ev)>) -> Atom {
        Atom { k, right: k, ev }
    }
}

impl G<'_> {
    fn row(&mut self, depth: u32, style: Option<bool>) -> Row {
        self.row_in(depth, style, None, None)
    }

    fn row_from(&mut self, depth: u32, before: Option<Atom>) -> Row {
        self.row_in(depth, None, None, before)
    }

    /// A row, perhaps between delimiters (of which the first has been written already).
    fn row_in(&mut self, depth: u32, style: Option<bool>, fence: Option<(&str, &str, &str)>, before: Option<Atom>) -> Row {
        let old = self.script;
        if let Some(s) = style {
            self.script = s;
        }
        let n = match self.r.below(10) {
            0 => 0,
            1..=3 => 1,
            4..=6 => 2,
            _ => 1 + self.r.below(6),
        };
        let mut items = Vec::new();
        self.last_digit = false;
        self.last_letter = matches!(before.as_ref().map(|a| &a.ev[0].1), Some(Ev::In));
        if let Some(a) = before {
            items.push(Item::A(a));
        }
        if let Some((l, ..)) = fence {
            items.push(Item::A(Atom::new(Open, leaf(l))));
        }
        for _ in 0..n {
            if fence.is_some() && self.r.pct(15) {
                // closes what is before it and opens what is after it
                let (x, t) = *self.r.choose(&[("|", "|"), ("/", "/"), ("\\uparrow ", "↑"), ("(", "("), ("\\|", "‖"), ("\\rangle ", "⟩"), ("]", "]")]);
                self.s.push_str("\\middle");
                self.s.push_str(x);
                self.last_digit = false;
                self.last_letter = false;
                items.push(Item::A(Atom { k: Close, right: Open, ev: leaf(t) }));
                continue;
            }
            if self.r.pct(4) {
                // spaces do not change classes
                let (s, v) = *self.r.choose(&[("\\,", 3.0), ("\\;", 5.0), ("\\!", -3.0), ("\\quad ", 18.0), ("\\:", 4.0)][..]);
                self.last_digit = false;
                self.last_letter = false;
                self.s.push_str(s);
                items.push(Item::Kern(v / 18.0));
                continue;
            }
            if self.r.pct(4) {
                // nor do switches
                self.last_digit = false;
                self.last_letter = false;
                let after = items.iter().rev().find_map(|i| if let Item::A(a) = i { Some(a.right) } else { None });
                if matches!(after, None | Some(Ord | Close)) && self.r.pct(30) {
                    self.s.push_str("\\color{red}");
                } else {
                    // (the space next to a switch between script and other styles is not claimed)
                    self.s.push_str(*self.r.choose(if self.script { &["\\scriptstyle ", "\\scriptscriptstyle "][..] } else { &["\\displaystyle ", "\\textstyle "][..] }));
                }
                self.switches += 1;
            }
            let (at, digit) = (self.s.len(), self.last_digit);
            let colored = self.s.ends_with("\\color{red}");
            let mut a = self.atom(depth);
            // (see known_findings.json)
            while colored && ["+", "-", "±", "∓", "\\pm", "\\mp"].iter().any(|b| self.s[at..].starts_with(b)) {
                self.s.truncate(at);
                self.last_digit = digit;
                a = self.atom(depth);
            }
            // two of these in a row get too much space: see DESIGN.md
            while a.k == Inner && matches!(items.iter().rev().find(|i| matches!(i, Item::A(_))), Some(Item::A(Atom { right: Inner, .. }))) {
                self.s.truncate(at);
                self.last_digit = digit;
                a = self.atom(depth);
            }
            items.push(Item::A(a));
        }
        if let Some((_, x, xs)) = fence {
            self.s.push_str("\\right");
            self.s.push_str(xs);
            items.push(Item::A(Atom::new(Close, leaf(x))));
        }
        let r = assemble(items, self.script);
        self.script = old;
        self.last_digit = false;
        self.last_letter = false;
        r
    }

    fn pick(&mut self, k: K) -> (&'static str, &'static str) {
        *self.r.choose(match k {
            Ord => ORD,
            Op => OP,
            Bin => BIN,
            Rel => REL,
            Open => OPEN,
            Close => CLOSE,
            Punct => PUNCT,
            Inner => &[("\\cdots ", "⋯")],
        })
    }

    fn sub(&mut self, depth: u32, o: &str, x: &str, style: Option<bool>, ev: &mut Vec<(f64, Ev)>) {
        self.s.push_str(o);
        let (row, end) = self.row(depth, style);
        self.s.push_str(x);
        ev.push((0.0, Ev::In));
        ev.extend(row);
        ev.push((end, Ev::Out));
    }

    fn symbol(&mut self) -> Atom {
        loop {
            let k = match self.r.below(20) {
                0..=4 => Ord,
                5 | 6 => Op,
                7..=9 => Bin,
                10..=12 => Rel,
                13 | 14 => Open,
                15 | 16 => Close,
                17 | 18 => Punct,
                _ => Inner,
            };
            if k == Ord && self.r.pct(60) {
                if !self.last_digit && self.r.pct(30) {
                    let d = *self.r.choose(&["1", "7", "0"]);
                    self.s.push_str(d);
                    self.last_digit = true;
                    self.last_letter = false;
                    return Atom::new(k, leaf(d));
                }
                let l = *self.r.choose(&["a", "x", "y", "k"]);
                self.s.push_str(l);
                self.last_digit = false;
                self.last_letter = true;
                return Atom::new(k, leaf(l));
            }
            let (s, t) = self.pick(k);
            if t.is_empty() || EXCLUDED.contains(&s) {
                continue;
            }
            self.s.push_str(s);
            self.last_digit = false;
            self.last_letter = false;
            return Atom::new(k, leaf(t));
        }
    }

    fn atom(&mut self, depth: u32) -> Atom {
        let script = self.script;
        let which = self.r.below(44);
        if which >= 20 && depth == 0 {
            return self.symbol();
        }
        let d = depth.saturating_sub(1);
        let composite = which >= 20;
        if composite && ((25..=38).contains(&which) || which >= 40) {
            self.last_digit = false;
        }
        let mut ev = Vec::new();
        match which {
            20..=24 => {
                // scripts
                let digit = self.last_digit;
                let mut a = loop {
                    self.last_digit = digit;
                    let at = self.s.len();
                    let a = self.symbol();
                    // these scripts would belong to the delimiter, as they should
                    if a.k != Inner && !self.s[at..].starts_with("\\not") {
                        break a;
                    }
                    self.s.truncate(at);
                };
                self.last_digit = false;
                let both = self.r.below(3);
                let mut subs = Vec::new();
                if both != 1 {
                    self.sub(d, "_{", "}", Some(true), &mut subs);
                }
                if both != 0 {
                    self.sub(d, "^{", "}", Some(true), &mut subs);
                }
                a.ev.extend(subs);
                a
            }
            25 | 26 => {
                self.s.push_str("\\tfrac");
                self.sub(d, "{", "}", Some(true), &mut ev);
                self.sub(d, "{", "}", Some(true), &mut ev);
                Atom::new(Ord, ev)
            }
            27 if self.r.pct(60) => {
                // the parts of a fraction end at the command in the middle
                let style = script || self.r.pct(30);
                let wrap = !script;
                if wrap {
                    self.s.push_str(if style { "{\\scriptstyle" } else { "{\\displaystyle" });
                }
                let op = *self.r.choose(&["\\over ", "\\atop ", "\\over%x\n"]);
                self.sub(d, "{", op, Some(style), &mut ev);
                self.sub(d, "", "}", Some(style), &mut ev);
                if wrap {
                    self.s.push('}');
                }
                Atom::new(Ord, ev)
            }
            27 => {
                self.s.push_str("\\dfrac");
                self.sub(d, "{", "}", Some(false), &mut ev);
                self.sub(d, "{", "}", Some(false), &mut ev);
                Atom::new(Ord, ev)
            }
            28 => {
                self.sub(d, "\\sqrt{", "}", None, &mut ev);
                Atom::new(Ord, ev)
            }
            29..=31 => {
                // a group is ordinary
                let start = self.s.len();
                self.s.push('{');
                let (row, mut end) = self.row(d, None);
                // a group of nothing but spaces would not count as an operand in MathML
                let visible = row.iter().any(|x| x.1 != Ev::Leaf("\u{1}".into()) && x.1 != Ev::Leaf("\u{2}".into()));
                let spaces = self.s[start..].len() > 1;
                ev.push((0.0, Ev::Leaf("\u{1}".into())));
                ev.extend(row);
                if !visible && spaces {
                    self.s.push('y');
                    ev.push((end, Ev::Leaf("y".into())));
                    end = 0.0;
                }
                self.s.push('}');
                ev.push((end, Ev::Leaf("\u{2}".into())));
                Atom::new(Ord, ev)
            }
            32..=34 => {
                // a class by force
                let (c, k) = *self.r.choose(&[("\\mathord", Ord), ("\\mathbin", Bin), ("\\mathrel", Rel), ("\\mathop", Op), ("\\mathopen", Open), ("\\mathclose", Close), ("\\mathpunct", Punct), ("\\mathinner", Inner)][..]);
                self.s.push_str(c);
                let br = self.r.pct(80);
                if br {
                    self.s.push('{');
                }
                let two = br && self.r.pct(30);
                let sp = if !br && self.r.pct(50) { " " } else { "" };
                self.s.push_str(sp);
                let a = if !br || !two {
                    let kk = *self.r.choose(&[Ord, Ord, Rel, Bin, Punct, Inner]);
                    let (s, t) = if kk == Ord { *self.r.choose(&[("z", "z"), ("2", "2"), ("\\alpha ", "α")][..]) } else { self.pick(kk) };
                    if EXCLUDED.contains(&s) || t.is_empty() || (!br && s.starts_with("\\not")) {
                        self.s.push_str(if br || !sp.is_empty() { "w" } else { " w" });
                        leaf("w")
                    } else {
                        if !br && sp.is_empty() && s.starts_with(|c: char| c.is_ascii_alphabetic()) {
                            self.s.push(' ');
                        }
                        self.s.push_str(s);
                        leaf(t)
                    }
                } else {
                    self.s.push('{');
                    let (row, end) = self.row(d, None);
                    self.s.push_str("}y");
                    let mut v = vec![(0.0, Ev::Leaf("\u{1}".into()))];
                    v.extend(row);
                    v.push((end, Ev::Leaf("\u{2}".into())));
                    v.push((0.0, Ev::Leaf("y".into())));
                    v
                };
                if br {
                    self.s.push('}');
                }
                self.last_digit = false;
                self.last_letter = false;
                Atom::new(k, a)
            }
            35 => {
                self.s.push_str("\\text{t}");
                Atom::new(Ord, leaf("t"))
            }
            36 => {
                // something around an argument makes it ordinary, even if it is only an operator
                let (o, shown) = *self.r.choose(&[
                    ("\\hat", true), ("\\bar", true), ("\\vec", true), ("\\widehat", true), ("\\tilde", true), ("\\dot", true), ("\\overline", true), ("\\underline", true),
                    ("\\phantom", true), ("\\hphantom", true), ("\\vphantom", true), ("\\cramped", true), ("\\cancel", true), ("\\boxed", true),
                    ("\\textcolor{blue}", true), ("", true), ("", true),
                ][..]);
                let _ = shown;
                self.s.push_str(o);
                let k = if self.r.pct(60) { Ord } else { *self.r.choose(&[Rel, Rel, Bin, Bin, Op, Punct, Inner][..]) };
                let (s, t) = if k == Ord { ("v", "v") } else { self.pick(k) };
                let (s, t) = if EXCLUDED.contains(&s) || t.is_empty() { ("v", "v") } else { (s, t) };
                self.s.push_str(&format!("{{{s}}}"));
                let mut ev = leaf(t);
                if let Some(f) = ev.first_mut() {
                    f.0 = 0.0;
                }
                Atom::new(Ord, ev)
            }
            37 => {
                // the class is that of the base
                let k = Ord;
                let (s, t) = match k {
                    Ord => ("z", "z"),
                    _ => self.pick(k),
                };
                if EXCLUDED.contains(&s) || t.is_empty() {
                    return self.symbol();
                }
                let o = *self.r.choose(&["\\overset", "\\underset"]);
                self.s.push_str(o);
                let mut subs = Vec::new();
                self.sub(d, "{", "}", Some(true), &mut subs);
                self.s.push_str(&format!("{{{s}}}"));
                let mut ev = leaf(t);
                ev.extend(subs);
                Atom::new(k, ev)
            }
            38 => {
                // \left and \right
                let (l, lt) = *self.r.choose(&[("(", "("), ("[", "["), ("|", "|"), ("\\{", "{"), ("\\langle ", "⟨"), ("\\lfloor ", "⌊"), ("/", "/"), ("\\uparrow ", "↑")][..]);
                let (x, xt) = *self.r.choose(&[(")", ")"), ("]", "]"), ("|", "|"), ("\\}", "}"), ("\\rangle ", "⟩"), ("\\rfloor ", "⌋"), ("/", "/"), ("\\uparrow ", "↑")][..]);
                self.s.push_str("\\left");
                self.s.push_str(l);
                let (row, end) = self.row_in(d, None, Some((lt, xt, x)), None);
                ev.extend(row);
                debug_assert!(end == 0.0);
                Atom { k: Open, right: Close, ev }
            }
            40 => {
                // tables
                let (env, aligned) = *self.r.choose(&[("{aligned}", true), ("{aligned}", true), ("{matrix}", false), ("{gathered}", false), ("{pmatrix}", false), ("{Vmatrix}", false)][..]);
                let fence = match env {
                    "{pmatrix}" => Some(("(", ")")),
                    "{Vmatrix}" => Some(("‖", "‖")),
                    _ => None,
                };
                if let Some((l, _)) = fence {
                    ev.push((0.0, Ev::Leaf(l.into())));
                }
                let old = std::mem::replace(&mut self.script, false);
                self.s.push_str("\\begin");
                self.s.push_str(env);
                for y in 0..1 + self.r.below(2) {
                    if y > 0 {
                        self.s.push_str("\\\\");
                    }
                    for x in 0..1 + self.r.below(if env == "{gathered}" { 1 } else { 3 }) {
                        let before = if x == 0 {
                            None
                        } else {
                            self.s.push('&');
                            Some(if aligned && x % 2 == 1 {
                                Atom::new(Ord, vec![(0.0, Ev::Cell)])
                            } else {
                                // (operators at the start of such a cell: see known_findings.json)
                                self.s.push('y');
                                Atom::new(Ord, vec![(0.0, Ev::In), (0.0, Ev::Leaf("y".into()))])
                            })
                        };
                        let inner = before.is_some();
                        let (row, end) = self.row_from(d, before);
                        if !inner {
                            ev.push((0.0, Ev::In));
                        }
                        ev.extend(row);
                        ev.push((end, Ev::Out));
                    }
                }
                self.s.push_str("\\end");
                self.s.push_str(env);
                self.script = old;
                self.tables += 1;
                if let Some((_, x)) = fence {
                    ev.push((0.0, Ev::Leaf(x.into())));
                    return Atom { k: Open, right: Close, ev };
                }
                Atom::new(Ord, ev)
            }
            41 => {
                // between delimiters of their own
                let (o, style) = *self.r.choose(&[("\\tbinom", true), ("\\dbinom", false)]);
                self.s.push_str(o);
                ev.push((0.0, Ev::Leaf("(".into())));
                self.sub(d, "{", "}", Some(style), &mut ev);
                self.sub(d, "{", "}", Some(style), &mut ev);
                ev.push((0.0, Ev::Leaf(")".into())));
                Atom::new(Ord, ev)
            }
            42 => {
                // a formula as an argument is a formula of its own
                let (o, style) = *self.r.choose(&[
                    ("\\phantom", None), ("\\hphantom", None), ("\\vphantom", None), ("\\cramped", None), ("\\cancel", None), ("\\boxed", None),
                    ("\\textcolor{blue}", None), ("\\overline", None),
                ]);
                self.s.push_str(o);
                self.s.push_str("{z");
                ev.push((0.0, Ev::Leaf("\u{1}".into())));
                let old = std::mem::replace(&mut self.script, style.unwrap_or(script));
                let (row, end) = self.row_from(d, Some(Atom::new(Ord, leaf("z"))));
                self.s.push('}');
                self.script = old;
                ev.extend(row);
                ev.push((end, Ev::Leaf("\u{2}".into())));
                Atom::new(Ord, ev)
            }
            43 => {
                // an operator with something attached, alone in an argument
                let (o, k) = *self.r.choose(&[
                    ("\\mathord", Ord), ("\\mathbin", Bin), ("\\mathrel", Rel), ("\\mathrel", Rel), ("\\mathop", Op), ("\\mathopen", Open), ("\\mathclose", Close),
                    ("\\mathpunct", Punct), ("\\mathinner", Inner), ("", Ord), ("\\phantom", Ord), ("\\boxed", Ord), ("\\textcolor{blue}", Ord),
                ][..]);
                let (b, t) = loop {
                    let x = if self.r.pct(50) { Rel } else { Bin };
                    let x = self.pick(x);
                    if !x.1.is_empty() && !EXCLUDED.contains(&x.0) && !x.0.starts_with("\\not") {
                        break x;
                    }
                };
                self.s.push_str(o);
                self.s.push('{');
                ev.extend(leaf(t));
                match self.r.below(4) {
                    0 | 1 => {
                        self.s.push_str(b);
                        let x = *self.r.choose(&["_{", "^{"]);
                        self.sub(d, x, "}", Some(true), &mut ev);
                    }
                    _ => {
                        self.s.push_str(*self.r.choose(&["\\overset", "\\underset"]));
                        self.sub(d, "{", "}", Some(true), &mut ev);
                        self.s.push_str(&format!("{{{b}}}"));
                    }
                }
                self.s.push('}');
                Atom::new(k, ev)
            }
            _ => self.symbol(),
        }
    }
}

/// Left out: see DESIGN.md.
const EXCLUDED: &[&str] = &["\\colon ", "\\lhd ", "\\rhd ", "\\unlhd ", "\\unrhd ", "\\backepsilon ", "\\bigcirc ", "?"];

fn number(s: &str) -> Result<f64, String> {
    if s == "0" {
        return Ok(0.0);
    }
    s.strip_suffix("em").and_then(|x| x.parse().ok()).ok_or(format!("length {s}"))
}

fn px(attr: Option<&str>, style: &str) -> Option<f64> {
    attr?.split(';').find_map(|p| p.trim().strip_prefix(style)?.strip_prefix(':').map(|v| number(v.trim()).unwrap_or(f64::NAN)))
}

/// The operator dictionary of MathML Core: spaces around an operator.
fn dictionary(t: &str, form: u8) -> Option<(f64, f64)> {
    let mut cs = t.chars();
    let (c, rest) = (cs.next()?, cs.next());
    let (th, me) = (3.0 / 18.0, 4.0 / 18.0);
    if rest.is_some() {
        return None;
    }
    let u = c as u32;
    let any = |l: &[(u32, u32)]| l.iter().any(|x| x.0 <= u && u <= x.1);
    let cat = match form {
        // infix
        0 => {
            if any(B) {
                (me, me)
            } else if any(C) {
                (th, th)
            } else if any(&[(0x5c, 0x5c), (0x5f, 0x5f), (0x2061, 0x2064), (0x2206, 0x2206)]) {
                (0.0, 0.0)
            } else if any(&[(0x2c, 0x2c), (0x3a, 0x3b)]) {
                (0.0, th)
            } else {
                return None;
            }
        }
        // prefix
        1 => {
            if any(H) {
                (th, th)
            } else if any(&[(0x2145, 0x2146), (0x2202, 0x2202), (0x221a, 0x221c)]) {
                (th, 0.0)
            } else if any(D) || any(F) {
                (0.0, 0.0)
            } else {
                return None;
            }
        }
        _ => {
            if any(E) || any(F2) {
                (0.0, 0.0)
            } else {
                return None;
            }
        }
    };
    Some(cat)
}

const B: &[(u32, u32)] = &[
    (0x2b, 0x2b), (0x2d, 0x2d), (0xb1, 0xb1), (0xf7, 0xf7), (0x322, 0x322), (0x2044, 0x2044), (0x2212, 0x2216), (0x2227, 0x222a), (0x2236, 0x2236), (0x2238, 0x2238), (0x228c, 0x228e), (0x2293, 0x2296),
    (0x2298, 0x2298), (0x229d, 0x229f), (0x22bb, 0x22bd), (0x22ce, 0x22cf), (0x22d2, 0x22d3), (0x2795, 0x2797), (0x29b8, 0x29b8), (0x29bc, 0x29bc), (0x29c4, 0x29c5), (0x29f5, 0x29fb), (0x2a1f, 0x2a2e), (0x2a38, 0x2a3a),
    (0x2a3e, 0x2a3e), (0x2a40, 0x2a4f), (0x2a51, 0x2a63), (0x2adb, 0x2adb), (0x2af6, 0x2af6), (0x2afb, 0x2afb), (0x2afd, 0x2afd),
];
const C: &[(u32, u32)] = &[
    (0x25, 0x25), (0x2a, 0x2a), (0x2e, 0x2e), (0x3f, 0x40), (0x5e, 0x5e), (0xb7, 0xb7), (0xd7, 0xd7), (0x323, 0x323), (0x32e, 0x32e), (0x2022, 0x2022), (0x2043, 0x2043), (0x2217, 0x2219), (0x2240, 0x2240), (0x2297, 0x2297), (0x2299, 0x229b),
    (0x22a0, 0x22a1), (0x22ba, 0x22ba), (0x22c4, 0x22c7), (0x22c9, 0x22cc), (0x2305, 0x2306), (0x27cb, 0x27cb), (0x27cd, 0x27cd), (0x29c6, 0x29c8), (0x29d4, 0x29d7), (0x29e2, 0x29e2), (0x2a1d, 0x2a1e), (0x2a2f, 0x2a37), (0x2a3b, 0x2a3d), (0x2a3f, 0x2a3f), (0x2a50, 0x2a50), (0x2a64, 0x2a65), (0x2adc, 0x2add), (0x2afe, 0x2afe),
];
const D: &[(u32, u32)] = &[
    (0x21, 0x21), (0x2b, 0x2b), (0x2d, 0x2d), (0xac, 0xac), (0xb1, 0xb1), (0x2018, 0x2018), (0x201c, 0x201c), (0x2200, 0x2201), (0x2203, 0x2204), (0x2207, 0x2207), (0x2212, 0x2213), (0x221f, 0x2222), (0x2234, 0x2235), (0x223c, 0x223c), (0x22be, 0x22bf), (0x2310, 0x2310), (0x2319, 0x2319), (0x2795, 0x2796), (0x27c0, 0x27c0), (0x299b, 0x29af), (0x2aec, 0x2aed),
];
const E: &[(u32, u32)] = &[
    (0x21, 0x22), (0x25, 0x27), (0x60, 0x60), (0xa8, 0xa8), (0xb0, 0xb0), (0xb2, 0xb4), (0xb8, 0xb9), (0x2ca, 0x2cb), (0x2d8, 0x2da), (0x2dd, 0x2dd), (0x311, 0x311), (0x2019, 0x201b), (0x201d, 0x201f), (0x2032, 0x2037), (0x2057, 0x2057), (0x20db, 0x20dc), (0x23cd, 0x23cd),
];
/// fences
const F: &[(u32, u32)] = &[
    (0x28, 0x28), (0x5b, 0x5b), (0x7b, 0x7c), (0x2016, 0x2016), (0x2308, 0x2308), (0x230a, 0x230a), (0x2329, 0x2329), (0x2772, 0x2772), (0x27e6, 0x27e6), (0x27e8, 0x27e8), (0x27ea, 0x27ea), (0x27ec, 0x27ec), (0x27ee, 0x27ee), (0x2980, 0x2980), (0x2983, 0x2983), (0x2985, 0x2985), (0x2987, 0x2987), (0x2989, 0x2989), (0x298b, 0x298b), (0x298d, 0x298d), (0x298f, 0x298f), (0x2991, 0x2991), (0x2993, 0x2993), (0x2995, 0x2995), (0x2997, 0x2997), (0x2999, 0x2999), (0x29d8, 0x29d8), (0x29da, 0x29da), (0x29fc, 0x29fc),
];
const F2: &[(u32, u32)] = &[
    (0x29, 0x29), (0x5d, 0x5d), (0x7c, 0x7d), (0x2016, 0x2016), (0x2309, 0x2309), (0x230b, 0x230b), (0x232a, 0x232a), (0x2773, 0x2773), (0x27e7, 0x27e7), (0x27e9, 0x27e9), (0x27eb, 0x27eb), (0x27ed, 0x27ed), (0x27ef, 0x27ef), (0x2980, 0x2980), (0x2984, 0x2984), (0x2986, 0x2986), (0x2988, 0x2988), (0x298a, 0x298a), (0x298c, 0x298c), (0x298e, 0x298e), (0x2990, 0x2990), (0x2992, 0x2992), (0x2994, 0x2994), (0x2996, 0x2996), (0x2998, 0x2999), (0x29d9, 0x29d9), (0x29db, 0x29db), (0x29fd, 0x29fd),
];
/// integrals and sums
const H: &[(u32, u32)] = &[(0x222b, 0x2233), (0x2a0b, 0x2a1c), (0x220f, 0x2211), (0x22c0, 0x22c3), (0x2a00, 0x2a0a), (0x2a1d, 0x2a1e), (0x2afc, 0x2afc), (0x2aff, 0x2aff)];

fn row_like(e: &El) -> bool {
    matches!(e.name.as_str(), "mrow" | "mpadded" | "mphantom" | "mstyle" | "math" | "mtd" | "msqrt" | "menclose" | "merror")
}

fn space_like(e: &El) -> bool {
    e.name == "mspace" || (matches!(e.name.as_str(), "mrow" | "mpadded" | "mphantom") && e.attr("style").is_none() && !e.els().is_empty() && e.els().iter().all(|k| space_like(k)))
}

/// The operator at the core, if `e` is an operator with anything attached.
fn core(e: &El) -> Option<&El> {
    match e.name.as_str() {
        "mo" => Some(e),
        "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" | "mmultiscripts" | "mfrac" => core(e.els().first()?),
        "mrow" | "mpadded" | "mphantom" | "mstyle" => {
            let k: Vec<&El> = e.els().into_iter().filter(|k| !space_like(k)).collect();
            if let [k] = k[..] { core(k) } else { None }
        }
        _ => None,
    }
}

fn spaces(mo: &El, pos: u8) -> Result<(f64, f64), String> {
    let form = match mo.attr("form") {
        Some("infix") => 0,
        Some("prefix") => 1,
        Some("postfix") => 2,
        _ => pos,
    };
    let t = mo.text();
    let d = dictionary(&t, form).or_else(|| if mo.attr("form").is_some() { None } else { [0, 2, 1].into_iter().find_map(|f| dictionary(&t, f)) });
    let d = d.unwrap_or((5.0 / 18.0, 5.0 / 18.0));
    let get = |n: &str, d: f64| mo.attr(n).map_or(Ok(d), number);
    Ok((get("lspace", d.0)?, get("rspace", d.1)?))
}

struct W {
    out: Vec<(f64, Ev)>,
    gap: f64,
}

impl W {
    fn push(&mut self, e: Ev) {
        let g = std::mem::replace(&mut self.gap, 0.0);
        self.out.push((g, e));
    }

    fn row(&mut self, e: &El, inside_core: bool) -> Result<(), String> {
        let kids = e.els();
        let n = kids.iter().filter(|k| !space_like(k)).count();
        let mut i = 0;
        let l = px(e.attr("style"), "padding-left").unwrap_or(0.0);
        self.gap += l;
        for k in kids {
            if k.name == "mspace" {
                self.el(k, inside_core)?;
                continue;
            }
            let pos = if space_like(k) || n < 2 {
                0
            } else {
                i += 1;
                if i == 1 {
                    1
                } else if i == n {
                    2
                } else {
                    0
                }
            };
            if !inside_core && let Some(mo) = core(k) {
                let (l, r) = spaces(mo, pos)?;
                self.gap += l;
                self.el(k, true)?;
                self.gap += r;
            } else {
                self.el(k, inside_core)?;
            }
        }
        self.gap += px(e.attr("style"), "padding-right").unwrap_or(0.0);
        Ok(())
    }

    fn el(&mut self, e: &El, inside_core: bool) -> Result<(), String> {
        match e.name.as_str() {
            "mi" | "mn" | "mo" | "mtext" => {
                let t = e.text().replace(['\u{fe00}', '\u{fe01}'], "");
                // invisible
                if !matches!(t.as_str(), "\u{2061}" | "\u{2063}" | "") {
                    self.push(Ev::Leaf(t));
                }
                Ok(())
            }
            "math" | "mrow" | "mpadded" | "mphantom" | "mstyle" => self.row(e, inside_core),
            "mspace" => {
                self.gap += match (e.attr("width"), px(e.attr("style"), "margin-left")) {
                    (Some(w), _) => number(w)?,
                    (None, Some(m)) => m,
                    _ => 0.0,
                };
                Ok(())
            }
            "mtable" => {
                for row in e.els() {
                    for cell in row.els() {
                        self.push(Ev::In);
                        self.row(cell, false)?;
                        self.push(Ev::Out);
                    }
                }
                Ok(())
            }
            // the lines are drawn by elements without anything in them
            "menclose" => e.els().into_iter().filter(|k| k.attr("class").is_none()).try_for_each(|k| match core(k) {
                Some(mo) if !inside_core => {
                    let (l, r) = spaces(mo, 0)?;
                    self.gap += l;
                    self.el(k, true)?;
                    self.gap += r;
                    Ok(())
                }
                _ => self.el(k, inside_core),
            }),
            "msqrt" => {
                self.push(Ev::In);
                self.row(e, false)?;
                self.push(Ev::Out);
                Ok(())
            }
            _ => {
                let kids = e.els();
                let base = usize::from(e.name != "mfrac");
                if base == 1 {
                    // an operator's spaces are around all of this
                    self.el(kids[0], inside_core)?;
                }
                // an accent is no row
                if e.attr("accent").is_some() || e.attr("accentunder").is_some() {
                    return Ok(());
                }
                // a space at the end of the base belongs to it
                let gap = if base == 1 { std::mem::replace(&mut self.gap, 0.0) } else { 0.0 };
                for (i, k) in kids.iter().enumerate().skip(base) {
                    self.push(Ev::In);
                    // an operator alone in a numerator is the core of the fraction
                    let in_core = inside_core && i == 0 && core(k).is_some();
                    if row_like(k) && k.name != "msqrt" { self.row(k, in_core)? } else { self.el(k, core(k).is_some())? }
                    self.push(Ev::Out);
                }
                self.gap = gap;
                Ok(())
            }
        }
    }
}

/// Fixed formulas of the known findings (see known_findings.json): reported as long as they fail.
pub fn probe(c: &mut Ctx) {
    let (bin, rel) = (4.0 / 18.0, 5.0 / 18.0);
    for (s, spaces) in [
        ("a\\color{red}+b", &[bin, bin][..]),
        ("a+\\color{red}=b", &[0.0, rel, rel][..]),
        ("\\begin{matrix}a&\\times b\\end{matrix}", &[0.0, 0.0, 0.0, 0.0, 0.0, 0.0][..]),
        ("\\textstyle{a+b\\over c}", &[0.0; 7][..]),
    ] {
        let Outcome::Ok { mathml, .. } = conv::local(&Cfg::default().conv(), s, true) else {
            c.viol(s, "a fixed formula is rejected", json!({}));
            continue;
        };
        let mut w = W { out: Vec::new(), gap: 0.0 };
        let res = xml::parse(&mathml).map_err(|e| format!("{e:?}")).and_then(|t| w.row(&xml::strip_layout(&t), false));
        let got: Vec<f64> = w.out.iter().skip(1).map(|x| x.0).collect();
        if res.is_err() || got.len() != spaces.len() || got.iter().zip(spaces).any(|(x, y)| (x - y).abs() > 0.0006) {
            c.viol(s, "a space of a fixed formula is not the one of TeX", json!({"expected": spaces, "got": got, "output": mathml}));
        }
    }
}

fn c27(c: &mut Ctx, r: &mut Rng) {
    let block = r.pct(50);
    let mut g = G { s: String::new(), r, script: false, last_digit: false, last_letter: false, switches: 0, tables: 0 };
    let (mut row, end) = g.row(2, None);
    let (switches, tables) = (g.switches, g.tables);
    let s = g.s;
    row.push((end, Ev::Out));
    // groups are seen only by their effect
    let strip = |row: Vec<(f64, Ev)>| {
        let mut out: Vec<(f64, Ev)> = Vec::new();
        let mut gap = 0.0;
        for (x, e) in row {
            gap += x;
            if let Ev::Leaf(t) = &e
                && (t == "\u{1}" || t == "\u{2}")
            {
                continue;
            }
            out.push((gap, e));
            gap = 0.0;
        }
        out
    };
    let want = strip(row);
    let cfg = Cfg::default();
    let key = format!("{s:?}|{block}");
    if want.iter().any(|x| x.0 != 0.0) {
        c.nontrivial(&key);
    }
    c.sample(|| json!({"input": s, "expected": format!("{want:?}")}));
    match conv::local(&cfg.conv(), &s, block) {
        Outcome::Ok { mathml, .. } => {
            let mut w = W { out: Vec::new(), gap: 0.0 };
            let res = xml::parse(&mathml).map_err(|e| format!("{e:?}")).and_then(|t| w.row(&xml::strip_layout(&t), false));
            w.push(Ev::Out);
            if let Err(e) = res {
                c.viol(&key, "spaces cannot be read", json!({"what": e, "output": mathml}));
                return;
            }
            let got = strip(w.out);
            let shape = |e: &Ev| if *e == Ev::Cell { Ev::In } else { e.clone() };
            if got.iter().map(|x| shape(&x.1)).ne(want.iter().map(|x| shape(&x.1))) {
                c.stat("different parts");
                c.viol(&key, "different parts", json!({"want": format!("{want:?}"), "got": format!("{got:?}"), "output": mathml}));
                return;
            }
            // the space around everything in a script, a part of a fraction etc. is not of interest
            let edge = |i: usize| i == 0 || want[i].1 == Ev::Out || want[i - 1].1 == Ev::In;
            let bad = (0..want.len()).find(|&i| !edge(i) && (got[i].0 - want[i].0).abs() > 0.0006);
            if let Some(i) = bad {
                let b = |i: usize| if i == 0 { "start".into() } else { format!("{:?}", want[i - 1].1) };
                c.viol(
                    &key,
                    "a space is not the one of TeX",
                    json!({"input": s, "after": b(i), "before": format!("{:?}", want[i].1), "expected": want[i].0, "got": got[i].0, "output": mathml}),
                );
                return;
            }
            c.add("switches of style or colour", switches);
            c.add("tables", tables);
            c.add("spaces compared", got.len() as u64);
            c.add("non-zero spaces", want.iter().filter(|x| x.0 != 0.0).count() as u64);
        }
        Outcome::Err { msg, .. } => {
            c.stat("rejected");
            c.viol(&key, "a correct formula is rejected", json!({"error": msg}));
        }
        o => c.viol(&key, "panic", json!({"input": s, "result": o.short()})),
    }
}
