//! C31: every symbol command shows its symbol, C32: negation.
//!
//! The tables here (and `data/commands.txt`) say which character a command stands for; they were
//! checked command by command against the names which LaTeX and Unicode give it. `data/neg.txt`
//! has all characters which Unicode composes with U+0338.
use crate::conv::{self, Cfg, Outcome};
use crate::ctx::Ctx;
use crate::gen_::Data;
use crate::rng::Rng;
use crate::xml;
use serde_json::json;
use std::collections::HashMap;
use std::sync::OnceLock;

pub fn case(d: &Data, prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    match prop {
        "C31" => c31(d, c, r),
        "C32" => c32(d, c, r),
        _ => return false,
    }
    true
}

/// Commands which show more than one character, or something built from others.
const COMPOSED: &[(&str, &str)] = &[
    ("Coloneq", "⩴"), ("Coloneqq", "⩴"), ("Colonapprox", "∶∶≈"), ("Colondash", "∶∶−"), ("Colonsim", "∶∶∼"),
    ("Dashcolon", "−∶∶"), ("Eqcolon", "=∶∶"), ("Eqqcolon", "=∶∶"), ("Simcolon", "∼∶∶"), ("approxcolon", "≈∶"),
    ("approxcoloncolon", "≈∶∶"), ("colonapprox", "∶≈"), ("coloncolon", "∶∶"), ("coloncolonapprox", "∶∶≈"),
    ("coloncolonequals", "∶∶="), ("coloncolonminus", "∶∶−"), ("coloncolonsim", "∶∶∼"), ("colondash", "∶−"),
    ("coloneq", "≔"), ("colonequals", "∶="), ("coloneqq", "≔"), ("colonminus", "∶−"), ("colonsim", "∶∼"),
    ("dashcolon", "∹"), ("dblcolon", "∷"), ("eqcolon", "≕"), ("eqqcolon", "≕"), ("equalscolon", "=∶"),
    ("equalscoloncolon", "=∶∶"), ("minuscolon", "−∶"), ("minuscoloncolon", "−∶∶"), ("simcolon", "∼∶"),
    ("simcoloncolon", "∼∶∶"), ("And", "&"), ("bmod", "mod"), ("mod", "mod"), ("cdots", "⋯"), ("idotsint", "∫···∫"),
    ("iff", "⟺"), ("impliedby", "⟸"), ("implies", "⟹"), ("ngeqq", "≧\u{338}"), ("ngeqslant", "⩾\u{338}"),
    ("nleqq", "≦\u{338}"), ("nleqslant", "⩽\u{338}"), ("nsubseteqq", "⫅\u{338}"), ("nsupseteqq", "⫆\u{338}"),
    ("Pr", "Pr"), ("argmax", "arg\u{2009}max"), ("argmin", "arg\u{2009}min"), ("injlim", "inj\u{2009}lim"),
    ("liminf", "lim\u{2009}inf"), ("limsup", "lim\u{2009}sup"), ("projlim", "proj\u{2009}lim"),
    ("gvertneqq", "≩\u{fe00}"), ("lvertneqq", "≨\u{fe00}"), ("varsubsetneq", "⊊\u{fe00}"),
    ("varsubsetneqq", "⫋\u{fe00}"), ("varsupsetneq", "⊋\u{fe00}"), ("varsupsetneqq", "⫌\u{fe00}"), ("Bbbk", "𝕜"),
    ("ldots", "..."), ("angln", "n"), ("dots", "..."),
];

/// Commands whose character has another class, meaning or spacing when it is typed.
const NOT_TYPED: &[&str] = &[
    "lVert", "rVert", "lvert", "rvert", "lbrace", "rbrace", "{", "}", "backslash", "prime", "backprime", "Yleft", "Yright",
    "circlearrowleft", "circlearrowright", "dashleftarrow", "dashrightarrow", "because", "therefore", "bigtriangledown",
    "blacktriangleleft", "blacktriangleright", "circleddash", "diagdown", "diagup", "ldotp", "vartriangle", "#", "$", "%",
    "_", "&", "lbrack", "rbrack", "colon", "complement", "dag", "ddag", "triangle",
];

const SYMBOL: &[&str] = &[
    "Letter", "UprightLetter", "Ord", "Relation", "BinaryOp", "ForceBinaryOp", "ForceRelation", "ForceOpen", "ForceClose",
    "ForceOrd", "ForcePunctuation", "Op", "Open", "Close",
];

pub struct Sym {
    pub name: String,
    pub text: String,
    /// The character, if typing it means the same.
    typed: Option<char>,
    /// Changes with the font.
    letter: bool,
    kind: String,
}

pub fn syms(d: &Data) -> &'static Vec<Sym> {
    static S: OnceLock<Vec<Sym>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for k in &d.cmds {
            let composed = COMPOSED.iter().find(|x| x.0 == k.name);
            let pseudo = k.kind.starts_with("PseudoOperator");
            let text = match (composed, k.ch) {
                (Some(t), _) => t.1.to_string(),
                (None, Some(ch)) if SYMBOL.contains(&k.kind.as_str()) => ch.to_string(),
                (None, None) if pseudo => k.name.clone(),
                (None, Some(ch)) if k.name == "{" || k.name == "}" || k.name == "&" => ch.to_string(),
                _ => continue,
            };
            let letter = matches!(k.kind.as_str(), "Letter" | "UprightLetter") || composed.is_some() || pseudo;
            let typed = if composed.is_some() || pseudo || k.kind == "UprightLetter" || NOT_TYPED.contains(&k.name.as_str()) {
                None
            } else {
                k.ch
            };
            v.push(Sym { name: k.name.clone(), text, typed, letter, kind: k.kind.clone() });
        }
        v
    })
}

/// The contexts a symbol is put in, `@` is its place. `true`: keeps the font of letters.
const CTX: &[(&str, bool)] = &[
    ("@", true), ("a@b", true), ("a@", true), ("@b", true), ("a=@", true), ("a+@c", true), ("1@2", true), ("(@)", true),
    ("x_{@}", true), ("x^{@}", true), ("x_@", true), ("x^@y", true), ("x'_{@}^{c}", true), ("{@}^{2}", true), ("@^2", true),
    ("@_{i}^{j}", true), ("\\frac{a}{@}", true), ("\\frac{@}{b}", true), ("\\frac @c", true), ("\\sqrt{@}", true),
    ("\\sqrt @", true), ("\\sqrt[@]{u}", true), ("\\left(@\\right)", true), ("\\left.a@\\right]", true), ("{@}", true),
    ("\\begin{matrix}a&@\\\\@&d\\end{matrix}", true), ("\\begin{cases}@&d\\end{cases}", true),
    ("\\begin{align}@&=b\\end{align}", true), ("\\begin{array}{l|r}@&@\\end{array}", true), ("\\overset{@}{u}", true),
    ("\\underset{v}{@}", true), ("\\stackrel{a}{@}", true), ("\\mathrel{@}", true), ("\\mathbin{@}", true),
    ("\\mathop{@}", true), ("\\mathord{@}", true), ("\\textcolor{red}{@}", true), ("\\xrightarrow[@]{u}", true),
    ("\\underbrace{@}_{n}", true), ("\\hat{@}", true), ("\\widehat{a@}", true), ("\\boxed{@}", true), ("\\cancel{@}", true),
    ("\\def\\q{@}\\q", true), ("\\def\\q{a@}c\\q d", true), ("\\def\\q#1{a#1}\\q{@}", true),
    ("\\def\\q#1{#1b#1}\\q @", true), ("\\def\\p#1{#1}\\def\\q#1{\\p{#1}}\\q{@}", true), ("\\displaystyle @", true),
    ("\\scriptstyle{@}", true), ("\\dfrac{u}{@}", true), ("\\binom{@}{v}", true), ("{@\\over v}", true),
    ("\\sideset{_@}{^@}{\\sum}", true), ("\\phantom{@}", true), ("\\mathchoice{@}{@}{@}{@}", true), ("\\big(@\\big)", true),
    ("\\mathbf{@}", false), ("\\mathbf{a@1}", false), ("\\mathrm{ab@}", false), ("\\mathcal{@}", false),
    ("\\mathfrak{@}", false), ("{\\bf @}", false), ("\\bm{@}", false), ("\\mathsf{@c}", false), ("\\mathbb{@}", false),
];

/// `@` replaced; a command name is kept apart from letters after it.
fn put(t: &str, s: &str) -> String {
    let mut o = String::new();
    let mut it = t.chars().peekable();
    let word = s.starts_with('\\') && s.ends_with(|c: char| c.is_ascii_alphabetic());
    while let Some(ch) = it.next() {
        if ch == '@' {
            o.push_str(s);
            if word && it.peek().is_some_and(|c| c.is_ascii_alphabetic()) {
                o.push(' ');
            }
        } else {
            o.push(ch);
        }
    }
    o
}

fn context(r: &mut Rng, letter: bool) -> String {
    let mut t = "@".to_string();
    let n = *r.choose(&[0, 1, 1, 1, 2, 2, 3]);
    let mut macros = 0;
    for _ in 0..n {
        let k = loop {
            let k = r.choose(CTX);
            if (!letter || k.1) && !(k.0.contains("\\def") && macros > 0) && !(k.0.contains("align") && t != "@") {
                break k.0;
            }
        };
        macros += k.contains("\\def") as u32;
        // An argument without braces can only take a single token.
        let single = k.contains("_@") || k.contains("^@") || k.contains(" @") || k == "@^2" || k.contains("@_") || k.contains("@b") || k == "1@2";
        if t != "@" && single {
            t = format!("{{{t}}}");
        }
        t = if t.contains("align") && k != "@" { t } else { put(k, &t) };
        // Replicating contexts multiply.
        if t.matches('@').count() > 12 {
            break;
        }
    }
    t
}

fn text(o: &Outcome) -> Option<String> {
    let e = xml::parse(o.ok()?).ok()?;
    Some(e.text().chars().filter(|c| !matches!(c, '\u{2061}' | '\u{2063}')).collect())
}

/// A letter no command and no context has.
const MARK: char = 'Ѫ';

fn c31(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let s = syms(d);
    let total = s.len() as u64;
    let block = r.pct(50);
    let k = Cfg::default().conv();
    if c.idx >= total * 3 && r.pct(25) {
        // A character typed as such.
        let ch = loop {
            let n = match r.below(4) {
                0 => r.range(0xa1, 0x2fff) as u32,
                1 => r.range(0x2000, 0x2bff) as u32,
                2 => r.range(0x2900, 0x2aff) as u32,
                _ => r.range(0xa1, 0x2ffff) as u32,
            };
            if let Some(ch) = char::from_u32(n) {
                // Invisible operators are not shown.
                if (n < 0xe000 || n >= 0xfe10) && !(0x2060..=0x2064).contains(&n) {
                    break ch;
                }
            }
        };
        let font = ch.is_alphanumeric() || ('\u{370}'..='\u{3ff}').contains(&ch) || ('\u{2100}'..='\u{214f}').contains(&ch) || ch == '∂' || ch == '∇';
        let t = context(r, font);
        one(c, &k, &t, &ch.to_string(), &ch.to_string(), None, block, "typed");
        return;
    }
    let y = if c.idx < total * 3 { &s[(c.idx % total) as usize] } else { r.choose(s) };
    let t = context(r, y.letter);
    if (y.name == "dots" || y.name == "ldots") && !["a@b", "x_{@}", "\\frac{a}{@}", "{@}"].contains(&t.as_str()) {
        return; // what they show depends on what is around them
    }
    one(c, &k, &t, &format!("\\{}", y.name), &y.text, y.typed, block, &y.kind.clone());
}

fn one(c: &mut Ctx, k: &math_core::LatexToMathML, t: &str, input: &str, shown: &str, typed: Option<char>, block: bool, kind: &str) {
    // What the context shows around its place.
    let reference = put(t, &MARK.to_string());
    let rf = conv::local(k, &reference, block);
    let Some(rt) = text(&rf) else {
        c.stat("context rejected");
        return;
    };
    let f = put(t, input);
    let o = conv::local(k, &f, block);
    match &o {
        Outcome::Ok { .. } => {}
        Outcome::Panic(_) => return,
        Outcome::Err { .. } => {
            // Not all contexts take everything, but a command is taken where its character is.
            c.stat("rejected");
            if let Some(ch) = typed {
                let g = put(t, &ch.to_string());
                if conv::local(k, &g, block).is_ok() {
                    c.viol(&f, "command rejected where its character is not", json!({"command": o.short(), "typed": g}));
                }
            }
            return;
        }
    }
    let want: String = rt.replace(MARK, shown);
    let Some(got) = text(&o) else {
        return;
    };
    c.stat(&format!("kind {kind}"));
    c.nontrivial(&f);
    if got != want {
        c.viol(&f, "does not show its symbol", json!({"shown": got, "expected": want, "mathml": o.short()}));
        return;
    }
    if let Some(ch) = typed {
        let g = put(t, &ch.to_string());
        let p = conv::local(k, &g, block);
        c.stat("compared with the typed character");
        if p != o {
            c.viol(&f, "command differs from its character", json!({"typed": g, "command": o.short(), "character": p.short()}));
        }
    }
    c.sample(|| json!({"input": f, "shown": got}));
}

// ---------------------------------------------------------------------------------------------

fn solidus() -> &'static HashMap<char, char> {
    static S: OnceLock<HashMap<char, char>> = OnceLock::new();
    S.get_or_init(|| {
        include_str!("../data/neg.txt")
            .lines()
            .map(|l| {
                let (a, b) = l.split_once(' ').unwrap();
                let p = |x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap();
                (p(a), p(b))
            })
            .collect()
    })
}

/// The text with the mark on its first character.
fn negate(t: &str, mark: char) -> String {
    let m = solidus();
    let mut cs: Vec<char> = t.chars().collect();
    if cs.is_empty() {
        return t.into();
    }
    let mut i = 1;
    while i < cs.len() && ('\u{fe00}'..='\u{fe0f}').contains(&cs[i]) {
        i += 1;
    }
    if mark == '\u{338}' {
        if m.values().any(|v| *v == cs[0]) {
            return t.into(); // is negated
        }
        if i == 1 {
            if let Some(n) = m.get(&cs[0]) {
                cs[0] = *n;
                return cs.into_iter().collect();
            }
        }
    }
    if cs[i..].iter().take_while(|c| matches!(c, '\u{338}' | '\u{20d2}')).any(|c| *c == mark) {
        return t.into();
    }
    cs.insert(i, mark);
    cs.into_iter().collect()
}

/// The order of several marks on a character makes no difference.
fn marks(t: &str) -> String {
    let mut o: Vec<char> = vec![];
    for ch in t.chars() {
        let n = o.len();
        if ch == '\u{338}' && n > 0 && o[n - 1] == '\u{20d2}' {
            o.insert(n - 1, ch);
        } else {
            o.push(ch);
        }
    }
    o.into_iter().collect()
}

/// The elements of a tree.
fn shape(o: &Outcome) -> String {
    let m = o.ok().unwrap_or("");
    let mut s = String::new();
    for p in m.split('<').skip(1) {
        let tag = p.split(|c: char| c == '>' || c == ' ').next().unwrap();
        s.push_str(tag);
        s.push(' ');
    }
    s
}

fn c32(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let s = syms(d);
    let block = r.pct(50);
    let k = Cfg::default().conv();
    let total = s.len() as u64;
    // The operand.
    let mut pseudo = false;
    let (input, shown, letter) = if c.idx < 2 * total || r.pct(60) {
        let y = if c.idx < 2 * total { &s[(c.idx % total) as usize] } else { r.choose(s) };
        if y.kind == "CustomCmd" && !y.text.contains('\u{338}') || y.name == "dots" || y.name == "ldots" {
            return; // these are several symbols or include space
        }
        pseudo = y.kind.starts_with("Pseudo");
        (format!("\\{}", y.name), y.text.clone(), y.letter)
    } else if r.pct(35) {
        // Several letters which are shown as one name: the mark is on the first of them.
        let n = 1 + r.below(4);
        let name: String = (0..n).map(|_| *r.choose(&['a', 'b', 'x', 'Z', 'R', 'é', 'ß', 'α', 'Ж', 'א', '日', 'ﬁ', '한', '𝔸', '𐌰'])).collect();
        let cmd = r.pick(&["operatorname", "operatorname", "mathrm", "mathbf", "mathcal", "mathscr", "mathfrak", "mathbb", "mathsf"]);
        let i = format!("\\{cmd}{{{name}}}");
        let Some(t) = text(&conv::local(&k, &i, block)) else { return };
        pseudo = true;
        c.stat(if cmd == "operatorname" { "name" } else { "letters of an alphabet" });
        (i, t, true)
    } else if r.pct(50) {
        let mut v: Vec<char> = solidus().keys().copied().collect();
        v.sort();
        let ch = *r.choose(&v);
        (ch.to_string(), ch.to_string(), true)
    } else {
        let ch = char::from_u32(match r.below(3) {
            0 => r.range(0x2190, 0x22ff),
            1 => r.range(0x2900, 0x2aff),
            _ => r.range(0xa1, 0x2fff),
        } as u32)
        .unwrap();
        if ('\u{2032}'..='\u{2037}').contains(&ch) || ch == '\u{2057}' || ('\u{2060}'..='\u{2064}').contains(&ch) {
            return; // primes belong to what is before them
        }
        (ch.to_string(), ch.to_string(), true)
    };
    let (cmd, mark) = *r.choose(&[("\\not", '\u{338}'), ("\\not", '\u{338}'), ("\\slashed", '\u{338}'), ("\\vertoverlay", '\u{20d2}')]);
    let sep = |x: &str| if x.starts_with(|c: char| c.is_ascii_alphabetic()) { " " } else { "" };
    let (neg, want) = match r.below(6) {
        0 => (format!("{cmd}{{{input}}}"), negate(&shown, mark)),
        1 => (format!("{cmd} {input}"), negate(&shown, mark)),
        2 if !pseudo => (format!("{cmd}{cmd}{}{input}", sep(&input)), {
            let once = negate(&shown, mark);
            negate(&once, mark)
        }),
        3 => (format!("\\not\\vertoverlay{}{input}", sep(&input)), negate(&negate(&shown, '\u{20d2}'), '\u{338}')),
        _ => (format!("{cmd}{}{input}", sep(&input)), negate(&shown, mark)),
    };
    let t = context(r, letter);
    // Where a single token is expected, the negation needs braces.
    let g = format!("{{{neg}}}");
    let rf = put(&t, &format!("{{{input}}}"));
    let base = conv::local(&k, &rf, block);
    let Some(_) = text(&base) else {
        c.stat("rejected without negation");
        return;
    };
    let Some(mt) = text(&conv::local(&k, &put(&t, &format!("{{{MARK}}}")), block)) else {
        return;
    };
    let f = put(&t, &g);
    let o = conv::local(&k, &f, block);
    match &o {
        Outcome::Panic(_) => return,
        Outcome::Err { .. } => {
            c.viol(&f, "negation rejected", json!({"result": o.short()}));
            return;
        }
        _ => {}
    }
    c.nontrivial(&f);
    let want = marks(&mt.replace(MARK, &want));
    let got = marks(&text(&o).unwrap_or_default());
    c.stat(if want.chars().any(|c| solidus().values().any(|v| *v == c)) { "composed" } else { "mark" });
    if got != want {
        c.viol(&f, "wrong negation", json!({"shown": got, "expected": want, "mathml": o.short()}));
        return;
    }
    if !letter {
        // Everything around stays as it is.
        c.stat("tree compared");
        if shape(&base) != shape(&o) {
            c.viol(&f, "negation changes the formula", json!({"without": base.short(), "with": o.short()}));
        }
    }
    c.sample(|| json!({"input": f, "shown": got}));
}
