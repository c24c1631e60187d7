//! Custom commands: C08 (expansion is substitution), C09 (where a definition is visible) and C10
//! (the expansion limit).
use crate::conv::{self, Cfg, Outcome};
use crate::ctx::Ctx;
use crate::gen_::{Data, Gen, Lay, T, a, layout, w, wild_ws};
use crate::props_core::no_spacing;
use crate::rng::Rng;
use serde_json::json;

pub fn case(d: &Data, prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    match prop {
        "C08" => c08(d, c, r),
        _ => return false,
    }
    true
}

// ------------------------------------------------------------------------------------------ C08

/// What may stand for a parameter, which decides where the parameter may be used.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Any,
    Atom,
    Num,
    Delim,
    Text,
    Color,
    Rel,
    Script,
    Label,
}
const KINDS: &[Kind] = &[Kind::Any, Kind::Any, Kind::Any, Kind::Any, Kind::Atom, Kind::Atom, Kind::Num, Kind::Delim, Kind::Text, Kind::Color, Kind::Rel, Kind::Script];

#[derive(Clone, Debug)]
enum E {
    T(T),
    P(usize),
    Call(usize, Vec<Arg>),
}

#[derive(Clone, Debug)]
struct Arg {
    e: Vec<E>,
    braces: bool,
}

struct Mac {
    name: String,
    kinds: Vec<Kind>,
    body: Vec<E>,
}

const GREEK: &[&str] = &["alpha", "beta", "pi", "Gamma", "infty", "hbar"];
const NAMES: &[&str] = &["qqa", "qqb", "qqc", "Qqd", "qqe", "QQf", "qqg", "qqabc", "nonn", "tagg", "labb", "reff", "fracc", "Alphaa", "lef", "rig", "a", "z", "*", "@", "0", "é"];

fn is_script(t: &T) -> bool {
    match t {
        T::A(s) => s.starts_with(['^', '_', '\'']),
        T::W(s) => s.ends_with("limits"),
        _ => false,
    }
}

fn atom(r: &mut Rng) -> T {
    if r.pct(70) { a(&r.choose(&['a', 'b', 'c', 'x', 'y', 'A', 'R']).to_string()) } else { w(r.pick(GREEK)) }
}

struct G8<'d> {
    g: Gen<'d>,
    macs: Vec<Mac>,
}

impl<'d> G8<'d> {
    fn arg(&self, r: &mut Rng, depth: u32, k: Kind, ps: &[Kind]) -> Arg {
        // pass an own parameter on
        if r.pct(30) {
            let fit: Vec<usize> = (0..ps.len()).filter(|i| ps[*i] == k).collect();
            if !fit.is_empty() {
                let single = !matches!(k, Kind::Any | Kind::Text | Kind::Color | Kind::Script | Kind::Label);
                return Arg { e: vec![E::P(*r.choose(&fit))], braces: !single || r.pct(50) };
            }
        }
        let one = |r: &mut Rng, t: T| Arg { e: vec![E::T(t)], braces: r.pct(50) };
        match k {
            Kind::Any => {
                if r.pct(25) {
                    let t = atom(r);
                    return one(r, t);
                }
                let mut e = Vec::new();
                self.elems(r, depth.saturating_sub(1), ps, &mut e);
                Arg { e, braces: true }
            }
            Kind::Atom => {
                let t = atom(r);
                one(r, t)
            }
            Kind::Num => {
                let t = a(&r.choose(&['0', '1', '2', '3', '9']).to_string());
                one(r, t)
            }
            Kind::Delim => {
                let t = match r.below(3) {
                    0 => a(r.pick(&["|", "/"])),
                    1 => w(r.pick(&["|", "vert", "Vert", "backslash", "uparrow"])),
                    _ => w(r.pick(&["langle", "rangle", "lfloor", "rceil"])),
                };
                // (a control symbol is printed as is)
                let t = match t {
                    T::W(s) if s == "|" => a("\\|"),
                    t => t,
                };
                one(r, t)
            }
            Kind::Text => Arg { e: vec![E::T(a(r.pick(&["a", "if x", "foo bar", "x\\textbf{b}y", "é", "1.5", "\\&y", "{}z", "\\emph{q r} s"])))], braces: true },
            Kind::Color => Arg { e: vec![E::T(a(r.pick(&["red", "blue", "teal"])))], braces: true },
            Kind::Rel => {
                let t = if r.pct(50) { a(r.pick(&["=", "<", ">"])) } else { w(r.pick(&["in", "leq", "subset", "equiv"])) };
                one(r, t)
            }
            Kind::Script => {
                let mut e = vec![E::T(a(r.pick(&["^", "_"])))];
                e.push(E::T(a("{")));
                self.elems(r, depth.saturating_sub(1), ps, &mut e);
                e.push(E::T(a("}")));
                Arg { e, braces: true }
            }
            Kind::Label => Arg { e: vec![E::T(a(r.pick(&["k", "eq:1", "a b"])))], braces: true },
        }
    }

    fn call(&self, r: &mut Rng, depth: u32, ps: &[Kind], o: &mut Vec<E>) -> bool {
        if self.macs.is_empty() {
            return false;
        }
        let i = r.below(self.macs.len());
        let args = self.macs[i].kinds.iter().map(|k| self.arg(r, depth.saturating_sub(1), *k, ps)).collect();
        o.push(E::Call(i, args));
        true
    }

    /// One use of parameter `i` of kind `k`.
    fn param(&self, r: &mut Rng, depth: u32, i: usize, k: Kind, ps: &[Kind], o: &mut Vec<E>) {
        let t = |s: &str| E::T(a(s));
        let c = |s: &str| E::T(w(s));
        let glue = || E::T(T::Glue);
        match k {
            Kind::Any => match r.below(9) {
                0..=2 => o.push(E::P(i)),
                3 => o.extend([t("{"), E::P(i), t("}")]),
                4 => o.extend([c("frac"), t("{"), E::P(i), t("}"), t("{"), E::P(i), t("}")]),
                5 => o.extend([t("x"), t("_"), t("{"), E::P(i), t("}")]),
                6 => o.extend([c("left"), t("("), E::P(i), c("right"), t(")")]),
                7 => o.extend([c("sqrt"), t("["), E::P(i), t("]"), t("{"), E::P(i), t("}")]),
                _ => o.extend([t("\\begin{matrix}"), E::P(i), t("&"), E::P(i), t("\\\\"), t("{}"), t("x"), t("\\end{matrix}")]),
            },
            Kind::Atom => match r.below(8) {
                0 => o.push(E::P(i)),
                1 => o.extend([c("mathbb"), E::P(i)]),
                2 => o.extend([c("mathbf"), t("{"), E::P(i), t("}")]),
                3 => o.extend([c("hat"), E::P(i), t("^"), E::P(i)]),
                4 => o.extend([c("frac"), E::P(i), E::P(i)]),
                5 => o.extend([E::P(i), t("'"), t("_"), E::P(i)]),
                6 => o.extend([c("sqrt"), E::P(i)]),
                _ => o.extend([c("mathrm"), E::P(i)]),
            },
            Kind::Num => match r.below(7) {
                0 => o.extend([c("frac"), E::P(i), t("2")]),
                1 => o.extend([t("x"), t("^"), E::P(i), t("{}")]),
                2 => o.extend([t("{"), E::P(i), t("}"), t("{}")]),
                3 => o.extend([t("\\hspace{"), glue(), E::P(i), glue(), t("em}")]),
                4 => o.extend([c("sqrt"), t("["), E::P(i), t("]"), t("y")]),
                5 => o.extend([c("genfrac"), t("("), t(")"), t("{"), glue(), E::P(i), glue(), t("pt}"), t("{}"), t("{"), E::P(i), t("}"), t("k")]),
                _ => o.extend([c("overset"), E::P(i), t("=")]),
            },
            Kind::Delim => match r.below(4) {
                0 => o.extend([c(r.pick(&["big", "Bigl", "biggm"])), E::P(i)]),
                1 => {
                    o.extend([c("left"), E::P(i)]);
                    self.elems(r, depth.saturating_sub(1), ps, o);
                    o.extend([c("right"), E::P(i)]);
                }
                2 => {
                    o.extend([c("left"), t("("), t("x"), c("middle"), E::P(i)]);
                    self.elems(r, depth.saturating_sub(1), ps, o);
                    o.extend([c("right"), t(".")]);
                }
                _ => o.extend([t("{"), E::P(i), t("}")]),
            },
            Kind::Text => match r.below(4) {
                0 => o.extend([t("\\text{"), glue(), E::P(i), glue(), t("}")]),
                1 => o.extend([t("\\textbf{b "), glue(), E::P(i), glue(), t("  c}")]),
                2 => o.extend([t("\\text{"), glue(), E::P(i), glue(), t(" "), glue(), E::P(i), glue(), t("}")]),
                _ => o.extend([t("\\textit{\\texttt{"), glue(), E::P(i), glue(), t("}z}")]),
            },
            Kind::Color => match r.below(2) {
                0 => {
                    o.extend([t("\\textcolor{"), glue(), E::P(i), glue(), t("}"), t("{")]);
                    self.elems(r, depth.saturating_sub(1), ps, o);
                    o.push(t("}"));
                }
                _ => {
                    o.extend([t("{"), t("\\color{"), glue(), E::P(i), glue(), t("}")]);
                    self.elems(r, depth.saturating_sub(1), ps, o);
                    o.push(t("}"));
                }
            },
            Kind::Rel => match r.below(4) {
                0 => o.push(E::P(i)),
                1 => o.extend([c("not"), E::P(i)]),
                2 => o.extend([t("x"), E::P(i), t("y")]),
                _ => o.extend([c("overset"), t("{"), t("a"), t("}"), t("{"), E::P(i), t("}")]),
            },
            Kind::Script => match r.below(2) {
                0 => o.extend([t("x"), E::P(i)]),
                _ => o.extend([c("sum"), E::P(i)]),
            },
            Kind::Label => {}
        }
    }

    /// A command which is a piece of syntax.
    fn elems(&self, r: &mut Rng, depth: u32, ps: &[Kind], o: &mut Vec<E>) {
        let n = 1 + r.below(if depth >= 2 { 4 } else { 2 });
        for _ in 0..n {
            match r.below(10) {
                0..=2 if !ps.is_empty() => {
                    let i = r.below(ps.len());
                    self.param(r, depth, i, ps[i], ps, o);
                }
                3..=5 if depth > 0 => {
                    if !self.call(r, depth, ps, o) {
                        o.push(E::T(atom(r)));
                    }
                }
                _ => self.item(r, depth, ps, o),
            }
        }
    }

    /// An item of the general generator, with some of its arguments replaced.
    fn item(&self, r: &mut Rng, depth: u32, ps: &[Kind], o: &mut Vec<E>) {
        let mut t = Vec::new();
        self.g.item(r, depth.min(2), &mut t);
        let fonts = t.iter().any(|x| match x {
            T::W(s) => {
                matches!(s.as_str(), "rm" | "bf" | "it" | "cal" | "sf" | "tt") || s.starts_with("math") || s == "bm" || s == "boldsymbol"
            }
            _ => false,
        });
        let mut i = 0;
        while i < t.len() {
            if t[i] == T::Ob && t.get(i + 2) == Some(&T::Cb) && !fonts && depth > 0 && r.pct(30) {
                o.push(E::T(a("{")));
                self.elems(r, depth - 1, ps, o);
                o.push(E::T(a("}")));
                i += 3;
                continue;
            }
            // digits in a row would be one number, which a custom command in between divides
            let digit = matches!(&t[i], T::A(s) if s.len() == 1 && s.as_bytes()[0].is_ascii_digit());
            if digit && (i == 0 || t[i - 1] != T::Ob) {
                o.push(E::T(a("n")));
            } else {
                o.push(E::T(t[i].clone()));
            }
            i += 1;
        }
    }

    fn source(&self, e: &[E], r: &mut Rng, o: &mut Vec<T>) {
        for x in e {
            match x {
                E::T(t) => o.push(t.clone()),
                E::P(i) => o.push(a(&format!("#{}", i + 1))),
                E::Call(m, args) => {
                    let n = &self.macs[*m].name;
                    o.push(if n.bytes().all(|b| b.is_ascii_alphabetic()) { w(n) } else { a(&format!("\\{n}")) });
                    for x in args {
                        if x.braces {
                            o.push(a("{"));
                            o.push(T::Glue);
                        }
                        self.source(&x.e, r, o);
                        if x.braces {
                            o.push(T::Glue);
                            o.push(a("}"));
                        }
                    }
                }
            }
        }
    }

    /// The oracle: substitution on paper.
    fn expand(&self, e: &[E], args: &[Vec<T>], o: &mut Vec<T>, calls: &mut u64, behind_param: &mut bool) {
        for x in e {
            match x {
                E::T(t) => o.push(t.clone()),
                E::P(i) => o.extend(args[*i].iter().cloned()),
                E::Call(m, xs) => {
                    *calls += 1;
                    let sub: Vec<Vec<T>> = xs
                        .iter()
                        .map(|x| {
                            let mut v = Vec::new();
                            self.expand(&x.e, args, &mut v, calls, behind_param);
                            v
                        })
                        .collect();
                    let n = o.len();
                    self.expand(&self.macs[*m].body, &sub, o, calls, behind_param);
                    if o.get(n).is_some_and(is_script) {
                        // `\newcommand\foo[1]{#1}x\foo{^2}`
                        let mut b = *m;
                        loop {
                            match self.macs[b].body.first() {
                                Some(E::Call(k, _)) => b = *k,
                                Some(E::P(_)) => {
                                    *behind_param = true;
                                    break;
                                }
                                _ => break,
                            }
                        }
                    }
                }
            }
            if o.len() > 4000 {
                return;
            }
        }
    }
}

/// Whether the space before the command is known from the first symbol of its body alone: the class of a
/// custom command is documented to be fixed when it is defined.
fn class_known(g: &G8, config: bool, m: usize) -> bool {
    const VAGUE: &[&str] = &["quad", "qquad", "thinspace", "enspace", "mathchoice", "displaystyle", "limits", "nolimits", "displaylimits", "dots", "implies", "iff", "not"];
    match g.macs[m].body.first() {
        Some(E::T(T::W(s))) => !VAGUE.contains(&s.as_str()),
        Some(E::T(T::A(s))) => s.chars().count() == 1 || s.starts_with("\\begin{"),
        Some(E::Call(k, _)) => !config && class_known(g, config, *k),
        _ => false,
    }
}

fn all_calls(g: &G8, e: &[E], f: &mut impl FnMut(usize)) {
    for x in e {
        if let E::Call(m, xs) = x {
            f(*m);
            all_calls(g, &g.macs[*m].body, f);
            for x in xs {
                all_calls(g, &x.e, f);
            }
        }
    }
}

fn calls_only(e: &[E], ok: &[usize]) -> bool {
    e.iter().all(|x| match x {
        E::Call(m, xs) => ok.contains(m) && xs.iter().all(|x| calls_only(&x.e, ok)),
        _ => true,
    })
}

fn uses(e: &[E], i: usize) -> bool {
    e.iter().any(|x| match x {
        E::P(j) => *j == i,
        E::Call(_, xs) => xs.iter().any(|x| uses(&x.e, i)),
        _ => false,
    })
}

/// Fixed pairs: a formula with custom commands, and the formula it means.
const PAIRS: &[(&str, &str)] = &[
    ("\\def\\a{^2}x\\a", "x^2"),
    ("\\def\\a{^2}x'\\a", "x'^2"),
    ("\\def\\a{'}x\\a\\a_2", "x''_2"),
    ("\\def\\a{_2}\\def\\b{\\a^3}x\\b", "x_2^3"),
    ("\\def\\a{\\limits_2}\\int\\a", "\\int\\limits_2"),
    ("\\def\\a{\\limits}\\sum\\a_2", "\\sum\\limits_2"),
    ("\\def\\a{_2}\\sum\\a", "\\sum_2"),
    ("\\def\\a{_2}\\underbrace{x}\\a", "\\underbrace{x}_2"),
    ("\\def\\a{^2}\\overbrace{x}\\a", "\\overbrace{x}^2"),
    ("\\newcommand\\inv{^{-1}}A\\inv B", "A^{-1}B"),
    ("\\def\\a#1{#1=}x=\\a{y}", "x=y="),
    ("\\def\\a#1{#1,}x+\\a{y}", "x+y,"),
    ("\\def\\a#1{#1+}x\\a{y}z", "xy+z"),
    ("\\def\\a#1{#1-}\\sum\\a=b", "\\sum=-b"),
    ("\\def\\a#1{#1-}x=\\a=b", "x==-b"),
    ("\\def\\a#1{#1=}x+\\a yb", "x+y=b"),
    ("\\newcommand\\a[1]{#1(}x+\\a=b", "x+=(b"),
    ("\\newcommand\\a[2]{#1#2)}x+\\a,=b", "x+,=)b"),
    ("\\newcommand\\a[1]{=#1}x+\\a yb", "x+=yb"),
    ("\\newcommand\\a[1]{x=#1}\\sum\\a yb", "\\sum x=yb"),
    ("\\newcommand\\a[1]{\\quad=#1}x+\\a yb", "x+\\quad=yb"),
    ("\\def\\a{\\bf}{\\a x}y", "{\\bf x}y"),
    ("\\def\\a{\\color{red}}{\\a x}y", "{\\color{red}x}y"),
    ("\\def\\a{\\displaystyle}{\\a x}y", "{\\displaystyle x}y"),
    ("\\def\\a{\\over}{x\\a y}z", "{x\\over y}z"),
    ("\\def\\a{&}\\begin{matrix}x\\a y\\end{matrix}", "\\begin{matrix}x&y\\end{matrix}"),
    ("\\def\\a{\\\\}\\begin{matrix}x\\a y\\end{matrix}", "\\begin{matrix}x\\\\ y\\end{matrix}"),
    ("\\def\\a{\\nonumber}\\begin{align}x\\a\\\\ y\\end{align}", "\\begin{align}x\\nonumber\\\\ y\\end{align}"),
    ("\\def\\a{\\hline}\\begin{array}{c}x\\\\\\a y\\end{array}", "\\begin{array}{c}x\\\\\\hline y\\end{array}"),
    ("\\def\\a{\\left(}\\a x\\right)", "\\left(x\\right)"),
    ("\\def\\a{\\right)}\\left(x\\a", "\\left(x\\right)"),
    ("\\def\\a{\\middle|}\\left(x\\a y\\right)", "\\left(x\\middle|y\\right)"),
    ("\\def\\a#1#2#3#4#5#6#7#8#9{#9#8#7#6#5#4#3#2#1}\\a bcdefghij", "jihgfedcb"),
    ("\\def\\a#1{#1#1}\\def\\b#1{\\a{\\a{#1}}}\\b{xy}", "xyxyxyxy"),
    ("\\def\\a#1#2{\\frac{#1}{#2}}\\def\\b{\\a x}\\b y", "\\frac{x}{y}"),
    ("\\def\\a#1{\\text{#1}}\\a{b  c}", "\\text{b  c}"),
    ("\\def\\a#1{\\begin{array}{#1}x&y\\end{array}}\\a{l|r}", "\\begin{array}{l|r}x&y\\end{array}"),
    ("\\def\\a#1{\\operatorname{#1}}\\a{foo}x", "\\operatorname{foo}x"),
    ("\\def\\a#1{\\begin{align}x\\tag{#1}\\end{align}}\\a{k}", "\\begin{align}x\\tag{k}\\end{align}"),
    ("\\def\\a{\\not}x\\a=y", "x\\not=y"),
    ("\\def\\a{(}\\def\\b{\\a}\\left\\b x\\middle\\a y\\right)", "\\left(x\\middle(y\\right)"),
    ("\\def\\a{\\rangle}\\big\\a\\left.x\\right\\a", "\\big\\rangle\\left.x\\right\\rangle"),
    ("\\def\\a#1{\\hdashline#1}\\begin{matrix}\\a x\\\\\\a y\\end{matrix}", "\\begin{matrix}\\hdashline x\\\\\\hdashline y\\end{matrix}"),
    ("\\let\\a\\frac\\a xy", "\\frac xy"),
    ("\\let\\a=\\in x\\a y", "x\\in y"),
    ("\\let\\a+x\\a y", "x+y"),
    ("\\let\\a\\left\\let\\b\\right\\a(x\\b)", "\\left(x\\right)"),
];

/// The same with the command configured: its name and body.
const CONFIG_PAIRS: &[(&str, &str, &str, &str)] = &[
    ("a", "#1-", "\\sum\\a=b", "\\sum=-b"),
    ("a", "#1-", "x=\\a=b", "x==-b"),
    ("a", "#1=", "x+\\a yb", "x+y=b"),
    ("a", "#1\\in", "x+\\a yb", "x+y\\in b"),
    ("a", "#1\\in", "x+\\a=b", "x+=\\in b"),
    ("a", "=#1", "x+\\a yb", "x+=yb"),
    ("a", "\\in#1", "x+\\a yb", "x+\\in yb"),
    ("a", "x=#1", "\\sum\\a yb", "\\sum x=yb"),
    ("a", "x\\in#1", "\\sum\\a yb", "\\sum x\\in yb"),
    ("a", "\\quad=#1", "x+\\a yb", "x+\\quad=yb"),
    ("a", "\\quad\\in", "x+\\a yb", "x+\\quad\\in yb"),
    ("a", "\\rangle", "x+\\a yb", "x+\\rangle yb"),
    ("a", "\\log", "x\\a yb", "x\\log yb"),
];

pub fn probes(c: &mut Ctx) {
    for (name, body, s, w) in CONFIG_PAIRS {
        for block in [false, true] {
            let mut cfg = Cfg { max_exp: Some(10), ..Cfg::default() };
            let want = conv::local(&cfg.conv(), w, block);
            cfg.macros.push((name.to_string(), body.to_string()));
            let got = conv::local(&cfg.conv(), s, block);
            if got != want {
                c.viol(&format!("{name}={body}: {s}"), "a configured command does not mean its body", json!({"expanded": want.short(), "got": got.short()}));
            }
            c.stat("fixed pairs");
        }
    }
    for (s, w) in PAIRS {
        for block in [false, true] {
            let k = Cfg { max_exp: Some(10), ..Cfg::default() }.conv();
            let (got, want) = (conv::local(&k, s, block), conv::local(&k, w, block));
            if !want.is_ok() {
                c.viol(w, "a fixed formula is rejected", json!({"result": want.short()}));
            } else if got != want {
                c.viol(s, "a custom command does not mean its body", json!({"expanded": want.short(), "got": got.short()}));
            }
            c.stat("fixed pairs");
        }
    }
}

fn c08(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let mut g = G8 { g: Gen { d }, macs: vec![] };
    let mut names: Vec<&str> = NAMES.to_vec();
    r.shuffle(&mut names);
    for k in 0..(1 + r.below(4)) {
        let np = r.below(4);
        let kinds: Vec<Kind> = (0..np).map(|_| *r.choose(KINDS)).collect();
        let mut body = Vec::new();
        match r.below(12) {
            0 => {
                // a body which begins with a script
                body.push(E::T(a(r.pick(&["^", "_"]))));
                body.push(E::T(a("{")));
                g.elems(r, 1, &kinds, &mut body);
                body.push(E::T(a("}")));
            }
            1 => body.push(E::T(a(r.pick(&["'", "''", "+", "=", "<", ",", "!", "-"])))),
            _ => {
                let depth = 1 + r.below(2) as u32;
                g.elems(r, depth, &kinds, &mut body)
            }
        }
        g.macs.push(Mac { name: names[k].into(), kinds, body });
    }
    let mut top = Vec::new();
    g.elems(r, 3, &[], &mut top);
    if !top.iter().any(|e| matches!(e, E::Call(..))) {
        let mut v = Vec::new();
        g.call(r, 2, &[], &mut v);
        let at = r.below(top.len() + 1);
        // (not into the middle of an item)
        let at = if at < top.len() { top.len() } else { at };
        top.splice(at..at, v);
    }
    let mut calls = 0;
    let mut flat = Vec::new();
    let mut behind_param = false;
    g.expand(&top, &[], &mut flat, &mut calls, &mut behind_param);
    if behind_param {
        c.stat("left out: a script in an argument at the start of a body");
        return;
    }
    if flat.len() > 3000 {
        c.stat("too long");
        return;
    }
    let base = layout(&flat, Lay::Min, r);
    let mut cfg = Cfg::random(r);
    cfg.annotation = false;
    cfg.max_exp = None;
    let block = r.pct(50);
    let want = conv::local(&cfg.conv(), &base, block);
    if !want.is_ok() {
        c.stat("expanded formula invalid");
        c.stat(&format!("invalid: {}", want.err_kind().unwrap_or_default()));
        return;
    }
    // definitions
    let mut in_order = true;
    let mut before: Vec<String> = Vec::new(); // other formulas
    let mut pre: Vec<String> = Vec::new();
    let mode = r.below(4); // 0 all in config, 1/2 in the formula, 3 mixed
    cfg.global_group = r.pct(30);
    let mut order: Vec<usize> = (0..g.macs.len()).collect();
    if r.pct(20) {
        r.shuffle(&mut order);
        in_order = order.windows(2).all(|w| w[0] < w[1]);
    }
    let mut in_config: Vec<usize> = vec![];
    if mode == 0 || mode == 3 {
        // the configuration cannot use commands which are only defined in formulas
        for i in 0..g.macs.len() {
            let n = g.macs[i].kinds.len();
            let infer = n == 0 || uses(&g.macs[i].body, n - 1);
            if infer && (mode == 0 || r.pct(50)) && calls_only(&g.macs[i].body, &in_config) {
                in_config.push(i);
            }
        }
    }
    let prime = g.macs.iter().any(|m| matches!(m.body.first(), Some(E::T(t)) if is_script(t)));
    // primes are not to be separated by whitespace
    let lays: &[Lay] = if prime { &[Lay::Min] } else { &[Lay::Min, Lay::Min, Lay::Spaced, Lay::Wild] };
    let mut placed: Vec<(usize, usize)> = Vec::new(); // when which command is defined
    for &i in &order {
        let m = &g.macs[i];
        let mut src = Vec::new();
        g.source(&m.body, r, &mut src);
        let lay = *r.choose(lays);
        let body = layout(&src, lay, r);
        let n = m.kinds.len();
        let name = format!("\\{}", m.name);
        let how = if in_config.contains(&i) { 0 } else { 1 + r.below(8) };
        if how == 0 {
            cfg.macros.push((m.name.clone(), body));
            c.stat("defined in the configuration");
            continue;
        }
        let opt = if n > 0 || r.pct(10) { format!("[{n}]") } else { String::new() };
        let params: String = (1..=n).map(|k| format!("#{k}")).collect();
        let s = match how {
            1 => format!("\\newcommand{{{name}}}{opt}{{{body}}}"),
            2 => format!("\\newcommand{name} {opt} {{{body}}}"),
            3 => format!("\\providecommand{name}{opt}{{{body}}}"),
            4 => format!("\\newcommand{name}{{wrong}}\\renewcommand{{{name}}}{opt}{{{body}}}"),
            5 => format!("\\gdef{name}{params}{{{body}}}"),
            6 => format!("\\global\\def{name} {params}{{{body}}}"),
            7 => format!("\\def\\tempname{params}{{{body}}}\\let{name}{}\\tempname\\def\\tempname{{wrong}}", r.pick(&["", "=", " = "])),
            _ => format!("\\def{name}{params}{{{body}}}"),
        };
        c.stat(["newcommand", "newcommand", "newcommand", "providecommand", "renewcommand", "gdef", "global def", "let", "def"][how]);
        let s = if r.pct(20) && !prime { s + &wild_ws(r) } else { s };
        let outlives = cfg.global_group || how == 5 || how == 6;
        if outlives && r.pct(40) {
            placed.push((before.len(), i));
            before.push(s)
        } else {
            placed.push((100 + pre.len(), i));
            pre.push(s)
        }
    }
    placed.sort();
    in_order &= placed.windows(2).all(|w| w[0].1 < w[1].1);
    if cfg.macros.len() > 1 && r.pct(30) {
        r.shuffle(&mut cfg.macros);
        in_order = false;
    }
    let mut src = Vec::new();
    g.source(&top, r, &mut src);
    let lay = *r.choose(lays);
    let f = pre.concat() + &layout(&src, lay, r);
    cfg.max_exp = Some(100_000);
    let key = format!("{base:?} | {before:?} | {f:?} | {}", cfg.json());
    let mut k = match conv::guarded(|| math_core::LatexToMathML::new(cfg.build())) {
        Ok(Ok(k)) => k,
        Ok(Err(e)) => {
            c.viol(&key, "the configuration with the custom commands is rejected", json!({"error": e.0.error_message(), "in": e.2}));
            return;
        }
        Err(p) => {
            c.viol(&key, "creating the converter panics", json!({"panic": p}));
            return;
        }
    };
    c.nontrivial(&key);
    c.add("expansions", calls);
    c.max("most expansions in one formula", calls);
    let got = if before.is_empty() {
        conv::local(&k, &f, block)
    } else {
        c.stat("defined in an earlier formula");
        for b in &before {
            let o = conv::global(&mut k, b, false);
            if !o.is_ok() {
                c.viol(&key, "a formula which only defines commands fails", json!({"formula": b, "result": o.short()}));
                return;
            }
        }
        conv::global(&mut k, &f, block)
    };
    if got == want {
        c.stat("equal");
        if calls > 2 {
            c.sample(|| json!({"with commands": f, "expanded": base}));
        }
        return;
    }
    let mut exact = in_order;
    all_calls(&g, &top, &mut |m| exact &= class_known(&g, !cfg.macros.is_empty(), m));
    // (whether `\dots` is centred depends on the class of what follows)
    let plain = |o: &Outcome| no_spacing(o).replace('·', ".").replace('⋯', "…");
    if !exact && got.is_ok() && plain(&got) == plain(&want) {
        c.stat("equal up to spacing (class of a command not known when it is defined)");
        return;
    }
    c.viol(&key, "a custom command does not mean its body", json!({"expanded": want.short(), "got": got.short(), "macros": cfg.macros}));
}
