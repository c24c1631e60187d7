//! C22: lengths.
//!
//! A formula is generated together with the lengths it asks for. The lengths in the output, in
//! document order, have to be these, in the units of the output.
use crate::conv::{self, Cfg, Outcome};
use crate::ctx::Ctx;
use crate::gen_::wild_ws;
use crate::rng::Rng;
use crate::xml::{self, El};
use serde_json::json;

pub fn case(prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    if prop != "C22" {
        return false;
    }
    c22(c, r);
    true
}

/// A TeX unit: its size in the unit of the output, how exact that is.
const UNITS: &[(&str, f64, &str, f64)] = &[
    ("pt", 0.1, "rem", 3e-7),
    // 2.54 cm = 1 in = 72.27 pt
    ("in", 7.227, "rem", 3e-7),
    ("cm", 7.227 / 2.54, "rem", 2e-5),
    ("mm", 0.7227 / 2.54, "rem", 2e-5),
    ("sp", 0.1 / 65536.0, "rem", 3e-7),
    ("em", 1.0, "em", 3e-7),
    ("ex", 1.0, "ex", 3e-7),
    ("mu", 1.0 / 18.0, "em", 3e-7),
];

const FIXED: &[(&str, f64)] = &[
    ("\\,", 3.0),
    ("\\:", 4.0),
    ("\\>", 4.0),
    ("\\;", 5.0),
    ("\\!", -3.0),
    ("\\thinspace ", 3.0),
    ("\\medspace ", 4.0),
    ("\\thickspace ", 5.0),
    ("\\negthinspace ", -3.0),
    ("\\negmedspace ", -4.0),
    ("\\negthickspace ", -5.0),
    ("\\enspace ", 9.0),
    ("\\quad ", 18.0),
    ("\\qquad ", 36.0),
];

#[derive(Clone, Debug)]
struct Len {
    /// "space", "line", "raise"
    what: &'static str,
    /// rem, em, ex: value and allowed error
    val: [(f64, f64); 3],
}

impl Len {
    fn one(what: &'static str, v: f64, unit: &str, tol: f64) -> Len {
        let mut val = [(0.0, 0.0); 3];
        val[slot(unit)] = (v, v.abs() * tol);
        Len { what, val }
    }
}

fn slot(unit: &str) -> usize {
    ["rem", "em", "ex"].iter().position(|u| *u == unit).unwrap()
}

#[derive(Default)]
struct B {
    s: String,
    defs: String,
    n: u32,
    exp: Vec<Len>,
    /// must be rejected
    bad: bool,
    /// may be rejected
    maybe: bool,
}

/// A number without its sign: digits as text, and whether more than 19 digits are needed.
fn number(r: &mut Rng, point: &str) -> (String, bool) {
    let mut s = String::new();
    let digits = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect() };
    match r.below(12) {
        0 => s.push_str(r.pick(&["0", "1", "2", "10", "18", "100", "72", "007", "000", "65536", "99999999", "16777217", "4294967296"])),
        1 => s.push_str(r.pick(&["18446744073709551615", "18446744073709551616", "9999999999999999999", "10000000000000000000", "9223372036854775808"])),
        2 => {
            let n = r.below(26);
            s = digits(r, n);
        }
        3..=6 => {
            let n = 1 + r.below(3);
            s = digits(r, n);
        }
        7 => {
            s = "0".repeat(r.below(4));
        }
        _ => {
            let n = r.below(6);
            s = digits(r, n);
        }
    }
    if s.is_empty() || r.pct(55) {
        s.push_str(point);
        match r.below(8) {
            0 if s.len() > 1 => {}
            1 => {
                s.push_str(&"0".repeat(r.below(21)));
                let n = 1 + r.below(3);
                s += &digits(r, n);
            }
            2 => {
                let n = 1 + r.below(24);
                s += &digits(r, n)
            }
            _ => {
                let n = 1 + r.below(4);
                s += &digits(r, n)
            }
        }
    }
    let sig: String = s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().trim_start_matches('0').into();
    let n = sig.len();
    (s, n > 19)
}

fn case_of(u: &str, r: &mut Rng) -> String {
    match r.below(8) {
        0 => u.to_uppercase(),
        1 => format!("{}{}", u[..1].to_uppercase(), &u[1..]),
        2 => format!("{}{}", &u[..1], u[1..].to_uppercase()),
        _ => u.into(),
    }
}

impl B {
    /// A length, as text, its value, its unit.
    fn length(&mut self, r: &mut Rng, math: bool, kern: bool) -> (String, f64, &'static (&'static str, f64, &'static str, f64)) {
        let u = if math { &UNITS[7] } else { &UNITS[r.below(7)] };
        let comma = kern && r.pct(20);
        let (n, long) = number(r, if comma { "," } else { "." });
        self.maybe |= long;
        let v: f64 = n.replace(',', ".").parse().unwrap();
        let (sign, v) = match r.below(if kern { 12 } else { 10 }) {
            0..=2 => ("-", -v),
            10 => ("+", v),
            _ => ("", v),
        };
        let sp = |r: &mut Rng| r.pick(&["", "", "", "", " ", "  "]).to_string();
        let unit = case_of(u.0, r);
        let s = if kern {
            // comments are fine, too
            let ws = |r: &mut Rng| if r.pct(20) { wild_ws(r) } else { String::new() };
            format!("{}{sign}{}{n}{}{unit}", ws(r), ws(r), ws(r))
        } else {
            format!("{}{sign}{n}{}{unit}{}", sp(r), sp(r), sp(r))
        };
        (s, v, u)
    }

    fn mistake(&mut self, r: &mut Rng, math: bool, kern: bool) -> String {
        self.bad = true;
        let u = if math { "mu" } else { UNITS[r.below(7)].0 };
        let (n, _) = number(r, ".");
        let whole = n.trim_end_matches('.').replace('.', "");
        match r.below(if kern { 8 } else { 11 }) {
            // the wrong kind of unit
            0 | 1 => format!("{n}{}", if math { UNITS[r.below(7)].0 } else { "mu" }),
            2 => format!("{whole}.{whole}.{u}"),
            3 => u.into(),
            4 => format!("{n}{}", r.pick(&["px", "pc", "xx", "bp", "dd", "p", "m", "cmm", "e3pt"][..if kern { 5 } else { 9 }])),
            5 => format!("{whole} 1{u}"),
            6 => format!("-{u}"),
            7 => format!(".{u}"),
            8 => "".into(),
            9 => n,
            _ => format!("{n}{u}{}", r.pick(&["1", "x", "!", " 2pt"])),
        }
    }

    fn name(&mut self) -> String {
        self.n += 1;
        format!("\\zz{}", (b'a' + (self.n % 26) as u8) as char).repeat(1) + &"q".repeat((self.n / 26) as usize)
    }

    fn def(&mut self, r: &mut Rng, name: &str, args: usize, body: &str) {
        if r.pct(50) {
            let a: String = (1..=args).map(|i| format!("#{i}")).collect();
            self.defs += &format!("\\def{name}{a}{{{body}}}");
        } else {
            let a = if args > 0 { format!("[{args}]") } else { String::new() };
            self.defs += &format!("\\newcommand{name}{a}{{{body}}}");
        }
    }

    fn atom(&mut self, r: &mut Rng) {
        self.s.push_str(r.pick(&["x", "+", "7", "\\alpha ", "=", "(", "a^2", "\\sum ", "{}", " ", ";"]));
    }

    fn space(&mut self, r: &mut Rng) {
        let math = r.pct(40);
        let wrong = r.pct(3);
        if r.pct(50) {
            // \kern: no braces
            let cmd = *r.choose(if math { &["mkern", "mskip"] } else { &["kern", "hskip"] });
            if wrong {
                let m = self.mistake(r, math, true);
                self.s += &format!("\\{cmd} {m} {{}}");
                return;
            }
            let (l, v, u) = self.length(r, math, true);
            match r.below(8) {
                0 => {
                    // the length comes from a custom command
                    let n = self.name();
                    self.def(r, &n, 0, &l);
                    self.s += &format!("\\{cmd}{n} ");
                }
                1 => {
                    let n = self.name();
                    self.def(r, &n, 1, &format!("\\{cmd} #1"));
                    self.s += &format!("{n}{{{l}}}");
                }
                2 => {
                    // only the number
                    let unit = case_of(u.0, r);
                    let k = l.trim_end_matches(|c: char| c.is_ascii_alphabetic());
                    let n = self.name();
                    self.def(r, &n, 1, &format!("\\{cmd} #1{unit}"));
                    self.s += &format!("{n}{{{k}}}");
                }
                _ => {
                    self.s += &format!("\\{cmd}{}{l}", if l.starts_with(|c: char| c.is_ascii_alphabetic()) { " " } else { "" });
                    // the unit ends the length
                    self.s.push_str(r.pick(&["", "", " ", "{}"]));
                }
            }
            self.exp.push(Len::one("space", v * u.1, u.2, u.3));
        } else {
            let cmd = if math { "mspace" } else { "hspace" };
            if wrong {
                let m = self.mistake(r, math, false);
                self.s += &format!("\\{cmd}{{{m}}}");
                return;
            }
            let (l, v, u) = self.length(r, math, false);
            match r.below(8) {
                0 => {
                    let n = self.name();
                    self.def(r, &n, 0, &l);
                    self.s += &if r.pct(50) { format!("\\{cmd}{{{n}}}") } else { format!("\\{cmd}{n} ") };
                }
                1 => {
                    let n = self.name();
                    self.def(r, &n, 1, &format!("\\{cmd}{{#1}}"));
                    self.s += &format!("{n}{{{l}}}");
                }
                2 => {
                    let k = l.trim_end();
                    let n = self.name();
                    self.def(r, &n, 1, &format!("\\{cmd}{{#1{}}}", &k[k.len() - 2..]));
                    self.s += &format!("{n}{{{}}}", &k[..k.len() - 2]);
                }
                _ => self.s += &format!("\\{cmd}{{{l}}}"),
            }
            self.exp.push(Len::one("space", v * u.1, u.2, u.3));
        }
    }

    fn text(&mut self, r: &mut Rng, depth: u32, up: &Len) {
        // \raisebox, with more of them inside
        if r.pct(2) {
            let m = self.mistake(r, false, false);
            self.s += &format!("\\raisebox{{{m}}}{{x}}");
            return;
        }
        let (l, v, u) = self.length(r, false, false);
        let mut up = up.clone();
        let k = &mut up.val[slot(u.2)];
        k.0 += v * u.1;
        // sums are made with the precision of the numbers in them
        k.1 += (v * u.1).abs() * (u.3 + 3e-7);
        self.s += &format!("\\raisebox{{{l}}}{{");
        if depth > 0 && r.pct(40) {
            self.text(r, depth - 1, &up);
        } else {
            self.s.push('T');
            self.exp.push(up);
        }
        self.s.push('}');
    }

    fn piece(&mut self, r: &mut Rng, depth: u32) {
        match r.below(20) {
            0..=6 => self.space(r),
            7..=9 => {
                let (s, v) = *r.choose(FIXED);
                self.s.push_str(s);
                self.exp.push(Len::one("space", v / 18.0, "em", 3e-7));
            }
            10 | 11 => {
                let no = Len { what: "raise", val: [(0.0, 0.0); 3] };
                if r.pct(30) {
                    self.s += "\\text{";
                    self.text(r, 2, &no);
                    self.s += "}";
                } else {
                    self.text(r, 2, &no)
                }
            }
            12..=14 => {
                let (l, style) = (r.pick(&["", "(", "["]), r.pick(&["", "0", "1", "2", "3"]));
                let right = match l {
                    "" => "",
                    "(" => ")",
                    _ => "]",
                };
                let math = r.pct(10);
                if r.pct(3) {
                    let m = self.mistake(r, false, false);
                    if m.is_empty() || m.to_ascii_lowercase().ends_with("mu") {
                        self.maybe = true;
                        self.bad = false;
                        return;
                    }
                    self.s += &format!("\\genfrac{{{l}}}{{{right}}}{{{m}}}{{{style}}}{{a}}{{b}}");
                    return;
                }
                let (t, v, u) = self.length(r, math, false);
                self.maybe |= math;
                self.s += &format!("\\genfrac{{{l}}}{{{right}}}{{{t}}}{{{style}}}");
                self.exp.push(Len::one("line", v * u.1, u.2, u.3));
                for _ in 0..2 {
                    self.s.push('{');
                    if depth > 0 {
                        self.seq(r, depth - 1);
                    }
                    self.s.push('}');
                }
            }
            15 | 16 if depth > 0 => {
                let (o, x) = *r.choose(&[("x_{", "}"), ("\\frac{", "}{2}"), ("\\begin{matrix}a&", "\\\\b\\end{matrix}"), ("\\sqrt{", "}"), ("{", "}"), ("\\left(", "\\right)"), ("\\mathbf{", "}"), ("\\overbrace{", "}"), ("{\\displaystyle ", "}"), ("\\mathbin{", "}")]);
                self.s += o;
                self.seq(r, depth - 1);
                self.s += x;
            }
            _ => self.atom(r),
        }
    }

    fn seq(&mut self, r: &mut Rng, depth: u32) {
        for _ in 0..(1 + r.below(3)) {
            self.piece(r, depth);
        }
    }
}

fn css(s: &str) -> Result<(f64, usize), String> {
    let t = s.strip_prefix('-').unwrap_or(s);
    let e = t.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(t.len());
    let ok = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit());
    let num = &t[..e];
    if !match num.split_once('.') {
        Some((a, b)) => (a.is_empty() || ok(a)) && ok(b),
        None => ok(num),
    } {
        return Err(format!("not a CSS number: {s}"));
    }
    let mut end = e;
    let rest = &t[e..];
    if let Some(x) = rest.strip_prefix('e') {
        let d = x.trim_start_matches(['-', '+']);
        let n = d.bytes().take_while(|b| b.is_ascii_digit()).count();
        if n > 0 && x.len() - d.len() <= 1 {
            end = e + 1 + (x.len() - d.len()) + n;
        }
    }
    let v: f64 = s[..s.len() - t.len() + end].parse().map_err(|_| format!("not a number: {s}"))?;
    Ok((v, match &t[end..] {
        "" if v == 0.0 => 0,
        u => ["rem", "em", "ex"].iter().position(|x| *x == u).ok_or(format!("no unit of CSS: {s}"))?,
    }))
}

fn read(e: &El, up: [f64; 3], out: &mut Vec<(&'static str, [f64; 3])>) -> Result<(), String> {
    let mut up = up;
    let single = |s: &str| -> Result<[f64; 3], String> {
        let (v, u) = css(s)?;
        let mut a = [0.0; 3];
        a[u] = v;
        Ok(a)
    };
    match e.name.as_str() {
        // part of a run of letters
        "mspace" if e.attrs.is_empty() => {}
        "mspace" => {
            let v = match (e.attr("width"), e.attr("style")) {
                (Some(w), None) => single(w)?,
                (Some(w), Some(s)) => {
                    if s.strip_prefix("width:") != Some(w) {
                        return Err(format!("width {w} and style {s} of mspace"));
                    }
                    single(w)?
                }
                (None, Some(s)) => {
                    let s = s.strip_prefix("margin-left:").and_then(|s| s.strip_suffix(';')).ok_or(format!("style {s} of mspace"))?;
                    let v = single(s)?;
                    if v.iter().any(|x| *x > 0.0) {
                        return Err("positive margin of mspace".into());
                    }
                    v
                }
                _ => return Err("mspace without width".into()),
            };
            if e.attr("width").is_some() && v.iter().any(|x| *x < 0.0) {
                return Err("negative width".into());
            }
            out.push(("space", v));
        }
        "mfrac" => {
            if let Some(l) = e.attr("linethickness") {
                out.push(("line", single(l)?));
            }
        }
        "mpadded" => {
            if let Some(v) = e.attr("voffset") {
                let v = single(v)?;
                (0..3).for_each(|i| up[i] += v[i]);
            }
        }
        "mtext" if e.text().contains('T') => out.push(("raise", up)),
        _ => {}
    }
    e.els().iter().try_for_each(|k| read(k, up, out))
}

fn c22(c: &mut Ctx, r: &mut Rng) {
    let mut b = B::default();
    b.seq(r, 2);
    let s = format!("{}{}", b.defs, b.s);
    let mut cfg = Cfg::random(r);
    cfg.macros.clear();
    cfg.max_exp = None;
    cfg.annotation = false;
    let block = r.pct(50);
    let key = format!("{s:?}|{block}|{}", cfg.json());
    if !b.exp.is_empty() {
        c.nontrivial(&key);
    }
    c.sample(|| json!({"input": s, "lengths": b.exp.len()}));
    let res = conv::local(&cfg.conv(), &s, block);
    match &res {
        Outcome::Ok { mathml, .. } => {
            if b.bad {
                c.viol(&key, "an impossible length is accepted", json!({"input": s, "output": mathml}));
                return;
            }
            let mut got = Vec::new();
            if let Err(e) = xml::parse(mathml).map_err(|e| format!("{e:?}")).and_then(|t| read(&t, [0.0; 3], &mut got)) {
                c.viol(&key, "a length in the output is not well-formed", json!({"what": e, "output": mathml}));
                return;
            }
            let near = |l: &Len, g: &(&'static str, [f64; 3])| l.what == g.0 && (0..3).all(|i| (l.val[i].0 - g.1[i]).abs() <= l.val[i].1 + 2e-38);
            if got.len() != b.exp.len() || got.iter().zip(&b.exp).any(|(g, l)| !near(l, g)) {
                let i = got.iter().zip(&b.exp).take_while(|(g, l)| near(l, g)).count();
                c.viol(&key, "a length is not what was asked for", json!({"input": s, "at": i, "expected": format!("{:?}", b.exp.get(i)), "got": format!("{:?}", got.get(i)), "output": mathml}));
                return;
            }
            c.add("lengths compared", got.len() as u64);
        }
        Outcome::Err { start, end, msg } => {
            if b.bad {
                c.stat("impossible lengths rejected");
            } else if b.maybe {
                c.stat("unusual lengths rejected");
            } else {
                c.viol(&key, "a correct length is rejected", json!({"input": s, "error": msg, "at": format!("{start}..{end}")}));
            }
        }
        o => c.viol(&key, "panic", json!({"input": s, "result": o.short()})),
    }
}
