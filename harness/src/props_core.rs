//! Properties which hold for every input: totality, well-formedness, structure, purity, batch
//! equivalence, error reporting, layout, envelope, and the insensitivity relations.
use crate::conv::*;
use crate::ctx::{Ctx, alloc};
use crate::gen_::*;
use crate::mathml;
use crate::rng::Rng;
use crate::xml;
use math_core::{LatexToMathML, MathCoreConfig};
use serde_json::json;

pub fn case(d: &Data, prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    match prop {
        "C01" => c01(d, c, r),
        "C02" => c02(d, c, r),
        "C03" => c03(d, c, r),
        "C04" => c04(d, c, r),
        "C07" => c07(d, c, r),
        "C11" => c11(d, c, r),
        "C12" => c12(d, c, r),
        "C13" => c13(d, c, r),
        "C14" => c14(d, c, r),
        "C15" => c15(d, c, r),
        "C16" => c16(d, c, r),
        "C30" => c30(d, c, r),
        _ => return false,
    }
    true
}

fn has_def(s: &str) -> bool {
    ["\\def", "\\gdef", "\\newcommand", "\\renewcommand", "\\providecommand", "\\let", "\\global", "\\DeclareMathOperator"].iter().any(|k| s.contains(k))
}

/// An input from the hostile or the well-formed generator.
pub fn any_input(d: &Data, r: &mut Rng, xml_only: bool) -> String {
    match r.below(10) {
        0..=3 => {
            let g = Gen { d };
            let t = g.formula(r);
            let lay = *r.choose(&[Lay::Min, Lay::Spaced, Lay::Wild, Lay::NoBraces, Lay::MixedBraces]);
            layout(&t, lay, r)
        }
        4 => r.choose(&d.corpus).clone(),
        5 => nest_probe(d, r, xml_only),
        _ => soup(r, d, xml_only),
    }
}

/// Small single commands with all combinations of arguments: reaches every entry of the command table.
pub fn command_probe(d: &Data, r: &mut Rng) -> String {
    let mut s = String::new();
    if r.pct(30) {
        s.push_str(r.pick(&["a", "{", "\\left(", "\\text{", "\\sum_", "x^", "\\sqrt[", "\\begin{matrix}", "\\begin{align}", "\\mathbf{", "\\hat", "\\not", "\\frac"]));
    }
    let k = r.choose(&d.cmds);
    s.push('\\');
    s.push_str(&k.name);
    for _ in 0..r.below(5) {
        s.push_str(r.pick(&[
            "{a}", "{b+c}", " ", "x", "[3]", "[", "]", "{", "}", "{}", "^", "_", "^2", "_i", "\\alpha", "(", ")", ".", "{3pt}", "{red}", "{1}", "*", "&", "\\\\", "=", "\\limits", "\\over", "|", "{[}", "#1", "'", "\\hline", "{matrix}", "{cc}",
        ]));
    }
    if r.pct(30) {
        s.push_str(r.pick(&["}", "\\right)", "]", "\\end{matrix}", "\\end{align}", "b", "{c}{d}"]));
    }
    s
}

/// Several commands each within an argument of another, around a few characters of all lengths.
pub fn nest_probe(d: &Data, r: &mut Rng, xml_only: bool) -> String {
    let mut s = String::new();
    for _ in 0..r.below(4) {
        match r.below(4) {
            0 => s.push_str(r.pick(&["a", "é", "", "\\alpha ", "x y", "12", "\u{338}", "𝔸\u{fe00}", "<", "日本", " ", "a1", "\\%", "''"])),
            _ => s.push(crate::gen_::rand_char(r, xml_only)),
        }
    }
    for _ in 0..(1 + r.below(4)) {
        let n = match r.below(5) {
            0 => r.pick(&["not", "operatorname", "text", "mathrm", "slashed", "vertoverlay", "hat", "mathbf", "color{red}", "textrm", "tag", "mathbb", "operatorname*", "overline", "sideset{}{_1}", "big"]),
            _ => &r.choose(&d.cmds).name,
        };
        let more = r.pick(&["", "", "", "{x}", "{é}{b}", "_é", "^{日}", "'", "\\limits_1", " é"]);
        s = match r.below(6) {
            0 => format!("\\{n} {s}{more}"),
            1 => format!("\\{n}{{}}{{{s}}}{more}"),
            2 => format!("\\{n}[{s}]{{{s}}}{more}"),
            3 => format!("\\{n}{{x}}{{{s}}}{more}"),
            _ => format!("\\{n}{{{s}}}{more}"),
        };
        if s.len() > 3000 {
            break;
        }
    }
    s
}

/// A few tokens of the kind which give a formula its structure, with little in between.
pub fn skeleton(r: &mut Rng) -> String {
    let mut s = String::new();
    let env = *r.choose(&REAL_ENVS);
    for _ in 0..(1 + r.below(7)) {
        let e = if r.pct(70) { env } else { *r.choose(&REAL_ENVS) };
        match r.below(26) {
            0..=3 => s.push_str(&format!("\\begin{{{e}}}")),
            4..=7 => s.push_str(&format!("\\end{{{e}}}")),
            8 => s.push_str(r.pick(&["{c}", "{lr}", "{}", "[t]", "{|c|}", "{:r", "{é}", "{c|", "{ l r }"])),
            9 => s.push_str(r.pick(&["\\left", "\\right", "\\middle", "\\left(", "\\right)", "\\left.", "\\right.", "\\middle|", "\\big", "\\bigl("])),
            10 => s.push_str(r.pick(&["\\\\", "\\\\[1em]", "\\\\*", "&", "&&", "\\hline", "\\hdashline", "\\tag{a}", "\\nonumber", "\\label{a}"])),
            11 => s.push_str(r.pick(&["^", "_", "'", "^^", "_^", "''", "\\limits", "\\nolimits", "\\over", "\\choose", "\\atop"])),
            12 => s.push_str(r.pick(&["\\frac", "\\sqrt", "\\sqrt[", "]", "[", "\\hat", "\\not", "\\text", "\\mathbf", "\\sideset", "\\genfrac", "\\overset", "\\color", "\\operatorname"])),
            13 => s.push_str(r.pick(&["\\def\\q", "\\newcommand", "\\newcommand{\\q}[1]", "\\let\\q", "\\global", "\\q", "#1", "##", "\\renewcommand\\q", "\\gdef\\q#1"])),
            14 => s.push_str(r.pick(&["%", "%\n", " ", "\n", "\\ ", "~", "$"])),
            15..=17 => s.push('{'),
            18..=20 => s.push('}'),
            21 => s.push_str("{}"),
            22 => s.push(crate::gen_::rand_char(r, false)),
            _ => s.push_str(r.pick(&["x", "1", "+", "=", "\\alpha", "é", ",", "\\sum", "(", ")", "|"])),
        }
    }
    s
}

/// Characters of other lengths in place of some of the characters, or between them.
pub fn other_chars(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..(1 + r.below(4)) {
        let i = r.below(c.len() + 1);
        let ch = match r.below(3) {
            0 => *r.choose(&['é', '日', '𝔸', '\u{338}', '\u{fe00}', '\u{fe0f}', '\u{200b}', 'ﬁ', '\u{a0}', '−', '′', '\u{3000}']),
            _ => crate::gen_::rand_char(r, false),
        };
        if i < c.len() && r.pct(60) {
            c[i] = ch;
        } else {
            c.insert(i, ch);
        }
    }
    c.into_iter().collect()
}

pub fn deep(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.below(max);
    let (o, m, cl): (&str, &str, &str) = *r.choose(&[
        ("{", "x", "}"),
        ("\\frac{", "x", "}{y}"),
        ("\\frac{y}{", "x", "}"),
        ("\\sqrt{", "x", "}"),
        ("\\sqrt[", "x", "]{y}"),
        ("\\left(", "x", "\\right)"),
        ("x^{", "x", "}"),
        ("x_{", "x", "}"),
        ("\\hat{", "x", "}"),
        ("\\hat", "x", ""),
        ("\\text{\\textbf{", "x", "}}"),
        ("\\textbf{", "x", "}"),
        ("\\mathbf{", "x", "}"),
        ("\\begin{matrix}", "x", "\\end{matrix}"),
        ("\\begin{align}", "x", "\\end{align}"),
        ("\\overset{", "x", "}{y}"),
        ("\\overset ", "x", ""),
        ("{a\\over ", "x", "}"),
        ("\\color{red}", "x", ""),
        ("\\displaystyle ", "x", ""),
        ("\\not", "=", ""),
        ("\\mathchoice{", "x", "}{}{}{}"),
        ("\\limits", "x", ""),
        ("\\sum_{", "x", "}"),
        ("\\lim\\limits", "x", ""),
        ("\\mathbin{", "x", "}"),
        ("\\mathrm ", "x", ""),
        ("\\frac", "x", ""),
        ("\\sqrt", "x", ""),
        ("x'^", "x", ""),
        ("\\begin{array}{c}", "x", "\\end{array}"),
        ("\\prescript{", "x", "}{}{y}"),
        ("\\set{", "x", "}"),
        ("\\pmod{", "x", "}"),
        ("\\xrightarrow[", "x", "]{y}"),
        ("\\operatorname{", "x", "}"),
        ("\\genfrac(){1pt}{0}{", "x", "}{y}"),
        ("\\mathop{", "x", "}\\limits"),
        ("\\boxed{", "x", "}"),
        ("\\sideset{_a}{", "x", "}\\sum"),
        ("\\global", "\\def\\x{}", ""),
        ("%\n", "x", ""),
        ("  ", "x", ""),
        ("x'", "x", ""),
        ("\\begin{cases}", "x&", "\\end{cases}"),
        ("\\def\\a{", "x", "}"),
        ("\\let\\a=", "x", ""),
    ]);
    let mut s = o.repeat(n);
    s.push_str(m);
    let k = if r.pct(80) { n } else { r.below(n + 2) };
    s.push_str(&cl.repeat(k));
    s
}

fn wide(d: &Data, r: &mut Rng) -> String {
    let mut f = String::new();
    match r.below(3) {
        0 => f = command_probe(d, r),
        1 => {
            let g = Gen { d };
            let t = g.formula(r);
            f = layout(&t, Lay::Min, r);
        }
        _ => soup_into(r, d, 1, false, &mut f),
    }
    f.truncate_chars(60);
    let n = 1 + r.below(400);
    f.repeat(n)
}

trait Trunc {
    fn truncate_chars(&mut self, n: usize);
}
impl Trunc for String {
    fn truncate_chars(&mut self, n: usize) {
        if let Some((i, _)) = self.char_indices().nth(n) {
            self.truncate(i);
        }
    }
}

fn exploding(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "\\def\\a{\\a}\\a".into(),
        1 => "\\def\\a{\\b}\\def\\b{\\a}\\a".into(),
        2 => format!("\\def\\a{{\\a\\a}}\\a{}", "\\a".repeat(r.below(5))),
        3 => "\\newcommand{\\a}[1]{\\a{#1#1}}\\a{x}".into(),
        4 => {
            // doubling chain
            let n = 2 + r.below(18);
            let mut s = String::new();
            for i in 0..n {
                let (x, y) = ((b'a' + i as u8) as char, (b'a' + i as u8 + 1) as char);
                s.push_str(&format!("\\def\\{x}{x}{{\\{y}{y}\\{y}{y}}}"));
            }
            let z = (b'a' + n as u8) as char;
            s.push_str(&format!("\\def\\{z}{z}{{z}}\\aa"));
            s
        }
        5 => {
            let n = 1 + r.below(9);
            let mut s = format!("\\def\\x#1{{{}}}", "#1".repeat(n));
            for _ in 0..(1 + r.below(14)) {
                s.push_str("\\x{");
            }
            s.push('z');
            s.push_str(&"}".repeat(s.matches("\\x{").count()));
            s
        }
        6 => "\\def\\a#1{\\a{#1}#1}\\a{xyz}".into(),
        _ => format!("\\def\\a#1{{{}}}\\a{{{}}}", "#1".repeat(1 + r.below(40)), "\\a{x}".repeat(1 + r.below(40))),
    }
}

/// Inputs of all kinds, of moderate length.
pub fn mixed(d: &Data, r: &mut Rng) -> String {
    match r.below(24) {
        0..=4 => soup(r, d, false),
        5..=9 => command_probe(d, r),
        20 | 21 => skeleton(r),
        22 => nest_probe(d, r, false),
        23 => {
            let s = any_input(d, r, false);
            other_chars(&s, r)
        }
        10 => deep(r, 30),
        11 => wide(d, r),
        12 => stateful(d, r),
        13 => hostile_text(d, r),
        _ => any_input(d, r, false),
    }
}

fn is_internal(o: &Outcome) -> bool {
    o.err_kind().is_some_and(|k| k.starts_with("Internal"))
}

/// Totality: every call returns, with markup or an ordinary error, in bounded memory.
fn c01(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let s = match r.below(20) {
        0..=6 => soup(r, d, false),
        7 => nest_probe(d, r, false),
        8 => if r.pct(50) { skeleton(r) } else { nest_probe(d, r, false) },
        9..=12 => command_probe(d, r),
        13 => deep(r, if c.thorough { 3000 } else { 1200 }),
        14 => wide(d, r),
        15 => exploding(r),
        16 => {
            let k = r.below(60);
            let mut s = String::new();
            for _ in 0..k {
                s.push_str(&command_probe(d, r));
            }
            s
        }
        _ => any_input(d, r, false),
    };
    let s = if s.len() < 4000 && r.pct(12) { other_chars(&s, r) } else { s };
    let mut cfg = Cfg::random(r);
    if r.pct(10) {
        cfg.max_exp = None;
    }
    let block = r.pct(50);
    // sometimes with custom commands from the configuration, which themselves may be hostile
    if r.pct(15) {
        for _ in 0..(1 + r.below(3)) {
            let n = match r.below(4) {
                0 => r.pick(&["foo", "x", "alpha", "frac", "left", "begin", "", " ", "a b", "1", "é", "foo1", "\\foo", "{", "text"]).to_string(),
                _ => r.pick(&["foo", "bar", "x"]).to_string(),
            };
            let b = if r.pct(50) { soup(r, d, false) } else { command_probe(d, r) };
            cfg.macros.push((n, b));
        }
    }
    let key = format!("{s:?}|{block}|{}", cfg.json());
    let (res, peak, total) = alloc::measure(|| {
        guarded(|| {
            let k = LatexToMathML::new(cfg.build());
            match k {
                Err(e) => {
                    let (err, i, def) = *Box::new(e);
                    let m = err.error_message();
                    let ok = cfg.macros.get(i).is_some_and(|(_, b)| *b == def)
                        && err.0.start <= err.0.end
                        && err.0.end <= def.len();
                    let _ = err.to_message(&mut String::new(), &def);
                    let _ = err.to_html(&def, md(block), None);
                    (vec![], Some((ok, i, def, m)))
                }
                Ok(mut k) => {
                    let mut v = vec![local(&k, &s, block)];
                    if r.pct(30) {
                        v.push(global(&mut k, &s, !block));
                        v.push(global(&mut k, &s, block));
                        let _ = guarded(|| k.reset_global_state());
                    }
                    if r.pct(15) {
                        match all(&k, &[(s.clone(), block), ("x".into(), false), (s.clone(), !block)]) {
                            Ok(x) => v.extend(x),
                            Err(p) => v.push(Outcome::Panic(p)),
                        }
                    }
                    (v, None)
                }
            }
        })
    });
    c.max("peak_bytes_allocated", peak as u64);
    c.max("max_input_bytes", s.len() as u64);
    match res {
        Err(p) => c.viol(&key, "creating the converter panicked", json!({"panic": p})),
        Ok((v, conf)) => {
            if let Some((ok, i, def, m)) = conf {
                c.stat("configuration rejected");
                if !ok || m.is_empty() {
                    c.viol(&key, "rejected definition is reported with a wrong index, text or span", json!({"index": i, "def": def}));
                }
            }
            for o in &v {
                match o {
                    Outcome::Ok { .. } => c.stat("outcome: markup"),
                    Outcome::Err { .. } => c.stat(&format!("outcome: error {}", o.err_kind().unwrap())),
                    Outcome::Panic(p) => {
                        c.stat("outcome: panic");
                        c.viol(&key, "the conversion panicked", json!({"panic": p}));
                    }
                }
                if is_internal(o) {
                    c.viol(&key, "the conversion reports an internal error", json!({"outcome": o.short()}));
                }
            }
            if !v.is_empty() {
                c.nontrivial(&key);
            }
        }
    }
    // A generous bound on memory: linear in the input unless custom commands multiply it (indented
    // output also grows with the nesting, which is limited).
    let defs = has_def(&s) || !cfg.macros.is_empty();
    let n = s.len() + cfg.macros.iter().map(|m| m.1.len()).sum::<usize>();
    let bound = if defs { 1usize << 30 } else { (16 << 20) + if cfg.pretty == 0 { 8000 } else { 60000 } * n };
    if peak > bound {
        c.viol(&key, "the conversion uses memory out of proportion to its input", json!({"peak": peak, "input_bytes": n, "total": total}));
    }
    let s2: String = s.chars().take(200).collect();
    c.sample(|| json!({"input": s2, "bytes": s.len(), "peak_bytes": peak}));
}

pub fn html_ok(html: &str, msg_has: &str, latex: &str, block: bool, class: &str, off: usize) -> Result<(), String> {
    let e = xml::parse_html(html).map_err(|e| format!("not well-formed: {e}"))?;
    let tag = if block { "p" } else { "span" };
    if e.name != tag || e.attrs.len() != 2 {
        return Err(format!("wrong outer element <{}>", e.name));
    }
    if e.attr("class") != Some(class) {
        return Err("wrong class".into());
    }
    let want = format!("{off}: {msg_has}");
    if e.attr("title") != Some(&want) {
        return Err(format!("title {:?} instead of {want:?}", e.attr("title")));
    }
    if e.kids.len() != 1 || e.els().len() != 1 || e.els()[0].name != "code" || !e.els()[0].els().is_empty() || !e.els()[0].attrs.is_empty() {
        return Err("wrong content".into());
    }
    let norm = |s: &str| s.to_string();
    if norm(&e.els()[0].text()) != norm(latex) {
        return Err(format!("the shown source is {:?}", e.els()[0].text()));
    }
    Ok(())
}

/// Well-formed output which contains only the converter's own markup.
fn c02(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let s = match r.below(10) {
        0..=5 => soup(r, d, true),
        6 | 7 => hostile_text(d, r),
        8 => command_probe(d, r),
        _ => any_input(d, r, true),
    };
    let mut cfg = Cfg::random(r);
    if r.pct(70) {
        cfg.ignore_unknown = true;
    }
    let block = r.pct(50);
    let mut b = cfg.build();
    let uclass = if r.pct(20) {
        b.css_classes.unknown_command = "my-unknown".into();
        "my-unknown"
    } else {
        "math-core-unknown-cmd"
    };
    let Ok(mut k) = LatexToMathML::new(b) else { return };
    let key = format!("{s:?}|{block}|{}", cfg.json());
    let outs = if r.pct(60) { vec![local(&k, &s, block)] } else { vec![local(&k, &s, block), global(&mut k, &s, block)] };
    for o in outs {
        match &o {
            Outcome::Panic(_) => c.stat("skipped: panic"),
            Outcome::Ok { mathml, .. } => {
                c.nontrivial(&key);
                c.stat("markup checked");
                match xml::parse(mathml) {
                    Err(e) => c.viol(&key, "the output is not well-formed", json!({"error": e, "output": mathml})),
                    Ok(e) => {
                        if e.name != "math" {
                            c.viol(&key, "the root is not <math>", json!({"output": mathml}));
                        }
                        let mut n = 0;
                        e.walk(&mut |_| n += 1);
                        c.add("elements checked", n);
                        if let Err(e) = mathml::vocabulary(&e, uclass, &cfg.id_prefix, false) {
                            c.viol(&key, "markup which is not the converter's own", json!({"error": e, "output": mathml}));
                        }
                    }
                }
                let o2 = mathml.clone();
                c.sample(|| json!({"input": s, "output": o2}));
            }
            Outcome::Err { .. } => {
                c.stat("error rendering checked");
                if let Ok(Err(e)) = guarded(|| k.convert_with_local_state(&s, md(block))) {
                    let off = s.get(..e.0.start).map(|p| p.chars().count()).unwrap_or(usize::MAX);
                    let class = if r.pct(30) { Some("err") } else { None };
                    let h = e.to_html(&s, md(block), class);
                    if let Err(w) = html_ok(&h, &e.error_message(), &s, block, class.unwrap_or("math-core-error"), off) {
                        // the position in the title is C11's business; here only the markup counts
                        if !w.starts_with("title") || xml::parse_html(&h).is_err() {
                            c.viol(&key, "the HTML rendering of the error is wrong", json!({"error": w, "html": h}));
                        }
                    }
                    c.nontrivial(&key);
                }
            }
        }
    }
}

/// Places where user text gets into the output, filled with markup.
pub fn hostile_text(_d: &Data, r: &mut Rng) -> String {
    let evil = *r.choose(&[
        "<b>", "</mtext><script>alert(1)</script>", "\"><x y=\"", "' onload='x", "&lt;", "a&b", "]]>", "<!--", "-->", "<![CDATA[", "&#60;x&#62;", "<?pi?>", "</math>", "\" onmouseover=\"x", "&amp;amp;", "a<b>c", "x\"y", "<img src=x>", "</annotation>", "<", ">", "\"", "&",
    ]);
    // in text mode, & needs no escape here, but % # { } \ would
    let esc: String = evil.replace('&', "\\&");
    let e = if r.pct(60) { evil.to_string() } else { esc };
    match r.below(30) {
        0 => format!("\\text{{{e}}}"),
        1 => format!("\\operatorname{{{e}}}"),
        2 => format!("\\mathrm{{{e}}}"),
        3 => format!("\\tag{{{e}}}"),
        4 => format!("\\begin{{align}}x\\tag{{{e}}}\\label{{{e}}}\\end{{align}}"),
        5 => format!("\\begin{{equation}}x\\label{{{e}}}\\end{{equation}}\\eqref{{{e}}}"),
        6 => format!("\\eqref{{{e}}}"),
        7 => format!("\\color{{{e}}}x"),
        8 => format!("\\textcolor{{{e}}}{{x}}"),
        9 => format!("\\begin{{{e}}}x\\end{{{e}}}"),
        10 => format!("\\hspace{{{e}}}"),
        11 => format!("\\genfrac{{{e}}}{{{e}}}{{1pt}}{{}}{{a}}{{b}}"),
        12 => format!("\\left{e}x\\right{e}"),
        13 => format!("{e}%{e}\n{e}"),
        14 => format!("\\newcommand{{\\foo}}[1]{{\\text{{#1{e}}}}}\\foo{{{e}}}"),
        15 => format!("\\textbf{{{e}\\emph{{{e}}}}}"),
        16 => format!("\\unknowncmd{{{e}}}"),
        17 => format!("\\begin{{array}}{{{e}}}x\\end{{array}}"),
        18 => format!("\\def\\x{{{e}}}\\x"),
        19 => format!("\\{e}"),
        20 => format!("\\operatorname*{{{e}}}_{{{e}}}"),
        21 => format!("\\not{e}"),
        22 => format!("\\mathbb{{{e}}}"),
        23 => format!("\\texttt{{{e}}}"),
        24 => format!("\\mbox{{{e}}}\\fbox{{{e}}}"),
        25 => format!("\\'{e}\\text{{\\'{e}}}"),
        26 => format!("\\begin{{gather}}{e}\\tag*{{{e}}}\\end{{gather}}"),
        27 => format!("\\href{{{e}}}{{x}}\\url{{{e}}}\\class{{{e}}}{{x}}\\id{{{e}}}{{x}}\\style{{{e}}}{{x}}\\htmlClass{{{e}}}{{x}}\\data{{{e}}}{{x}}"),
        28 => format!("\\bm{{{e}}}\\mathit{{{e}}}{{\\rm {e}}}"),
        _ => format!("\\kern{e}\\rule{{{e}}}{{{e}}}\\raisebox{{{e}}}{{x}}"),
    }
}

fn c03(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let s = match r.below(10) {
        0..=2 => soup(r, d, true),
        3 => command_probe(d, r),
        _ => any_input(d, r, true),
    };
    let mut cfg = Cfg::random(r);
    cfg.max_exp = None;
    let block = r.pct(50);
    let k = cfg.conv();
    let key = format!("{s:?}|{block}|{}", cfg.json());
    match local(&k, &s, block) {
        Outcome::Ok { mathml, .. } => match xml::parse(&mathml) {
            Err(_) => c.stat("skipped: not well-formed (C02)"),
            Ok(e) => {
                c.nontrivial(&key);
                let mut n = 0;
                e.walk(&mut |x| {
                    n += 1;
                    c.stat(&format!("<{}>", x.name));
                });
                c.add("elements checked", n);
                // layout whitespace of pretty printing does not count as content
                let e = if cfg.pretty != 0 { xml::strip_layout(&e) } else { e };
                if let Err(w) = mathml::root(&e) {
                    c.viol(&key, "the output breaks a structural rule of MathML", json!({"error": w, "output": mathml}));
                }
                c.sample(|| json!({"input": s, "output": mathml}));
            }
        },
        Outcome::Err { .. } => c.stat("error"),
        Outcome::Panic(_) => c.stat("skipped: panic"),
    }
}

/// Snippets which leave traces in the document state: definitions, labels, numbers.
pub fn stateful(d: &Data, r: &mut Rng) -> String {
    match r.below(16) {
        0 => format!("\\newcommand{{\\{}}}{{{}}}", r.pick(&["foo", "baz", "qux"]), r.pick(&["x", "y+1", "\\alpha", "\\text{q}"])),
        1 => format!("\\gdef\\{}{{{}}}", r.pick(&["foo", "baz", "qux"]), r.pick(&["x", "z^2", "\\beta"])),
        2 => format!("\\{}", r.pick(&["foo", "baz", "qux"])),
        3 => "\\begin{align}a&=b\\label{one}\\\\c&=d\\end{align}".into(),
        4 => "\\begin{equation}q\\end{equation}".into(),
        5 => "\\begin{gather}a\\tag{T}\\label{two}\\\\b\\nonumber\\\\c\\end{gather}".into(),
        6 => format!("\\eqref{{{}}}", r.pick(&["one", "two", "none"])),
        7 => format!("\\renewcommand{{\\foo}}[1]{{{}}}\\foo{{a}}", r.pick(&["#1#1", "\\frac{#1}{2}"])),
        8 => format!("\\def\\baz#1{{{}}}\\baz b", r.pick(&["#1+#1", "\\sqrt{#1}"])),
        9 => "\\begin{align*}x\\end{align*}".into(),
        10 => "\\let\\qux=\\gamma\\qux".into(),
        11 => "\\newcommand{\\foo}{bad".into(),
        12 => "\\begin{equation}a\\label{one}\\undefinedthing\\end{equation}".into(),
        13 => "\\begin{multline}a\\\\b\\label{two}\\end{multline}".into(),
        14 => any_input(d, r, false),
        _ => {
            let g = Gen { d };
            let t = g.formula(r);
            layout(&t, Lay::Min, r)
        }
    }
}

fn c04(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let mut cfg = Cfg::random(r);
    if r.pct(40) {
        cfg.macros = vec![("foo".into(), "m".into()), ("two".into(), "#1/#2".into())];
    }
    let n = 2 + r.below(5);
    let pool: Vec<(String, bool)> = (0..n).map(|_| (stateful(d, r), r.pct(50))).collect();
    // reference: each snippet on a converter of its own
    let want: Vec<Outcome> = pool.iter().map(|(s, b)| local(&cfg.conv(), s, *b)).collect();
    if want.iter().any(|o| matches!(o, Outcome::Panic(_))) {
        c.stat("skipped: panic");
        return;
    }
    let key = format!("{pool:?}|{}", cfg.json());
    c.nontrivial(&key);
    let mut k = cfg.conv();
    let mut log: Vec<String> = Vec::new();
    // the globals on a converter which sees nothing else
    let mut g_only = cfg.conv();
    let steps = 4 + r.below(12);
    for _ in 0..steps {
        let i = r.below(n);
        let (s, b) = &pool[i];
        match r.below(8) {
            0..=3 => {
                log.push(format!("local {i}"));
                let got = local(&k, s, *b);
                c.stat("local conversion compared");
                if got != want[i] {
                    c.viol(&key, "a local conversion depends on the history of the converter", json!({"history": log, "snippet": s, "fresh": want[i].short(), "here": got.short()}));
                    return;
                }
            }
            4 | 5 => {
                log.push(format!("global {i}"));
                let x = global(&mut k, s, *b);
                let y = global(&mut g_only, s, *b);
                c.stat("global conversion compared");
                if x != y {
                    c.viol(&key, "local or batch conversions change the document state", json!({"history": log, "snippet": s, "globals only": y.short(), "here": x.short()}));
                    return;
                }
            }
            6 => {
                log.push(format!("all {i}"));
                let items: Vec<(String, bool)> = (0..1 + r.below(3)).map(|_| pool[r.below(n)].clone()).collect();
                let x = all(&k, &items);
                let y = all(&cfg.conv(), &items);
                c.stat("batch compared");
                if x != y {
                    c.viol(&key, "a batch depends on the history of the converter", json!({"history": log, "items": items, "fresh": format!("{y:?}"), "here": format!("{x:?}")}));
                    return;
                }
            }
            _ => {
                log.push("reset".into());
                k.reset_global_state();
                g_only.reset_global_state();
                if r.pct(50) {
                    // after a reset the converter is as good as new
                    g_only = cfg.conv();
                }
            }
        }
    }
    // fresh global and singleton batch agree with local
    let i = r.below(n);
    let (s, b) = &pool[i];
    let g = global(&mut cfg.conv(), s, *b);
    if g != want[i] {
        c.viol(&key, "the first conversion with document state differs from a local one", json!({"snippet": s, "local": want[i].short(), "global": g.short()}));
    }
    if let Ok(v) = all(&cfg.conv(), &[(s.clone(), *b)]) {
        // a batch may resolve references inside the single snippet; a local conversion does too
        if v.len() != 1 || v[0] != want[i] {
            c.viol(&key, "a batch of one differs from a local conversion", json!({"snippet": s, "local": want[i].short(), "batch": format!("{v:?}")}));
        }
    }
    // several threads sharing one converter
    if r.pct(8) {
        let shared = cfg.conv();
        let seeds: Vec<u64> = (0..4).map(|_| r.next()).collect();
        let bad: Vec<String> = std::thread::scope(|sc| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|sd| {
                    let (shared, pool, want) = (&shared, &pool, &want);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut r = Rng::new(*sd);
                            let mut bad = Vec::new();
                            for _ in 0..25 {
                                let i = r.below(pool.len());
                                let o = local(shared, &pool[i].0, pool[i].1);
                                if o != want[i] {
                                    bad.push(format!("{:?}: {} instead of {}", pool[i].0, o.short(), want[i].short()));
                                }
                                if r.pct(20) {
                                    std::thread::yield_now();
                                }
                            }
                            bad
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        c.add("conversions on shared threads", 100);
        if let Some(b) = bad.first() {
            c.viol(&key, "concurrent conversions on one converter interfere", json!({"first": b}));
        }
    }
    let w0 = want[0].short();
    c.sample(|| json!({"snippets": pool, "history": log, "first": w0}));
}

/// Replace the text of every in-page reference.
pub fn mask_refs(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("<a href=\"#") {
        let (a, b) = rest.split_at(i);
        out.push_str(a);
        match b.find("</a>") {
            Some(j) => {
                let g = b.find('>').unwrap();
                out.push_str(&b[..=g]);
                out.push_str("REF</a>");
                rest = &b[j + 4..];
            }
            None => {
                out.push_str(b);
                return out;
            }
        }
    }
    out.push_str(rest);
    out
}

fn c07(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let mut cfg = Cfg::random(r);
    cfg.max_exp = None;
    if r.pct(40) {
        cfg.macros = vec![("foo".into(), "m".into())];
    }
    let n = r.below(9);
    let items: Vec<(String, bool)> = (0..n).map(|_| (stateful(d, r), r.pct(50))).collect();
    let key = format!("{items:?}|{}", cfg.json());
    let mut k = cfg.conv();
    let seq: Vec<Outcome> = items.iter().map(|(s, b)| global(&mut k, s, *b)).collect();
    let got = match all(&cfg.conv(), &items) {
        Ok(v) => v,
        Err(_) => {
            c.stat("skipped: panic");
            return;
        }
    };
    if seq.iter().any(|o| matches!(o, Outcome::Panic(_))) {
        c.stat("skipped: panic");
        return;
    }
    if got.len() != n {
        c.viol(&key, "a batch returns a different number of results", json!({"items": n, "results": got.len()}));
        return;
    }
    c.nontrivial(&key);
    for i in 0..n {
        c.stat("items compared");
        let same = match (&seq[i], &got[i]) {
            (Outcome::Ok { mathml: a, unknown: u, .. }, Outcome::Ok { mathml: b, unknown: v, .. }) => mask_refs(a) == mask_refs(b) && u == v,
            (a, b) => a == b,
        };
        if got[i].is_err() {
            c.stat("items which fail");
        }
        if !same {
            c.viol(&key, "an item of a batch differs from converting the items one after the other", json!({"item": i, "snippet": items[i].0, "sequential": seq[i].short(), "batch": got[i].short()}));
            return;
        }
    }
    c.sample(|| json!({"items": items, "first result": got.first().map(|o| o.short())}));
}

/// Error spans and the renderings of errors.
fn c11(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let mut cfg = Cfg::random(r);
    cfg.ignore_unknown = r.pct(10);
    cfg.max_exp = None;
    let block = r.pct(50);
    let k = cfg.conv();
    if r.pct(35) {
        return c11_planted(d, c, r, &cfg, &k);
    }
    if r.pct(8) {
        return c11_config(d, c, r);
    }
    let s = match r.below(4) {
        0 => command_probe(d, r),
        1 => hostile_text(d, r),
        _ => soup(r, d, true),
    };
    let key = format!("{s:?}|{block}|{}", cfg.json());
    let e = match guarded(|| k.convert_with_local_state(&s, md(block))) {
        Ok(Err(e)) => e,
        Ok(Ok(_)) => {
            c.stat("no error");
            return;
        }
        Err(_) => {
            c.stat("skipped: panic");
            return;
        }
    };
    c.nontrivial(&key);
    let o = conv_result(Err(e.clone()));
    c.stat(&format!("error {}", o.err_kind().unwrap()));
    let (st, en) = (e.0.start, e.0.end);
    if st > en || en > s.len() || !s.is_char_boundary(st) || !s.is_char_boundary(en) {
        c.viol(&key, "the span of the error is not a range of the input", json!({"span": [st, en], "len": s.len(), "error": o.short()}));
        return;
    }
    let msg = e.error_message();
    if msg.trim().is_empty() {
        c.viol(&key, "empty error message", json!({"error": o.short()}));
    }
    let res = guarded(|| {
        let off = s[..st].chars().count();
        let h = e.to_html(&s, md(block), None);
        html_ok(&h, &msg, &s, block, "math-core-error", off).map_err(|w| format!("{w}: {h}"))?;
        let mut m = String::new();
        e.to_message(&mut m, &s);
        if !m.contains(&msg) {
            return Err(format!("the message form lacks the message: {m}"));
        }
        let rep = e.to_report("src", false);
        let mut buf = Vec::new();
        rep.write(("src", ariadne::Source::from(s.as_str())), &mut buf).map_err(|e| format!("report: {e}"))?;
        let txt = String::from_utf8(buf).map_err(|_| "report is not UTF-8".to_string())?;
        if !txt.contains(&msg) {
            return Err(format!("the report lacks the message: {txt}"));
        }
        Ok::<(), String>(())
    });
    match res {
        Err(p) => c.viol(&key, "rendering the error panicked", json!({"panic": p})),
        Ok(Err(w)) => c.viol(&key, "a rendering of the error is wrong", json!({"what": w})),
        Ok(Ok(())) => c.stat("renderings checked"),
    }
    // Something complete in front moves the span by its length and changes nothing else.
    if !has_def(&s) && !s.trim_start().starts_with("\\limits") && !s.trim_start().starts_with("\\nolimits") {
        let pre = *r.choose(&["{x}", "{é}", "{\\frac{1}{2}}", "{∑}", "{x}%ä\n"]);
        let s2 = format!("{pre}{s}");
        match local(&k, &s2, block) {
            Outcome::Err { start, end, msg: dbg } => {
                c.stat("shifted spans compared");
                if dbg == msg && (start, end) != (st + pre.len(), en + pre.len()) {
                    c.viol(&key, "the span does not move with the error", json!({"prefix": pre, "span": [st, en], "moved": [start, end], "error": dbg}));
                } else if dbg != msg {
                    c.stat("shifted: different error");
                }
            }
            Outcome::Ok { .. } => c.stat("shifted: no error"),
            _ => {}
        }
    }
    c.sample(|| json!({"input": s, "span": [st, en], "message": msg}));
}

/// A mistake in one of the macros of the configuration: the error says in which one, and where.
fn c11_config(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let n = 1 + r.below(9);
    let at = r.below(n);
    let mut used = vec![];
    let mut macros = vec![];
    let mut planted = None;
    for i in 0..n {
        let name = loop {
            let k: String = (0..3).map(|_| (*r.choose(b"qwzk")) as char).collect();
            if !used.contains(&k) {
                break k;
            }
        };
        let body = if i != at {
            (*r.choose(&["x", "", "#1+#2", "é", "\\mathbf{x}", "a\\\\b", "\\alpha%", "}{", "\\frac"])).to_string()
        } else if r.pct(70) {
            let head = *r.choose(&["", "x", "é", "\\alpha ", "#1", "{a}%ä\n", "∑^{", "\u{1d54f}\\,"]);
            let bad = *r.choose(&["\\nosuch", "\\nosuchcommand", "\\wqwq", "\\zero"]);
            let tail = *r.choose(&["", " x", "{y}", "1", "+é", "\n", "#2", "\\beta"]);
            planted = Some((head.len(), head.len() + bad.len()));
            format!("{head}{bad}{tail}")
        } else {
            soup(r, d, true)
        };
        used.push(name.clone());
        macros.push((name, body));
    }
    let s = macros[at].1.clone();
    let cfg = Cfg { macros, unreliable: true, ..Cfg::default() };
    let key = format!("macros {:?}", cfg.macros);
    c.nontrivial(&key);
    c.stat("macros of the configuration");
    let (e, idx, def) = match guarded(|| LatexToMathML::new(cfg.build())) {
        Err(_) => return c.stat("skipped: panic"),
        Ok(Ok(_)) => {
            if planted.is_some() {
                c.viol(&key, "a mistake in a macro of the configuration is not reported", json!({"definition": s}));
            }
            return;
        }
        Ok(Err(e)) => e,
    };
    c.stat("mistakes in macros of the configuration");
    if idx != at || def != s {
        return c.viol(&key, "a mistake is reported in another macro", json!({"reported": [idx.to_string(), def], "mistake in": [at.to_string(), s]}));
    }
    let (st, en) = (e.0.start, e.0.end);
    if st > en || en > s.len() || !s.is_char_boundary(st) || !s.is_char_boundary(en) {
        return c.viol(&key, "the span of the error is not a range of the definition", json!({"span": [st, en], "definition": s}));
    }
    if let Some(w) = planted {
        if (st, en) != w || !e.error_message().contains("Unknown command") {
            c.viol(&key, "the span does not point at the mistake in the macro", json!({"span": [st, en], "want": [w.0, w.1], "error": e.error_message()}));
        }
    }
}

/// A single mistake at a known place in an otherwise valid formula.
/// Mistakes with the exact range they are at: (text before, mistake, text after, message, where it is none).
const MISTAKES: &[(&str, &str, &str, &str, &str)] = &[
    ("\\not", "\\frac", "12", "relation after", ""),
    ("\\left", "+", "y\\right)", "parenthesis after", ""),
    ("\\left", "\\alpha", " \\right)", "parenthesis after", ""),
    ("\\left(a\\right", "=", "", "parenthesis after", ""),
    ("\\Biggl", "\\alpha", " ", "parenthesis after", ""),
    ("\\big", "{", "x}", "parenthesis after", ""),
    ("\\left(a\\middle", "+", "b\\right)", "parenthesis after", ""),
    ("a", "&", "b", "table-like", "&"),
    ("a", "\\hline", " b", "may only appear directly after", ""),
    ("a\\\\", "\\tag", "{1}", "numbered equation", ""),
    ("a", "\\tag", "{1}", "numbered equation", ""),
    ("a", "\\limits", "_2", "may only appear after \\int", ""),
    ("x^2", "\\nolimits", " ", "may only appear after \\int", ""),
    ("x_", "\\limits", " ", "may only appear after \\int", ""),
    ("a", "#1", "b", "outside of custom", "#"),
    ("a", "\\right", ")", "Unmatched closing", ")"),
    ("{a", "\\right", ")}", "Unmatched closing", ""),
    ("\\begin{matrix}a", "\\right", ")\\end{matrix}", "Unmatched closing", ""),
    ("a", "\\end{bmatrix}", "", "Unmatched closing", "m"),
    ("\\left(a", "\\end{bmatrix}", "\\right)", "Unmatched closing", ""),
    ("{a", "\\end{bmatrix}", "}", "Unmatched closing", ""),
    ("\\begin{bmatrix}a", "\\end{cases}", "", "Expected \"\\end{bmatrix}\"", ""),
    ("\\text{a", "^", "b}", "Not valid in text mode", ""),
    ("\\text{a", "\\frac", " b}", "Not valid in text mode", ""),
    ("\\textbf{a", "\\alpha", " b}", "Not valid in text mode", ""),
    ("\\text{a\\textit{", "&", "b}}", "Not valid in text mode", ""),
    ("\\text{a", "$", "b$}", "Math mode within text", ""),
    ("a", "$", "b$", "Unexpected \"$\"", ""),
    ("a", "\\textbackslash", " b", "Not valid in math mode", ""),
    ("a", "\\OE", " b", "Not valid in math mode", ""),
    ("\\genfrac", "{((}", "{}{}{}{a}{b}", "at most one token", ""),
    ("\\genfrac{}{}{}", "{12}", "{a}{b}", "at most one token", ""),
    ("\\genfrac{}{}", "{x}", "{}{a}{b}", "Expected length", ""),
    ("\\begin{array}", "{q}", "x\\end{array}", "column specification", ""),
    ("\\begin{array}", "{}", "x\\end{array}", "column specification", ""),
    ("\\begin{array}", "{c!}", "x\\end{array}", "column specification", ""),
    ("x^", "\\bf", " x", "Switch-like", ""),
    ("\\sqrt", "\\displaystyle", " x", "Switch-like", ""),
    ("\\frac", "\\color", "{red}x", "Switch-like", ""),
    ("\\hat", "\\rm", " x", "Switch-like", ""),
    ("{a\\over b", "\\over", " c}", "more than one infix", ""),
    ("{a\\choose b", "\\atop", " c}", "more than one infix", ""),
    ("\\newcommand", "\\frac", "{y}", "already defined", "#"),
    ("\\newcommand{", "\\sin", "}{y}", "already defined", "#"),
    ("\\renewcommand{", "\\nosuchq", "}{y}", "not defined", "#"),
    ("\\newcommand{", "x", "}{y}", "name of a command", "#"),
    ("\\let ", "x", " y", "name of a command", "#"),
    ("\\def\\qqz", "#2", "{y}", "Expected parameter #1", "#"),
    ("\\def\\qqz#1", "#1", "{y}", "Expected parameter #2", "#"),
    ("\\def\\qqz#1", ".", "{y}", "Delimited parameters", "#"),
    ("\\newcommand\\qqz[1]{a", "#2", "}", "out of range", "#"),
    ("\\newcommand\\qqz{a", "#1", "}", "out of range", "#"),
    ("\\newcommand\\qqz[1]{{a\\frac", "#3", "}}", "out of range", "#"),
    ("{\\frac1", "}", "", "Expected argument but got closing", ""),
    ("{x^", "}", "", "Expected argument but got closing", ""),
    ("{\\sqrt", "}", "", "Expected argument but got closing", ""),
    ("\\left(\\hat", "\\right", ")", "Expected argument but got closing", ""),
    ("\\begin{matrix}\\frac x", "\\end{matrix}", "", "Expected argument but got closing", ""),
    ("\\sideset{}{}", "x", "", "large operator", ""),
    ("\\sideset{}{}", "\\alpha", " ", "large operator", ""),
    ("\\begin{align}x\\label{a}", "\\label", "{b}\\end{align}", "more than one label", ""),
    ("\\color[HTML]", "{12}", "x", "Unknown color", ""),
    ("\\color[RGB]", "{1,2}", "x", "Unknown color", ""),
    ("\\color[nomodel]", "{12}", "x", "Unknown color", ""),
    ("\\raisebox", "{1}", "{x}", "Expected length", ""),
    ("\\raisebox", "{1qq}", "{x}", "Expected length", ""),
    ("\\kern", "-.em", "b", "Expected length", ""),
    ("\\kern ", "+..5em", "b", "Expected length", ""),
    ("\\kern-1", "xx", "b", "invalid unit", ""),
    ("\\mskip 1 ", "xx", "b", "invalid unit", ""),
    ("\\kern 12", "e", "-2b", "invalid unit", ""),
    ("\\mkern-1", "em", "b", "Text unit", ""),
    ("\\kern+2", "mu", "b", "Math unit", ""),
    ("\\hspace", "{1mu}", "", "Math unit", ""),
    ("\\mspace", "{1em}", "", "Text unit", ""),
    ("\\mspace", "{mu}", "", "Expected length", ""),
    ("\\global ", "x", "", "directly before \\let", "#"),
    ("a^2", "^", "3", "Duplicate", ""),
    ("a'^2", "^", "3", "Duplicate", ""),
    ("a_1^2", "_", "3", "Duplicate", ""),
    ("x^", "^", "2", "directly followed by", ""),
    ("x_", "^", "2", "directly followed by", ""),
    ("\\sqrt[", "&", "]{x}", "table-like", ""),
    ("\\overset", "&", " b", "table-like", "&"),
    ("\\mathbb", "\\right", ")", "Expected argument but got closing", ")"),
    ("\\text", "^", "b", "Not valid in text mode", ""),
    ("\\vertoverlay", "\\frac", "12", "relation after", ""),
    ("\\xrightarrow[", "\\right", ")]{x}", "Unmatched closing", ""),
    ("\\sqrt[", "\\end{bmatrix}", "]{x}", "Unmatched closing", ""),
];

fn c11_planted(d: &Data, c: &mut Ctx, r: &mut Rng, cfg: &Cfg, k: &LatexToMathML) {
    let g = Gen { d };
    let block = r.pct(50);
    let mut pre = String::new();
    let mut post = String::new();
    for _ in 0..r.below(4) {
        let mut t = Vec::new();
        g.item(r, 2, &mut t);
        pre.push('{');
        pre.push_str(&layout(&t, Lay::Min, r));
        pre.push('}');
        pre.push_str(r.pick(&["", " ", "%é\n", "∑", "x", " é "]));
    }
    for _ in 0..r.below(3) {
        let mut t = Vec::new();
        g.item(r, 1, &mut t);
        post.push('{');
        post.push_str(&layout(&t, Lay::Min, r));
        post.push('}');
    }
    let (o, cl) = *r.choose(&[("", ""), ("{", "}"), ("\\frac{a}{", "}"), ("\\left(", "\\right)"), ("\\begin{matrix}a&", "\\end{matrix}"), ("\\sqrt{", "}"), ("\\mathbf{", "}")]);
    // (text before the marked range, marked range, text after, expected kinds)
    let m;
    let one;
    let mut exact = false;
    let mut once = false;
    let (a, bad, z, kinds): (&str, &str, &str, &[&str]) = if r.pct(70) {
        m = *r.choose(MISTAKES);
        let table = o.starts_with("\\begin");
        if m.4 == "&" && table || m.4 == "m" && table || m.4 == ")" && o.starts_with("\\left") {
            return;
        }
        exact = true;
        // neither definitions nor mistakes in braces can stand in a body
        once = m.4 == "#" || m.1 == "}";
        one = [m.3];
        (m.0, m.1, m.2, &one[..])
    } else { *r.choose(&[
        ("", "\\undefinedthing", " ", &["Unknown command"][..]),
        ("", "\\nosuchcommand", "{x}", &["Unknown command"][..]),
        ("x", "^", "^2", &[][..]),
        ("\\begin", "{nosuchenv}", "x\\end{nosuchenv}", &["Unknown environment"][..]),
        ("{x^2", "^", "3}", &["Duplicate subscript or superscript"][..]),
        ("{x_2", "_", "3}", &["Duplicate subscript or superscript"][..]),
        ("\\color", "{nosuchcolor}", "x", &["Unknown color"][..]),
        ("\\hspace", "{abc}", "", &["Expected length"][..]),
        ("\\hspace", "{3xy}", "", &["Expected length"][..]),
    ]) };
    if kinds.is_empty() {
        return;
    }
    let mut cfg = cfg.clone();
    cfg.ignore_unknown = false;
    let k2;
    let k = if cfg.ignore_unknown == false {
        k2 = cfg.conv();
        &k2
    } else {
        k
    };
    // the surroundings must be fine on their own
    let clean = format!("{pre}{o}z{cl}{post}");
    if !local(k, &clean, block).is_ok() {
        c.stat("surroundings not valid");
        return;
    }
    let head = format!("{pre}{o}{a}");
    let s = format!("{head}{bad}{z}{cl}{post}");
    let key = format!("{s:?}|{block}|{}", cfg.json());
    let (ws, we) = (head.len(), head.len() + bad.len());
    if r.pct(30) && !once {
        // the same mistake in the body of a command of the document: reported where it is used
        let body = format!("{o}{a}{bad}{z}{cl}").replace('&', "&");
        let (p2, call) = (format!("\\newcommand\\zz[1]{{#1{body}}}{pre}"), "\\zz");
        let s = format!("{p2}{call}{{u}}{post}");
        let (ws, we) = (p2.len(), p2.len() + call.len() + 3);
        match local(k, &s, block) {
            Outcome::Err { start, end, msg: dbg } => {
                c.stat("planted in a command");
                let in_def = dbg.contains("Unknown environment") || start < p2.len() - pre.len();
                if !dbg.contains(kinds[0]) {
                    c.viol(&key, "a mistake in a command is reported as something else", json!({"input": s, "error": dbg}));
                } else if !in_def && (start < ws || end > we || start == end) {
                    c.viol(&key, "a mistake in a command is not reported where the command is used", json!({"input": s, "used at": [ws, we], "error": dbg}));
                } else if in_def && end == 0 {
                    c.viol(&key, "a mistake in a command has no place", json!({"input": s, "error": dbg}));
                }
            }
            Outcome::Panic(_) => c.stat("skipped: panic"),
            Outcome::Ok { mathml, .. } => c.viol(&key, "a mistake is not reported", json!({"input": s, "output": mathml})),
        }
    }
    match local(k, &s, block) {
        Outcome::Panic(_) => c.stat("skipped: panic"),
        Outcome::Ok { mathml, .. } => c.viol(&key, "a mistake is not reported", json!({"mistake": bad, "output": mathml})),
        Outcome::Err { start, end, msg: dbg } => {
            c.nontrivial(&key);
            c.stat(&format!("planted {}", kinds[0]));
            if !dbg.contains(kinds[0]) {
                c.viol(&key, "a mistake is reported as something else", json!({"mistake": bad, "expected": kinds, "error": dbg}));
            } else if start < ws || end > we || (end == start && we > ws) || exact && (start, end) != (ws, we) {
                c.viol(&key, "the span does not point at the mistake", json!({"mistake": bad, "mistake at": [ws, we], "span": [start, end], "error": dbg}));
            }
        }
    }
}

fn c12(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let mut s = any_input(d, r, true);
    if r.pct(8) {
        // deep inside other things
        let n = if r.pct(70) { 30 } else { 90 };
        for _ in 0..1 + r.below(n) {
            let (o, x) = *r.choose(&[("\\sqrt{", "}"), ("\\frac{", "}y"), ("\\left(", "\\right)"), ("x^{", "}"), ("\\overline{", "}"), ("\\begin{matrix}a&", "\\end{matrix}")]);
            s = format!("{o}{s}{x}");
        }
        c.stat("deep formulas");
    }
    let mut cfg = Cfg::random(r);
    let block = r.pct(50);
    cfg.pretty = 0;
    let never = local(&cfg.conv(), &s, block);
    cfg.pretty = 1;
    let always = local(&cfg.conv(), &s, block);
    cfg.pretty = 2;
    let auto = local(&cfg.conv(), &s, block);
    let key = format!("{s:?}|{block}|{}", cfg.json());
    if auto != *(if block { &always } else { &never }) {
        c.viol(&key, "automatic layout is not: pretty for block formulas, compact for inline ones", json!({"auto": auto.short(), "never": never.short(), "always": always.short()}));
        return;
    }
    match (&never, &always) {
        (Outcome::Ok { mathml: a, unknown: u1, undef: d1 }, Outcome::Ok { mathml: b, unknown: u2, undef: d2 }) => {
            c.nontrivial(&key);
            if u1 != u2 || d1 != d2 {
                c.viol(&key, "pretty printing changes the warnings", json!({"compact": never.short(), "pretty": always.short()}));
            }
            match (xml::parse(a), xml::parse(b)) {
                (Ok(x), Ok(y)) => {
                    let y2 = xml::strip_layout(&y);
                    if x != y2 {
                        c.viol(&key, "pretty printing changes more than layout", json!({"compact": a, "pretty": b}));
                        return;
                    }
                    // the indentation: every line which starts an element is indented by depth * unit
                    let unit = if cfg.tab { "\t".to_string() } else { " ".repeat(if cfg.spaces == 0 { 4 } else { cfg.spaces }) };
                    // (the nested wrappers of \raisebox share a line)
                    if s.contains("\\raisebox") {
                        c.stat("indentation not judged");
                    } else if let Err(w) = indent_ok(b, &unit) {
                        c.viol(&key, "the indentation does not show the nesting", json!({"error": w, "pretty": b}));
                    }
                    c.add("lines checked", b.lines().count() as u64);
                }
                _ => c.stat("skipped: not well-formed (C02)"),
            }
            let p = b.clone();
            c.sample(|| json!({"input": s, "pretty": p}));
        }
        (Outcome::Panic(_), Outcome::Panic(_)) => c.stat("skipped: panic"),
        (a, b) if a == b => c.stat("same error"),
        _ => c.viol(&key, "pretty printing changes the outcome", json!({"compact": never.short(), "pretty": always.short()})),
    }
}

/// Every line break which is layout is followed by one unit of indentation per open element.
fn indent_ok(s: &str, unit: &str) -> Result<(), String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut stack: Vec<&str> = Vec::new();
    while i < b.len() {
        if b[i] == b'<' {
            let end = s[i..].find('>').map(|x| i + x).ok_or("unterminated tag")?;
            let tag = &s[i + 1..end];
            // layout before this tag?
            let before = &s[..i];
            let top = stack.last().copied().unwrap_or("");
            let in_token = matches!(top, "mi" | "mn" | "mo" | "mtext" | "annotation" | "b" | "i" | "em" | "code" | "span" | "s" | "u" | "a");
            if !in_token && !before.is_empty() {
                let depth = stack.len() - tag.starts_with('/') as usize;
                if let Some(nl) = before.rfind('\n') {
                    let ind = &before[nl + 1..];
                    if ind.chars().all(|c| c == ' ' || c == '\t') && ind != unit.repeat(depth) {
                        return Err(format!("depth {depth}, indentation {ind:?} before <{tag}>"));
                    }
                }
            }
            if let Some(n) = tag.strip_prefix('/') {
                if stack.pop() != Some(n) {
                    return Err("mismatched tags".into());
                }
            } else if !tag.ends_with('/') {
                stack.push(tag.split(' ').next().unwrap());
            }
            i = end + 1;
        } else {
            i += 1;
        }
    }
    Ok(())
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&#x27;"),
            c => o.push(c),
        }
    }
    o
}

fn c13(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let _ = esc;
    let s = any_input(d, r, true);
    let mut cfg = Cfg::random(r);
    cfg.pretty = 0;
    let block = r.pct(50);
    cfg.xmlns = false;
    cfg.annotation = false;
    let plain = local(&cfg.conv(), &s, block);
    let other = local(&cfg.conv(), &s, !block);
    let key = format!("{s:?}|{block}|{}", cfg.json());
    let Outcome::Ok { mathml: base, .. } = &plain else {
        if plain != other && !s.contains("\\mathchoice") {
            c.viol(&key, "the display mode changes the error", json!({"one": plain.short(), "other": other.short()}));
        }
        for (x, a) in [(true, false), (false, true)] {
            cfg.xmlns = x;
            cfg.annotation = a;
            if local(&cfg.conv(), &s, block) != plain {
                c.viol(&key, "an envelope option changes the outcome", json!({"xmlns": x, "annotation": a, "plain": plain.short()}));
            }
        }
        c.stat("error");
        return;
    };
    let open = if block { "<math display=\"block\">" } else { "<math>" };
    let Some(inner) = base.strip_prefix(open).and_then(|x| x.strip_suffix("</math>")) else {
        c.viol(&key, "the root element is not as asked for", json!({"block": block, "output": base}));
        return;
    };
    c.nontrivial(&key);
    let oopen = if !block { "<math display=\"block\">" } else { "<math>" };
    // (the formula itself may differ: spacing and \mathchoice follow the style)
    match &other {
        Outcome::Ok { mathml, .. } => {
            if mathml.strip_prefix(oopen).and_then(|x| x.strip_suffix("</math>")).is_none() {
                c.viol(&key, "the root element is not as asked for", json!({"block": !block, "output": mathml}));
            }
        }
        // which alternative is looked at depends on the style
        _ if s.contains("\\mathchoice") || has_def(&s) => c.stat("outcome depends on the style"),
        _ => c.viol(&key, "the display mode changes the outcome", json!({"one": base, "other": other.short()})),
    }
    for (x, a) in [(true, false), (false, true), (true, true)] {
        cfg.xmlns = x;
        cfg.annotation = a;
        let got = local(&cfg.conv(), &s, block);
        let Outcome::Ok { mathml, .. } = &got else {
            c.viol(&key, "an envelope option changes the outcome", json!({"xmlns": x, "annotation": a, "got": got.short()}));
            continue;
        };
        c.stat("envelopes checked");
        let Ok(e) = xml::parse(mathml) else {
            c.stat("skipped: not well-formed (C02)");
            continue;
        };
        let mut want: Vec<(&str, &str)> = vec![];
        if x {
            want.push(("xmlns", "http://www.w3.org/1998/Math/MathML"));
        }
        if block {
            want.push(("display", "block"));
        }
        let mut have: Vec<(&str, &str)> = e.attrs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        want.sort();
        have.sort();
        if want != have || e.name != "math" {
            c.viol(&key, "the attributes of the root element are not as asked for", json!({"want": want, "output": mathml}));
        }
        let Ok(b) = xml::parse(base) else { continue };
        if a {
            let els = e.els();
            let ok = els.len() == 1 && els[0].name == "semantics" && els[0].attrs.is_empty() && els[0].els().len() == 2;
            if !ok {
                c.viol(&key, "no <semantics> with two children", json!({"output": mathml}));
                continue;
            }
            let (p, an) = (els[0].els()[0], els[0].els()[1]);
            if an.name != "annotation" || an.attrs != vec![("encoding".to_string(), "application/x-tex".to_string())] || an.text() != s {
                c.viol(&key, "the annotation is not the source", json!({"annotation": an.text(), "source": s}));
            }
            // the presentation child: the formula itself, wrapped in an <mrow> unless it is one element
            let same = (p.name == "mrow" && p.attrs.is_empty() && p.kids == b.kids) || (b.kids.len() == 1 && b.els().len() == 1 && *p == *b.els()[0]);
            if !same {
                c.viol(&key, "the annotation changes the formula", json!({"plain": base, "output": mathml}));
            }
        } else if e.kids != b.kids {
            c.viol(&key, "the namespace option changes the formula", json!({"plain": base, "output": mathml}));
        }
    }
    let b = base.clone();
    c.sample(|| json!({"input": s, "output": b}));
}

fn c14(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let g = Gen { d };
    let t = g.formula(r);
    let base = layout(&t, Lay::Min, r);
    let mut cfg = Cfg::random(r);
    cfg.max_exp = None;
    cfg.annotation = false;
    cfg.ignore_unknown = false;
    let block = r.pct(50);
    let k = cfg.conv();
    let want = local(&k, &base, block);
    if let Outcome::Panic(p) = &want {
        c.stat("skipped: panic");
        if std::env::var("MCMON_SHOW_PANIC").is_ok() {
            println!("{p} {base} {cfg:?}");
        }
        return;
    }
    c.stat(if want.is_ok() { "valid formulas" } else { "formulas with an error" });
    if c.verbose && want.is_err() {
        println!("ERR {} {base}", want.short());
    }
    for lay in [Lay::Spaced, Lay::Wild, Lay::Wild] {
        let mut s = layout(&t, lay, r);
        if r.pct(50) {
            s = format!("{}{s}{}", wild_ws(r), wild_ws(r));
        }
        if !base.contains('\t') && r.pct(30) {
            s = s.replace('\t', "\x0c");
        }
        let got = local(&k, &s, block);
        let key = format!("{base:?} | {s:?} | {}", cfg.json());
        let same = match (&want, &got) {
            (Outcome::Err { .. }, Outcome::Err { .. }) => want.err_kind() == got.err_kind(),
            (a, b) => a == b,
        };
        c.nontrivial(&key);
        c.stat("layouts compared");
        if !same {
            c.viol(&key, "white space or comments between tokens change the result", json!({"compact": want.short(), "spaced": got.short()}));
            return;
        }
        c.sample(|| json!({"compact": base, "spaced": s}));
    }
}

/// The result without the attributes for the space around operators.
pub fn no_spacing(o: &Outcome) -> String {
    let mut s = o.short();
    for at in [" lspace=\"", " rspace=\"", " style=\"padding-left:"] {
        while let Some(i) = s.find(at) {
            let j = i + at.len() + s[i + at.len()..].find('"').unwrap_or(0) + 1;
            s.replace_range(i..j, "");
        }
    }
    // and without layout and without plain groups
    let mut lines: String = s.lines().map(|l| l.trim_start()).collect();
    for g in ["<mrow>", "</mrow>"] {
        lines = lines.replace(g, "");
    }
    lines
}

fn c15(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let g = Gen { d };
    let t = g.formula(r);
    if !t.contains(&T::Ob) {
        c.stat("no optional braces");
        return;
    }
    let base = layout(&t, Lay::Min, r);
    let mut cfg = Cfg::random(r);
    cfg.max_exp = None;
    cfg.annotation = false;
    cfg.ignore_unknown = false;
    let block = r.pct(50);
    // The space around a relation or punctuation which is the only thing in its place has no
    // effect, and the converter doesn't write it down in the same way with and without braces.
    let multi = t.iter().any(|t| matches!(t, T::W(n) if MULTI.contains(&n.as_str())));
    let k = cfg.conv();
    let want = local(&k, &base, block);
    if !want.is_ok() {
        c.stat("skipped: not a valid formula");
        return;
    }
    for lay in [Lay::NoBraces, Lay::MixedBraces, Lay::MixedBraces] {
        let s = layout(&t, lay, r);
        let got = local(&k, &s, block);
        let key = format!("{base:?} | {s:?} | {}", cfg.json());
        c.nontrivial(&key);
        c.stat("layouts compared");
        let same = if multi { no_spacing(&want) == no_spacing(&got) } else { want == got };
        if !same {
            c.viol(&key, "braces around a single-token argument change the result", json!({"braces": want.short(), "other": got.short()}));
            return;
        }
        c.sample(|| json!({"braces": base, "other": s}));
    }
}

fn c16(d: &Data, c: &mut Ctx, r: &mut Rng) {
    // a valid formula with an unknown command in place of some of its atoms
    let g = Gen { d };
    let mut t = g.formula(r);
    if r.pct(25) {
        // other warnings do not get in the way
        for _ in 0..1 + r.below(2) {
            let i = *r.choose(&[0, t.len()]);
            t.insert(i, a(*r.choose(&["\\eqref{nowhere}", "\\eqref{é}"])));
        }
    }
    let names = ["qqa", "unknowncmd", "Foo", "xyzzy", "é", "ZZ", "averyveryverylongnameofacommandwhichisnotdefinedanywhere"];
    let mut used: Vec<String> = Vec::new();
    let mut cfg = Cfg::random(r);
    cfg.max_exp = None;
    cfg.pretty = 0;
    cfg.annotation = false;
    let block = r.pct(50);
    cfg.ignore_unknown = true;
    let k_ign = cfg.conv();
    cfg.ignore_unknown = false;
    let k_err = cfg.conv();
    let clean = layout(&t, Lay::Min, r);
    if clean.contains("\\mathchoice") {
        // shows only one of its alternatives
        return;
    }
    let w_ign = local(&k_ign, &clean, block);
    let w_err = local(&k_err, &clean, block);
    let key0 = format!("{clean:?}|{}", cfg.json());
    if matches!(w_err, Outcome::Panic(_)) {
        c.stat("skipped: panic");
        return;
    }
    if w_ign != w_err {
        c.viol(&key0, "the option for unknown commands matters without unknown commands", json!({"ignored": w_ign.short(), "reported": w_err.short()}));
        return;
    }
    let Outcome::Ok { unknown, .. } = &w_err else {
        c.stat("skipped: not a valid formula");
        return;
    };
    if *unknown {
        c.viol(&key0, "warning about unknown commands without any", json!({"output": w_err.short()}));
    }
    // where a stand-in atom (a letter no alphabet touches) may stand, an unknown command may too
    let spots: Vec<usize> = t.iter().enumerate().filter(|(_, x)| matches!(x, T::A(s) if s.len() == 1 && s.chars().all(|c| c.is_ascii_alphabetic()))).map(|(i, _)| i).collect();
    if spots.is_empty() {
        return;
    }
    let n = 1 + r.below(3);
    let mut stand = t.clone();
    for _ in 0..n {
        let i = *r.choose(&spots);
        let nm = r.pick(&names);
        stand[i] = a("я");
        t[i] = w(nm);
    }
    for (i, x) in stand.iter().enumerate() {
        if *x == a("я") {
            if let T::W(n) = &t[i] {
                used.push(n.clone());
            }
        }
    }
    let s = layout(&t, Lay::Min, r);
    let s0 = layout(&stand, Lay::Min, r);
    let o_s = local(&k_err, &s0, block);
    let key = format!("{s:?}|{}", cfg.json());
    let Outcome::Ok { mathml: m0, undef: u0, .. } = &o_s else {
        c.stat("skipped: no stand-in possible");
        return;
    };
    match local(&k_ign, &s, block) {
        Outcome::Ok { mathml, unknown, undef } => {
            c.nontrivial(&key);
            c.add("unknown commands", used.len() as u64);
            if !unknown {
                c.viol(&key, "no warning about unknown commands", json!({"output": mathml}));
            }
            if undef != *u0 {
                c.viol(&key, "unknown commands change the warning about undefined references", json!({"output": mathml}));
            }
            let (Ok(e), Ok(e0)) = (xml::parse(&mathml), xml::parse(m0)) else { return };
            let marks: Vec<String> = e.find_all("merror").iter().filter(|m| m.attr("class") == Some("math-core-unknown-cmd")).map(|m| m.text()).collect();
            let want: Vec<String> = used.iter().map(|u| format!("\\{u}")).collect();
            // \mathchoice shows only one of its branches; nothing else drops content
            let mut a1 = marks.clone();
            a1.dedup();
            if !clean.contains("\\mathchoice") && marks != want {
                let (mut a, mut b) = (marks.clone(), want.clone());
                a.sort();
                b.sort();
                if a != b {
                    c.viol(&key, "not exactly the unknown commands are marked", json!({"marked": marks, "unknown": want, "output": mathml}));
                }
            }
            // the rest of the formula is untouched
            let strip = |e: &xml::El| {
                let mut v = String::new();
                e.walk(&mut |x| {
                    if x.els().is_empty() && x.name != "mspace" && x.name != "mrow" {
                        let t = x.text();
                        if !used.iter().any(|u| t.strip_prefix('\\') == Some(u)) {
                            v.extend(t.chars().filter(|c| *c != 'я'));
                        }
                    }
                });
                v
            };
            if strip(&e) != strip(&e0) {
                c.viol(&key, "an unknown command changes the rest of the formula", json!({"stand-in": m0, "output": mathml}));
            }
            c.sample(|| json!({"input": s, "output": mathml}));
        }
        Outcome::Panic(_) => c.stat("skipped: panic"),
        o => c.viol(&key, "an unknown command is an error although it should be shown", json!({"got": o.short()})),
    }
    match local(&k_err, &s, block) {
        Outcome::Err { start, end, msg: dbg } => {
            let first = format!("\\{}", used[0]);
            if !dbg.contains("Unknown command") || s.get(start..end) != Some(&first) {
                c.viol(&key, "an unknown command is not reported at its place", json!({"error": dbg, "first unknown": first}));
            }
        }
        Outcome::Panic(_) => c.stat("skipped: panic"),
        o => c.viol(&key, "an unknown command is not reported", json!({"got": o.short()})),
    }
}

/// The environments there are.
const REAL_ENVS: [&str; 23] = [
    "array", "darray", "subarray", "align", "align*", "aligned", "equation", "equation*", "gather", "gather*",
    "gathered", "multline", "multline*", "matrix", "pmatrix", "bmatrix", "Bmatrix", "vmatrix", "Vmatrix", "cases", "dcases",
    "rcases", "drcases",
];

fn c30(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let g = Gen { d };
    let mut t = g.formula(r);
    let mut cfg = Cfg::random(r);
    cfg.max_exp = None;
    let block = r.pct(50);
    let k = cfg.conv();
    let clean = layout(&t, Lay::Min, r);
    if !local(&k, &clean, block).is_ok() {
        c.stat("skipped: not a valid formula");
        return;
    }
    // \mathchoice does not look into the alternatives it does not show
    let choice = clean.contains("\\mathchoice");
    let is_open = |x: &T| matches!(x, T::Ob) || matches!(x, T::A(s) if s == "{" || s.starts_with("\\begin{")) || matches!(x, T::W(s) if s == "left");
    let is_close = |x: &T| matches!(x, T::Cb) || matches!(x, T::A(s) if s == "}" || s.starts_with("\\end{")) || matches!(x, T::W(s) if s == "right");
    let opens: Vec<usize> = (0..t.len()).filter(|i| is_open(&t[*i])).collect();
    let closes: Vec<usize> = (0..t.len()).filter(|i| is_close(&t[*i])).collect();
    let what: String;
    match r.below(10) {
        0 if !opens.is_empty() => {
            let i = *r.choose(&opens);
            what = format!("removed {:?}", t[i]);
            if t[i] == w("left") && i + 1 < t.len() {
                t.remove(i + 1);
            }
            t.remove(i);
        }
        1 | 2 if !closes.is_empty() => {
            let i = *r.choose(&closes);
            what = format!("removed {:?}", t[i]);
            if t[i] == w("right") && i + 1 < t.len() {
                t.remove(i + 1);
            }
            t.remove(i);
        }
        3 => {
            let i = r.below(t.len() + 1);
            t.insert(i, a("}"));
            what = "added }".into();
        }
        4 => {
            let i = r.below(t.len() + 1);
            t.insert(i, a("{"));
            what = "added {".into();
        }
        5 => {
            let i = r.below(t.len() + 1);
            let e = format!("\\end{{{}}}", r.choose(&REAL_ENVS));
            what = format!("added {e}");
            t.insert(i, a(&e));
        }
        6 => {
            // at the top level, so that a delimiter follows
            t.push(w("right"));
            t.push(a(")"));
            what = "added \\right) at the end".into();
        }
        // (the argument of these is inserted as it is, so \left and \right need not pair up in it)
        7 if closes.len() >= 2 && !["\\pod", "\\pmod", "\\bra", "\\ket", "\\Bra", "\\set", "\\Set"].iter().any(|k| clean.contains(k)) => {
            // exchange two neighbouring closers of different kinds
            let mut done = None;
            for p in closes.windows(2) {
                let (i, j) = (p[0], p[1]);
                let same = match (&t[i], &t[j]) {
                    (T::A(x), T::A(y)) => x == y,
                    (T::W(_), T::W(_)) => true,
                    (T::Cb, T::Cb) => true,
                    (T::Cb, T::A(x)) | (T::A(x), T::Cb) => x == "}",
                    _ => false,
                };
                if j == i + 1 && !same && !matches!(t[i], T::W(_)) {
                    done = Some((i, j));
                    break;
                }
                if j == i + 2 && t[i] == w("right") && !same {
                    done = Some((i, j));
                    break;
                }
            }
            let Some((i, j)) = done else {
                c.stat("nothing to exchange");
                return;
            };
            if j == i + 2 {
                let x = t.remove(j);
                t.insert(i, x);
            } else if matches!(t[j], T::W(_)) && j + 1 < t.len() {
                // } \right ) -> \right ) }
                let x = t.remove(i);
                t.insert(i + 2, x);
            } else {
                t.swap(i, j);
            }
            what = "exchanged two closers".into();
        }
        8 if !closes.is_empty() => {
            let ends: Vec<usize> = closes.iter().copied().filter(|i| matches!(&t[*i], T::A(s) if s.starts_with("\\end"))).collect();
            if ends.is_empty() {
                return;
            }
            let i = *r.choose(&ends);
            let new = format!("\\end{{{}}}", r.choose(&REAL_ENVS));
            if t[i] == a(&new) {
                return;
            }
            what = format!("{:?} replaced by {new}", t[i]);
            t[i] = a(&new);
        }
        9 => {
            // the whole formula inside an environment closed under another name
            let (x, y) = (*r.choose(&REAL_ENVS), *r.choose(&REAL_ENVS));
            if x == y || clean.contains("\\begin{") {
                return;
            }
            let spec = match x {
                "array" | "darray" => "{cc}",
                "subarray" => "{c}",
                _ => "",
            };
            what = format!("wrapped in \\begin{{{x}}}…\\end{{{y}}}");
            t.insert(0, a(&format!("\\begin{{{x}}}{spec}")));
            t.push(a(&format!("\\end{{{y}}}")));
        }
        _ => return,
    }
    if choice && what != "added }" && what != "added {" {
        return;
    }
    // optional braces are written here, so the count is really off
    let s = layout(&t, Lay::Min, r);
    let key = format!("{s:?}|{block}|{}", cfg.json());
    c.nontrivial(&key);
    c.stat(what.split(' ').next().unwrap());
    match local(&k, &s, block) {
        Outcome::Ok { mathml, .. } => c.viol(&key, "a formula with unbalanced groups is accepted", json!({"balanced": clean, "change": what, "output": mathml})),
        Outcome::Panic(_) => c.stat("skipped: panic"),
        Outcome::Err { .. } => {
            c.stat("rejected");
            c.sample(|| json!({"balanced": clean, "change": what, "input": s}));
        }
    }
}

#[allow(dead_code)]
fn _unused(_: MathCoreConfig) {}
