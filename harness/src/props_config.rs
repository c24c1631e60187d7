//! C24: a configuration which is read from a file means what the same options mean in code.
use crate::conv::{self, Cfg, Outcome};
use crate::ctx::Ctx;
use crate::gen_::Data;
use crate::rng::Rng;
use math_core::{LatexToMathML, MathCoreConfig};
use serde_json::json;

pub fn case(d: &Data, prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    if prop != "C24" {
        return false;
    }
    if r.pct(10) {
        invalid(c, r)
    } else if r.pct(8) {
        names(c, r)
    } else {
        valid(d, c, r)
    }
    true
}

/// The options of a configuration file, as the command line tool has them: next to others.
#[derive(serde::Deserialize, Default)]
#[serde(default, rename_all = "kebab-case")]
struct Flat {
    #[serde(flatten)]
    math_core: MathCoreConfig,
}

#[derive(Clone)]
struct Opt {
    cfg: Cfg,
    /// `Some(n)`: spaces (0 as well), if not a tab.
    indent: Option<usize>,
    css: Option<String>,
}

impl Opt {
    fn code(&self) -> MathCoreConfig {
        let mut m = self.cfg.build();
        if !self.cfg.tab {
            if let Some(n) = self.indent {
                m.indentation = math_core::Indentation::Spaces(n);
            }
        }
        if let Some(c) = &self.css {
            m.css_classes.unknown_command = c.clone().into();
        }
        m
    }
    fn changed(&self) -> usize {
        let k = &self.cfg;
        (k.pretty > 0) as usize + !k.macros.is_empty() as usize + k.xmlns as usize + k.ignore_unknown as usize
            + k.annotation as usize + k.unreliable as usize + k.global_group as usize + k.subst_never as usize + k.tab as usize
            + self.indent.is_some() as usize + self.css.is_some() as usize + k.max_exp.is_some() as usize
            + !k.id_prefix.is_empty() as usize
    }
}

const DEFS: &[&str] = &[
    "x+1", "\\mathrm{d}", "\\frac{#1}{#2}", "#1#1", "\\qa", "\\qb{u}", "\\alpha_{\\qc}", "", "=", "\\def\\qz{z}\\qz",
    "\\mathbb{R}", "a\\\\b", "\"quoted\" 'too'", "é\u{1d54f}\\,", 
];

/// Definitions which are rejected, unless unknown commands are ignored.
const BAD: &[&str] = &["\\unknowncommand#1", "{#1", "\\nosuch", "#3", "}"];

fn options(r: &mut Rng) -> Opt {
    let mut cfg = Cfg { global_group: r.pct(50), annotation: r.pct(40), xmlns: r.pct(40), unreliable: r.pct(50), ..Cfg::default() };
    cfg.pretty = r.below(3) as u8;
    cfg.ignore_unknown = r.pct(50);
    cfg.subst_never = r.pct(50);
    cfg.tab = r.pct(25);
    if r.pct(40) {
        cfg.max_exp = Some(*r.choose(&[0, 1, 2, 3, 5, 8, 20, 999, 1000, 1001, 50]));
    }
    if r.pct(40) {
        cfg.id_prefix = (*r.choose(&["p-", "", "a\"b", "π", "\\x", "'", "x y"])).into();
    }
    if r.pct(60) {
        let names = ["qa", "qb", "qc", "d", "R", "é", "sum", "qe", "Ω", "0", "q1"];
        for _ in 0..=r.below(4) {
            let n = *r.choose(&names);
            if !cfg.macros.iter().any(|m| m.0 == n) {
                let from = if r.pct(8) { BAD } else { DEFS };
                cfg.macros.push((n.into(), (*r.choose(from)).into()));
            }
        }
    }
    let indent = if r.pct(40) { Some(*r.choose(&[0, 1, 2, 3, 4, 7, 13])) } else { None };
    let css = if r.pct(40) { Some((*r.choose(&["err", "unknown-cmd", "a b", "ü", ""])).into()) } else { None };
    Opt { cfg, indent, css }
}

fn basic(s: &str, json: bool, r: &mut Rng) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if !c.is_ascii() && r.pct(30) => {
                if json {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{u:04x}"));
                    }
                } else {
                    o.push_str(&format!("\\U{:08x}", c as u32));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn lit(s: &str, r: &mut Rng) -> String {
    if !s.contains('\'') && r.pct(60) { format!("'{s}'") } else { basic(s, false, r) }
}

/// Key and value; the values as TOML.
fn items(o: &Opt, json: bool, r: &mut Rng) -> Vec<(&'static str, String)> {
    let k = &o.cfg;
    let mut v: Vec<(&'static str, String)> = vec![];
    // An option with its default is sometimes left out.
    let mut s = |r: &mut Rng, json: bool, x: &str| if json { basic(x, true, r) } else { lit(x, r) };
    if k.pretty > 0 || r.pct(30) {
        v.push(("pretty-print", s(r, json, ["never", "always", "auto"][k.pretty as usize])));
    }
    for (n, b) in [("xml-namespace", k.xmlns), ("ignore-unknown-commands", k.ignore_unknown), ("annotation", k.annotation),
        ("allow-unreliable-rendering", k.unreliable), ("global-group", k.global_group)] {
        if b || r.pct(30) {
            v.push((n, b.to_string()));
        }
    }
    if k.subst_never || r.pct(30) {
        v.push(("unicode-substitution", s(r, json, if k.subst_never { "never" } else { "conventional" })));
    }
    if k.tab {
        v.push(("indentation", s(r, json, "tab")));
    } else if let Some(n) = o.indent {
        v.push(("indentation", if !json && n == 13 && r.pct(50) { "0xd".into() } else { n.to_string() }));
    } else if r.pct(30) {
        v.push(("indentation", "4".into()));
    }
    if let Some(m) = k.max_exp {
        v.push(("max-expansions", m.to_string()));
    } else if r.pct(30) {
        v.push(("max-expansions", "1000".into()));
    }
    if !k.id_prefix.is_empty() || r.pct(30) {
        v.push(("id-prefix", s(r, json, &k.id_prefix)));
    }
    r.shuffle(&mut v);
    v
}

fn key(s: &str, r: &mut Rng) -> String {
    if !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && r.pct(60) { s.into() } else { lit(s, r) }
}

fn toml_text(o: &Opt, r: &mut Rng) -> String {
    let mut head = String::new();
    let mut tail = String::new();
    let ws = |r: &mut Rng| *r.choose(&["", " ", "\t"]);
    for (k, v) in items(o, false, r) {
        if r.pct(10) {
            head.push_str("# a comment\n\n");
        }
        let k = key(k, r);
        head.push_str(&format!("{k}{}={}{v}{}\n", ws(r), ws(r), if r.pct(10) { " # x" } else { "" }));
    }
    if !o.cfg.macros.is_empty() || r.pct(20) {
        let m = &o.cfg.macros;
        match r.below(3) {
            0 if !m.is_empty() => {
                for (n, d) in m {
                    head.push_str(&format!("macros.{} = {}\n", key(n, r), lit(d, r)));
                }
            }
            1 => {
                let l: Vec<String> = m.iter().map(|(n, d)| format!("{} = {}", key(n, r), lit(d, r))).collect();
                head.push_str(&format!("macros = {{{}}}\n", l.join(", ")));
            }
            _ => {
                tail.push_str("[macros]\n");
                for (n, d) in m {
                    tail.push_str(&format!("{} = {}\n", key(n, r), lit(d, r)));
                }
            }
        }
    }
    if o.css.is_some() || r.pct(20) {
        let v = o.css.as_ref().map(|c| lit(c, r));
        match (r.below(3), v) {
            (0, Some(v)) => head.push_str(&format!("css-classes.unknown-command = {v}\n")),
            (1, Some(v)) => head.push_str(&format!("css-classes = {{ unknown-command = {v} }}\n")),
            (_, v) => {
                let t = format!("[css-classes]\n{}", v.map(|v| format!("unknown-command = {v}\n")).unwrap_or_default());
                tail = if r.pct(50) { format!("{tail}{t}") } else { format!("{t}{tail}") };
            }
        }
    }
    let s = format!("{head}{tail}");
    if r.pct(10) { s.replace('\n', "\r\n") } else { s }
}

fn json_text(o: &Opt, r: &mut Rng) -> String {
    let mut v: Vec<(String, String)> = items(o, true, r).into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    if !o.cfg.macros.is_empty() || r.pct(20) {
        let l: Vec<String> = o.cfg.macros.iter().map(|(n, d)| format!("{}:{}", basic(n, true, r), basic(d, true, r))).collect();
        v.push(("macros".into(), format!("{{{}}}", l.join(", "))));
    }
    if o.css.is_some() || r.pct(20) {
        v.push(("css-classes".into(), match &o.css {
            Some(c) => format!("{{\"unknown-command\":{}}}", basic(c, true, r)),
            None => "{}".into(),
        }));
    }
    r.shuffle(&mut v);
    let l: Vec<String> = v.into_iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    format!("{{{}}}", l.join(",\n"))
}

/// Formulas whose result depends on the options.
const SHOW: &[&str] = &[
    "\\sum_{i=1}^n \\frac{a}{b}", "\\begin{pmatrix}a&b\\\\c&d\\end{pmatrix}", "\\nosuchcommand x", "\\coloneqq\\Coloneq\\dashcolon",
    "\\begin{equation}x\\label{eq}\\end{equation}\\eqref{eq}", "\\begin{align}x\\tag{k}\\label{k}\\\\y\\end{align}", "\\cancel{x}\\phase{y}",
    "\\angl{n}\\xcancel{z}\\boxed{w}", "\\qa", "\\qb{1}{2}", "\\qc", "\\d x\\R", "\\é\\sum", "\\Ω", "\\0\\q1", "\\newcommand\\w{ww}\\w",
    "\\w", "\\global\\def\\v{vv}\\v", "\\v", "\\text{\\textsc{a}\\sout{b}\\textsf c}", "<&", "\\mathbf{x}\\hspace{1em}", "\\eqref{nowhere}",
];

fn outcomes(cfg: MathCoreConfig, f: &[(String, bool)]) -> Vec<String> {
    let mut k: LatexToMathML = match LatexToMathML::new(cfg) {
        Ok(k) => k,
        Err((e, i, d)) => {
            return vec![format!("configuration rejected: {}..{} {} in {i} {d:?}", e.0.start, e.0.end, e.error_message())];
        }
    };
    let mut v: Vec<String> = f.iter().map(|(s, b)| conv::local(&k, s, *b).short()).collect();
    v.extend(f.iter().map(|(s, b)| conv::global(&mut k, s, *b).short()));
    v.push(match conv::all(&k, f) {
        Ok(o) => o.iter().map(Outcome::short).collect::<Vec<_>>().join("\n"),
        Err(e) => e,
    });
    v
}

/// A formula with exactly n expansions.
fn expansions(n: usize) -> String {
    format!("\\def\\one{{1}}{}", "\\one ".repeat(n))
}

fn valid(d: &Data, c: &mut Ctx, r: &mut Rng) {
    let o = options(r);
    let mut f: Vec<(String, bool)> = vec![];
    for _ in 0..6 {
        let s = if r.pct(75) { (*r.choose(SHOW)).to_string() } else { r.choose(&d.corpus).clone() };
        f.push((s, r.pct(50)));
    }
    if let Some(m) = o.cfg.max_exp {
        if m <= 20 || m <= 1001 && r.pct(10) {
            f.push((expansions(m as usize), false));
            f.push((expansions(m as usize + 1), false));
        }
    } else if r.pct(5) {
        f.push((expansions(1000), false));
        f.push((expansions(1001), false));
    }
    let want = outcomes(o.code(), &f);
    if want.iter().any(|s| s.starts_with("PANIC")) {
        return;
    }
    let mut texts: Vec<(&str, String, Result<MathCoreConfig, String>)> = vec![];
    let t = toml_text(&o, r);
    texts.push(("TOML", t.clone(), toml::from_str::<MathCoreConfig>(&t).map_err(|e| e.to_string())));
    texts.push(("TOML, as in the command line tool", t.clone(), toml::from_str::<Flat>(&t).map(|f| f.math_core).map_err(|e| e.to_string())));
    let t = json_text(&o, r);
    texts.push(("JSON", t.clone(), serde_json::from_str::<MathCoreConfig>(&t).map_err(|e| e.to_string())));
    // Written by the library, read by the library.
    if let Ok(t) = serde_json::to_string(&o.code()) {
        texts.push(("JSON written by the library", t.clone(), serde_json::from_str::<MathCoreConfig>(&t).map_err(|e| e.to_string())));
    } else {
        c.viol("", "cannot be written as JSON", json!({"options": o.cfg.json()}));
    }
    match toml::to_string(&o.code()) {
        Ok(t) => texts.push(("TOML written by the library", t.clone(), toml::from_str::<MathCoreConfig>(&t).map_err(|e| e.to_string()))),
        Err(e) => c.viol("", "cannot be written as TOML", json!({"options": o.cfg.json(), "error": e.to_string()})),
    }
    let rejected = want.len() == 1;
    c.stat(if rejected { "definitions rejected" } else { "configurations" });
    c.max("options changed", o.changed() as u64);
    for (what, t, got) in texts {
        let m = match got {
            Ok(m) => m,
            Err(e) => {
                c.viol(&t, &format!("not read: {what}"), json!({"error": e, "options": o.cfg.json()}));
                continue;
            }
        };
        c.stat(what);
        if o.changed() > 0 {
            c.nontrivial(&t);
        }
        // Sorted when a format has no order: the place of a rejected definition is not compared.
        let got = outcomes(m, &f);
        let same = if rejected && got.len() == 1 { true } else { got == want };
        if !same {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
            c.viol(&t, &format!("differs: {what}"), json!({"options": o.cfg.json(), "indent": o.indent, "css": o.css,
                "formulas": f, "call": i, "in code": want.get(i), "read": got.get(i)}));
            return;
        }
    }
    c.sample(|| json!({"formulas": f, "options": o.cfg.json()}));
}

fn invalid(c: &mut Ctx, r: &mut Rng) {
    let bools = ["xml-namespace", "ignore-unknown-commands", "annotation", "allow-unreliable-rendering", "global-group"];
    // key, value as JSON
    let (k, v): (&str, String) = match r.below(8) {
        0 => (*r.choose(&bools), (*r.choose(&["1", "\"true\"", "0", "[]", "\"yes\"", "{}", "1.5"])).into()),
        1 => ("pretty-print", (*r.choose(&["true", "\"Always\"", "\"sometimes\"", "1", "\"\"", "\"ALWAYS\"", "[\"auto\"]"])).into()),
        2 => ("unicode-substitution", (*r.choose(&["true", "\"always\"", "\"Never\"", "0", "\"aggressive\""])).into()),
        3 => ("indentation", (*r.choose(&["-1", "\"spaces\"", "\"Tab\"", "true", "1.5", "\"4\"", "[4]", "\"\""])).into()),
        4 => ("max-expansions", (*r.choose(&["-1", "4294967296", "\"10\"", "1.5", "true", "[1]"])).into()),
        5 => ("id-prefix", (*r.choose(&["1", "true", "[\"a\"]", "{}"])).into()),
        6 => ("macros", (*r.choose(&["{\"a\": 1}", "\"a\"", "1", "{\"a\": [\"x\"]}", "{\"a\": true}"])).into()),
        _ => ("css-classes", (*r.choose(&["\"a\"", "{\"unknown-command\": 1}", "1", "{\"unknown-command\": true}"])).into()),
    };
    let t = format!("{{\"{k}\": {v}}}");
    let tv = v.replace("\": ", "\" = ");
    let t2 = format!("{k} = {tv}\n");
    c.nontrivial(&t);
    c.stat("invalid values");
    if serde_json::from_str::<MathCoreConfig>(&t).is_ok() {
        c.viol(&t, "invalid value accepted", json!({"format": "JSON"}));
    }
    if toml::from_str::<MathCoreConfig>(&t2).is_ok() {
        c.viol(&t2, "invalid value accepted", json!({"format": "TOML"}));
    }
    if toml::from_str::<Flat>(&t2).is_ok() {
        c.viol(&t2, "invalid value accepted", json!({"format": "TOML, flattened"}));
    }
}

/// The names of macros: one character, or ASCII letters only. Any other makes the configuration invalid, and the
/// error says which definition it is.
fn names(c: &mut Ctx, r: &mut Rng) {
    const CH: &[char] = &[
        'a', 'b', 'z', 'A', 'Q', 'Z', 'é', 'Ω', '0', '1', '9', '@', '*', '-', '_', ' ', '\\', '{', '\u{1d54f}', 'ı', 'K', '[', '`', '\n',
        '\t', '\u{e000}', 'Ａ', '\'', '\u{301}',
    ];
    let n = *r.choose(&[0, 1, 1, 2, 2, 3, 4, 7]);
    let letters_only = r.pct(40);
    let name: String = (0..n)
        .map(|_| if letters_only || r.pct(60) { (*r.choose(b"abcxyzABXYZ")) as char } else { *r.choose(CH) })
        .collect();
    let valid = name.chars().count() == 1 || !name.is_empty() && name.bytes().all(|b| b.is_ascii_alphabetic());
    let mut cfg = Cfg::default();
    let mut l: Vec<(String, String)> = vec![];
    for (i, q) in ["qa", "qb", "qc"].iter().enumerate() {
        if r.pct(50) {
            l.push((q.to_string(), format!("u_{i}")));
        }
    }
    if l.iter().any(|m| m.0 == name) {
        return;
    }
    let at = r.below(l.len() + 1);
    l.insert(at, (name.clone(), "\\mathbf{v}^w".into()));
    cfg.macros = l;
    let key = format!("macro name {name:?}");
    c.nontrivial(&key);
    c.stat("macro names");
    let k = match conv::guarded(|| LatexToMathML::new(cfg.build())) {
        Err(p) => return c.viol(&key, "panic", json!({ "panic": p })),
        Ok(Err((e, i, d))) => {
            if valid {
                c.viol(&key, "valid macro name rejected", json!({"error": e.error_message()}));
            } else if i != at || d != "\\mathbf{v}^w" || !e.error_message().contains(name.as_str()) {
                c.viol(&key, "rejected name: the wrong definition is reported", json!({"index": i, "of": at, "definition": d, "error": e.error_message()}));
            }
            return;
        }
        Ok(Ok(k)) => k,
    };
    if !valid {
        return c.viol(&key, "invalid macro name accepted", json!({}));
    }
    // A name which the command syntax can reach, and no command of its own, is used as any other.
    let reach = name.chars().all(|x| x.is_ascii_alphabetic()) || name.chars().all(|x| x.is_alphanumeric());
    if reach {
        let u = conv::local(&k, &format!("x+\\{name} y"), false).short();
        let v = conv::local(&k, "x+{\\mathbf{v}^w} y", false).short();
        let v2 = conv::local(&k, "x+\\mathbf{v}^w y", false).short();
        if u != v && u != v2 {
            c.viol(&key, "macro of this name has no effect", json!({"got": u, "want": v2}));
        }
    }
}
