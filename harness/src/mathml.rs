//! Monitors over the MathML tree: vocabulary (what may appear at all) and structure (arity and
//! nesting rules of MathML Core).
use crate::xml::{El, Node};

const MATHML: &[&str] = &[
    "math", "semantics", "annotation", "mrow", "mi", "mn", "mo", "mtext", "mspace", "mfrac", "msqrt", "mroot", "msub",
    "msup", "msubsup", "munder", "mover", "munderover", "mmultiscripts", "mprescripts", "mtable", "mtr", "mtd",
    "mpadded", "mphantom", "menclose", "merror",
];
const HTML_IN_TEXT: &[&str] = &["b", "i", "em", "code", "span", "s", "u", "a"];

/// A CSS number.
fn num(s: &str) -> bool {
    let s = s.strip_prefix('-').unwrap_or(s);
    let (s, exp) = s.split_once('e').map_or((s, None), |(a, b)| (a, Some(b.strip_prefix(['+', '-']).unwrap_or(b))));
    !s.is_empty()
        && s.chars().all(|c| c.is_ascii_digit() || c == '.')
        && s.chars().filter(|c| *c == '.').count() <= 1
        && s.chars().any(|c| c.is_ascii_digit())
        && exp.is_none_or(|e| !e.is_empty() && e.chars().all(|c| c.is_ascii_digit()))
}

/// A CSS length as the converter may emit it: a number with one of the units it works with, or a
/// bare zero.
pub fn css_len(s: &str) -> bool {
    if s == "0" {
        return true;
    }
    for u in ["rem", "em", "ex", "px", "%", "pt"] {
        if let Some(n) = s.strip_suffix(u) {
            if num(n) {
                return true;
            }
        }
    }
    false
}

fn decl_ok(k: &str, v: &str) -> bool {
    match k {
        "width" | "padding-left" | "padding-right" | "margin-left" | "padding-top" | "padding-bottom" => css_len(v),
        "text-align" => matches!(v, "left" | "right" | "center"),
        "justify-items" => matches!(v, "start" | "end" | "center"),
        "border-left" | "border-right" | "border-top" | "border-bottom" => {
            let p: Vec<&str> = v.split(' ').collect();
            p.len() == 3 && css_len(p[0]) && matches!(p[1], "solid" | "dashed") && p[2] == "currentcolor"
        }
        "color" => v.len() == 7 && v.starts_with('#') && v[1..].chars().all(|c| c.is_ascii_hexdigit()),
        "font-size" => css_len(v) || num(v),
        "font-variant-caps" => v == "small-caps",
        "math-shift" => v == "compact",
        _ => false,
    }
}

fn style_ok(v: &str) -> Result<(), String> {
    let mut any = false;
    for decl in v.split(';') {
        if decl.trim().is_empty() {
            continue;
        }
        any = true;
        let (k, val) = decl.split_once(':').ok_or_else(|| format!("bad style declaration {decl:?}"))?;
        if !decl_ok(k.trim(), val.trim()) {
            return Err(format!("unexpected style declaration {decl:?}"));
        }
    }
    if any { Ok(()) } else { Err("empty style".into()) }
}

/// Check that only the vocabulary of the converter appears: element names, attribute names and
/// attribute values. `id_ok` decides the values of `id` and in-page links.
pub fn vocabulary(e: &El, unknown_class: &str, id_prefix: &str, in_text: bool) -> Result<(), String> {
    let n = e.name.as_str();
    if in_text {
        if !HTML_IN_TEXT.contains(&n) {
            return Err(format!("element <{n}> inside text"));
        }
    } else if !MATHML.contains(&n) {
        return Err(format!("unexpected element <{n}>"));
    }
    for (k, v) in &e.attrs {
        let ok = match (n, k.as_str()) {
            ("math", "xmlns") => v == "http://www.w3.org/1998/Math/MathML",
            ("math", "display") => v == "block",
            ("annotation", "encoding") => v == "application/x-tex",
            ("mi", "mathvariant") => v == "normal",
            ("mo", "stretchy" | "symmetric" | "movablelimits" | "largeop") => v == "true" || v == "false",
            ("mo", "form") => matches!(v.as_str(), "prefix" | "infix" | "postfix"),
            ("mo", "lspace" | "rspace" | "minsize" | "maxsize") => css_len(v),
            ("mspace", "width" | "height" | "depth") => css_len(v),
            ("mfrac", "linethickness") => css_len(v),
            ("mover", "accent") => v == "true",
            ("munder", "accentunder") => v == "true",
            ("mpadded", "width" | "height" | "depth" | "voffset" | "lspace") => css_len(v),
            (_, "displaystyle") => matches!(n, "mrow" | "mfrac" | "mtable" | "math" | "mpadded") && (v == "true" || v == "false"),
            (_, "scriptlevel") => matches!(n, "mrow" | "mfrac" | "mtable" | "mpadded") && num(v),
            (_, "style") => return_style(v)?,
            ("menclose", "notation") => v.split(' ').all(|w| {
                matches!(w, "box" | "actuarial" | "phasorangle" | "updiagonalstrike" | "downdiagonalstrike")
            }),
            ("mrow", "class") => {
                matches!(v.as_str(), "menclose-phasorangle" | "menclose-updiagonalstrike" | "menclose-downdiagonalstrike")
            }
            ("span", "class") => matches!(v.as_str(), "math-core-sans-serif-font" | "math-core-serif-font"),
            ("merror", "class") => v == unknown_class,
            ("mtd", "id") => v.starts_with(id_prefix) && pct_ok(&v[id_prefix.len()..]),
            ("a", "href") => {
                v.strip_prefix('#').and_then(|x| x.strip_prefix(id_prefix)).is_some_and(pct_ok) || url_ok(v)
            }
            _ => false,
        };
        if !ok {
            return Err(format!("unexpected attribute {k}={v:?} on <{n}>"));
        }
    }
    for k in &e.kids {
        if let Node::El(c) = k {
            vocabulary(c, unknown_class, id_prefix, in_text || n == "mtext")?;
        }
    }
    Ok(())
}

fn return_style(v: &str) -> Result<bool, String> {
    style_ok(v).map(|_| true)
}

fn pct_ok(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_graphic() && !matches!(b, b'"' | b'<' | b'>' | b'&' | b'\'' | b'`'))
}
fn url_ok(_s: &str) -> bool {
    false
}

fn arity(n: &str) -> Option<usize> {
    Some(match n {
        "mfrac" | "mroot" | "msub" | "msup" | "mover" | "munder" | "semantics" => 2,
        "msubsup" | "munderover" => 3,
        "mspace" | "mprescripts" => 0,
        _ => return None,
    })
}

/// Structural validity: arity, nesting, text only where text may be.
pub fn structure(e: &El, parent: Option<&El>) -> Result<(), String> {
    let n = e.name.as_str();
    let els = e.els();
    let has_text = e.kids.iter().any(|k| matches!(k, Node::Text(t) if !t.is_empty()));
    let p = parent.map(|p| p.name.as_str()).unwrap_or("");
    if let Some(a) = arity(n) {
        if els.len() != a {
            return Err(format!("<{n}> has {} children instead of {a}", els.len()));
        }
    }
    let token = matches!(n, "mi" | "mn" | "mo" | "mtext" | "annotation") || HTML_IN_TEXT.contains(&n);
    if !token && has_text {
        return Err(format!("text directly in <{n}>: {:?}", e.text().chars().take(30).collect::<String>()));
    }
    if matches!(n, "mi" | "mn" | "mo" | "annotation") && !els.is_empty() {
        return Err(format!("<{n}> contains elements"));
    }
    if matches!(n, "mi" | "mn") && e.text().is_empty() {
        return Err(format!("empty <{n}>"));
    }
    if n == "mn" && !e.text().starts_with(|c: char| c.is_ascii_digit() || c == '.') {
        return Err(format!("<mn> with {:?}", e.text()));
    }
    match n {
        "math" => {
            if parent.is_some() {
                return Err("nested <math>".into());
            }
        }
        "mtable" => {
            if els.iter().any(|c| c.name != "mtr") || els.is_empty() {
                return Err("<mtable> with a child which is not <mtr>, or none".into());
            }
        }
        "mtr" => {
            if p != "mtable" {
                return Err("<mtr> outside of <mtable>".into());
            }
            if els.iter().any(|c| c.name != "mtd") || els.is_empty() {
                return Err("<mtr> with a child which is not <mtd>, or none".into());
            }
        }
        "mtd" => {
            if p != "mtr" {
                return Err("<mtd> outside of <mtr>".into());
            }
        }
        "annotation" => {
            if p != "semantics" {
                return Err("<annotation> outside of <semantics>".into());
            }
        }
        "semantics" => {
            if p != "math" || els[1].name != "annotation" || els[0].name == "annotation" {
                return Err("malformed <semantics>".into());
            }
        }
        "mprescripts" => {
            if p != "mmultiscripts" {
                return Err("<mprescripts> outside of <mmultiscripts>".into());
            }
        }
        "mmultiscripts" => {
            let pos: Vec<usize> =
                els.iter().enumerate().filter(|(_, c)| c.name == "mprescripts").map(|(i, _)| i).collect();
            if pos.len() > 1 || els.is_empty() || pos.first() == Some(&0) {
                return Err("malformed <mmultiscripts>".into());
            }
            let i = pos.first().copied().unwrap_or(els.len());
            if (i - 1) % 2 != 0 || (pos.len() == 1 && (els.len() - i - 1) % 2 != 0) {
                return Err("<mmultiscripts> with unpaired scripts".into());
            }
        }
        "mo" => {
            for k in ["lspace", "rspace", "stretchy", "minsize"] {
                if e.attrs.iter().filter(|(a, _)| a == k).count() > 1 {
                    return Err("duplicate attribute".into());
                }
            }
        }
        _ => {}
    }
    // the accent flags belong on a construct whose script is an operator
    if (e.attr("accent").is_some() && els.get(1).is_none_or(|c| c.name != "mo"))
        || (e.attr("accentunder").is_some() && els.get(1).is_none_or(|c| c.name != "mo"))
    {
        return Err(format!("accent <{n}> whose accent is not <mo>"));
    }
    for k in &els {
        structure(k, Some(e))?;
    }
    Ok(())
}

/// Both, plus what is expected of the root.
pub fn root(e: &El) -> Result<(), String> {
    if e.name != "math" {
        return Err(format!("root is <{}>", e.name));
    }
    structure(e, None)
}
