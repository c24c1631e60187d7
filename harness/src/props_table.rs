//! C25: tables.
//!
//! A table is generated together with its grid: what is in each cell, the alignment and padding
//! of each cell, and all lines. The table of the output is read back into such a grid, where
//! lines are what is visible (whether a line is on the table, on a cell or on a cell which is
//! there only for the line, makes no difference).
use crate::conv::{self, Cfg, Outcome};
use crate::ctx::Ctx;
use crate::rng::Rng;
use crate::xml::{self, El, Node};
use serde_json::json;

pub fn case(prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    if prop != "C25" {
        return false;
    }
    c25(c, r);
    true
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// array and so on: with a column specification
    Array,
    Matrix,
    Cases,
    Aligned,
    Gathered,
    Multline,
}

/// name, kind, displaystyle, scriptlevel, delimiters, numbered
const ENVS: &[(&str, Kind, &str, &str, &str, &str, bool)] = &[
    ("array", Kind::Array, "false", "0", "", "", false),
    ("darray", Kind::Array, "true", "0", "", "", false),
    ("subarray", Kind::Array, "false", "1", "", "", false),
    ("matrix", Kind::Matrix, "false", "0", "", "", false),
    ("pmatrix", Kind::Matrix, "false", "0", "(", ")", false),
    ("bmatrix", Kind::Matrix, "false", "0", "[", "]", false),
    ("Bmatrix", Kind::Matrix, "false", "0", "{", "}", false),
    ("vmatrix", Kind::Matrix, "false", "0", "|", "|", false),
    ("Vmatrix", Kind::Matrix, "false", "0", "‖", "‖", false),
    ("cases", Kind::Cases, "false", "0", "{", "", false),
    ("rcases", Kind::Cases, "false", "0", "", "}", false),
    ("dcases", Kind::Cases, "true", "0", "{", "", false),
    ("drcases", Kind::Cases, "true", "0", "", "}", false),
    ("aligned", Kind::Aligned, "true", "0", "", "", false),
    ("align", Kind::Aligned, "true", "0", "", "", true),
    ("align*", Kind::Aligned, "true", "0", "", "", true),
    ("gathered", Kind::Gathered, "true", "0", "", "", false),
    ("gather", Kind::Gathered, "true", "0", "", "", true),
    ("gather*", Kind::Gathered, "true", "0", "", "", true),
    ("multline", Kind::Multline, "true", "0", "", "", true),
];

#[derive(Clone)]
enum Piece {
    Xml(&'static str),
    Table(Table),
}

#[derive(Clone)]
struct Table {
    env: usize,
    rows: Vec<Vec<Vec<Piece>>>,
    /// column alignments and the lines after each (and before the first)
    aligns: Vec<u8>,
    lines: Vec<Vec<u8>>,
    /// the line above each row: 0, b'|' or b':'
    above: Vec<u8>,
}

/// source, output in text style, output in script style
const CELLS: &[(&str, &str, &str)] = &[
    ("a", "<mi>a</mi>", ""),
    ("x", "<mi>x</mi>", ""),
    ("12", "<mn>12</mn>", ""),
    ("3.5", "<mn>3.5</mn>", ""),
    ("xy", "<mi>x</mi><mi>y</mi>", ""),
    ("\\alpha", "<mi>α</mi>", ""),
    ("\\frac{a}{b}", "<mfrac><mi>a</mi><mi>b</mi></mfrac>", ""),
    ("\\frac12", "<mfrac><mn>1</mn><mn>2</mn></mfrac>", ""),
    ("x^2", "<msup><mi>x</mi><mn>2</mn></msup>", ""),
    ("x_i^2", "<msubsup><mi>x</mi><mi>i</mi><mn>2</mn></msubsup>", ""),
    ("\\sqrt{y}", "<msqrt><mi>y</mi></msqrt>", ""),
    ("\\text{ab}", "<mtext>ab</mtext>", ""),
    ("\\text{a\\&b}", "<mtext>a&amp;b</mtext>", ""),
    ("\\mathbf{v}", "<mi>𝐯</mi>", ""),
    ("a+b", "<mi>a</mi><mo>+</mo><mi>b</mi>", "<mi>a</mi><mo lspace=\"0\" rspace=\"0\">+</mo><mi>b</mi>"),
    ("a=b", "<mi>a</mi><mo>=</mo><mi>b</mi>", "<mi>a</mi><mo lspace=\"0\" rspace=\"0\">=</mo><mi>b</mi>"),
    ("(a)", "<mo stretchy=\"false\">(</mo><mi>a</mi><mo stretchy=\"false\">)</mo>", ""),
    ("\\left(a\\right)", "<mrow><mo>(</mo><mi>a</mi><mo>)</mo></mrow>", ""),
    ("{ab}", "<mrow><mi>a</mi><mi>b</mi></mrow>", ""),
    ("{a}", "<mi>a</mi>", ""),
];

struct G<'a> {
    r: &'a mut Rng,
    s: String,
}

impl G<'_> {
    fn ws(&mut self) {
        match self.r.below(12) {
            0..=3 => self.s.push(' '),
            4 => self.s.push('\n'),
            5 => self.s.push_str("%c & \\\\ \\hline\n"),
            6 => self.s.push_str("  \t "),
            _ => {}
        }
    }

    /// An ending for a command name.
    fn end(&mut self) {
        if self.s.ends_with(|c: char| c.is_ascii_alphabetic()) && self.s.contains('\\') {
            self.s.push(' ');
        }
    }

    fn cell(&mut self, depth: u32, script: bool) -> Vec<Piece> {
        if self.r.pct(15) {
            return Vec::new();
        }
        if depth > 0 && self.r.pct(12) {
            let mut v = Vec::new();
            if self.r.pct(30) {
                self.s.push('a');
                v.push(Piece::Xml("<mi>a</mi>"));
            }
            v.push(Piece::Table(self.table(depth - 1, true)));
            if self.r.pct(30) {
                self.s.push('x');
                v.push(Piece::Xml("<mi>x</mi>"));
            }
            return v;
        }
        let (s, t, sc) = *self.r.choose(CELLS);
        self.s.push_str(s);
        self.end();
        vec![Piece::Xml(if script && !sc.is_empty() { sc } else { t })]
    }

    fn table(&mut self, depth: u32, inner: bool) -> Table {
        let env = loop {
            let e = self.r.below(ENVS.len());
            if !(inner && ENVS[e].6) {
                break e;
            }
        };
        let (name, kind, _, level, ..) = ENVS[env];
        let begin = if self.r.pct(10) { "\\begin " } else { "\\begin" };
        self.s.push_str(&format!("{begin}{{{name}}}"));
        let ncols = match kind {
            Kind::Gathered | Kind::Multline => 1,
            Kind::Cases => 1 + self.r.below(2),
            _ => 1 + self.r.below(5),
        };
        let (mut aligns, mut lines) = (Vec::new(), vec![Vec::new()]);
        if kind == Kind::Array {
            let mut spec = String::new();
            let mut gap = |r: &mut Rng, spec: &mut String, lines: &mut Vec<Vec<u8>>| {
                while r.pct(30) {
                    let l = *r.choose(b"||:");
                    spec.push(l as char);
                    lines.last_mut().unwrap().push(l);
                    if r.pct(10) {
                        spec.push(' ');
                    }
                }
            };
            gap(self.r, &mut spec, &mut lines);
            for _ in 0..ncols {
                let a = *self.r.choose(b"lcr");
                spec.push(a as char);
                if self.r.pct(10) {
                    spec.push(' ');
                }
                aligns.push(a);
                lines.push(Vec::new());
                gap(self.r, &mut spec, &mut lines);
            }
            if self.r.pct(10) {
                self.s.push(' ');
            }
            if spec.len() == 1 && self.r.pct(50) {
                self.s.push_str(&spec);
                self.s.push(' ');
            } else {
                self.s.push_str(&format!("{{{spec}}}"));
            }
        }
        let nrows = 1 + self.r.below(5);
        let hlines = matches!(kind, Kind::Array | Kind::Matrix);
        let mut rows = Vec::new();
        let mut above = Vec::new();
        for i in 0..nrows {
            if i > 0 {
                self.s.push_str("\\\\");
            }
            self.ws();
            let mut line = 0;
            if hlines && self.r.pct(20) {
                let (t, l) = *self.r.choose(&[("\\hline", b'|'), ("\\hdashline", b':')]);
                self.s.push_str(t);
                self.s.push(' ');
                line = l;
                self.ws();
            }
            above.push(line);
            let n = if self.r.pct(20) { 1 + self.r.below(ncols) } else { ncols };
            let mut row = Vec::new();
            for j in 0..n {
                if j > 0 {
                    self.s.push('&');
                    self.ws();
                }
                row.push(self.cell(depth, level == "1"));
                self.ws();
            }
            rows.push(row);
        }
        self.s.push_str(&format!("\\end{{{name}}}"));
        Table { env, rows, aligns, lines, above }
    }
}

type Props = Vec<(String, String)>;

fn style(e: &El) -> Result<Props, String> {
    let mut v = Vec::new();
    for p in e.attr("style").unwrap_or("").split(';').filter(|p| !p.trim().is_empty()) {
        let (k, x) = p.split_once(':').ok_or(format!("style {p}"))?;
        let k = k.trim().to_string();
        if v.iter().any(|(y, _)| *y == k) {
            return Err(format!("{k} twice"));
        }
        v.push((k, x.trim().to_string()));
    }
    v.sort();
    Ok(v)
}

fn line(v: &str) -> Result<u8, String> {
    match v {
        "0.05em solid currentcolor" => Ok(b'|'),
        "0.05em dashed currentcolor" => Ok(b':'),
        _ => Err(format!("border {v}")),
    }
}

fn take(p: &mut Props, k: &str) -> Option<String> {
    let i = p.iter().position(|x| x.0 == k)?;
    Some(p.remove(i).1)
}

impl Table {
    /// The style of a cell apart from its lines.
    fn cell_style(&self, i: usize, j: usize) -> Vec<(&'static str, &'static str)> {
        let (_, kind, _, level, ..) = ENVS[self.env];
        let left = [("justify-items", "start"), ("text-align", "left")];
        let right = [("justify-items", "end"), ("text-align", "right")];
        let mut v = Vec::new();
        match kind {
            Kind::Array => {
                match self.aligns[j] {
                    b'l' => v.extend(left),
                    b'r' => v.extend(right),
                    _ => {}
                }
                if level == "1" {
                    v.extend([("padding-bottom", "0"), ("padding-top", "0")]);
                }
            }
            Kind::Matrix | Kind::Gathered => {}
            Kind::Cases => {
                v.extend(left);
                v.push(("padding-right", "0"));
                if j == 1 {
                    v.push(("padding-left", "1em"));
                }
            }
            Kind::Aligned => {
                if j.is_multiple_of(2) {
                    v.extend(right);
                    v.push(("padding-right", "0"));
                } else {
                    v.extend(left);
                    v.push(("padding-left", "0"));
                }
            }
            Kind::Multline => {
                if i == 0 {
                    v.extend(left);
                } else if i + 1 == self.rows.len() {
                    v.extend(right);
                }
            }
        }
        v.sort();
        v
    }

    fn check(&self, e: &El, cells: &mut u64) -> Result<(), String> {
        let (name, _, ds, sl, open, close, numbered) = ENVS[self.env];
        let table = if matches!(ENVS[self.env].1, Kind::Cases) || !open.is_empty() {
            let k = e.els();
            let [l, t, r] = k[..] else { return Err(format!("{name}: no fence")) };
            let d = |x: &El| if x.name == "mo" { x.text().replace('\u{2063}', "") } else { x.name.clone() };
            if e.name != "mrow" || d(l) != open || d(r) != close {
                return Err(format!("{name}: delimiters {} {}", d(l), d(r)));
            }
            t
        } else {
            e
        };
        if table.name != "mtable" {
            return Err(format!("{name}: found {}", table.name));
        }
        if table.attr("displaystyle") != Some(ds) || table.attr("scriptlevel") != Some(sl) {
            return Err(format!("{name}: style of the table"));
        }
        let mut p = style(table)?;
        let left = take(&mut p, "border-left").map_or(Ok(0), |v| line(&v))?;
        let top = take(&mut p, "border-top").map_or(Ok(0), |v| line(&v))?;
        if top != self.above[0] {
            return Err("line above the first row".into());
        }
        if numbered && take(&mut p, "width").as_deref() != Some("100%") {
            return Err("width".into());
        }
        if !p.is_empty() {
            return Err(format!("style of the table: {p:?}"));
        }
        let rows = table.els();
        if rows.len() != self.rows.len() {
            return Err(format!("{} rows instead of {}", rows.len(), self.rows.len()));
        }
        for (i, (row, want)) in rows.iter().zip(&self.rows).enumerate() {
            if row.name != "mtr" || !row.attrs.is_empty() {
                return Err("row".into());
            }
            let mut k = row.els();
            if k.iter().any(|c| c.name != "mtd") {
                return Err("not a cell".into());
            }
            if numbered {
                if k.len() < 3 {
                    return Err("cells of a numbered row".into());
                }
                let (f, l) = (k.remove(0), k.pop().unwrap());
                let w = |e: &El| style(e).map(|p| p.iter().find(|x| x.0 == "width").map(|x| x.1.clone()));
                if !f.kids.is_empty() || w(f)? != w(l)? || w(f)?.is_none() {
                    return Err("cells beside a numbered row".into());
                }
            }
            // the lines before the next cell
            let mut lines = if left == 0 { vec![] } else { vec![left] };
            let mut j = 0;
            for c in k {
                let mut p = style(c)?;
                let above = take(&mut p, "border-top").map_or(Ok(0), |v| line(&v))?;
                if above != if i == 0 { 0 } else { self.above[i] } {
                    return Err(format!("line above row {i}"));
                }
                let l = take(&mut p, "border-right").map_or(Ok(0), |v| line(&v))?;
                let only = c.kids.is_empty() && l != 0 && p.contains(&("padding-left".into(), "0.1em".into())) && p.contains(&("padding-right".into(), "0.1em".into()));
                if !only {
                    if j >= want.len() {
                        return Err(format!("too many cells in row {i}"));
                    }
                    let spec = self.lines.get(j).cloned().unwrap_or_default();
                    if lines != spec {
                        return Err(format!("lines before cell {i},{j}: {lines:?} instead of {spec:?}"));
                    }
                    lines.clear();
                    let st = self.cell_style(i, j);
                    if p.iter().map(|(a, b)| (a.as_str(), b.as_str())).ne(st.iter().copied()) {
                        return Err(format!("style of cell {i},{j}: {p:?} instead of {st:?}"));
                    }
                    if c.attrs.iter().any(|a| a.0 != "style") {
                        return Err("attribute of a cell".into());
                    }
                    self.content(c, &want[j], cells).map_err(|e| format!("cell {i},{j}: {e}"))?;
                    *cells += 1;
                    j += 1;
                }
                if l != 0 {
                    lines.push(l);
                }
            }
            if j != want.len() {
                return Err(format!("{j} cells in row {i} instead of {}", want.len()));
            }
            let spec = self.lines.get(j).cloned().unwrap_or_default();
            if lines != spec {
                return Err(format!("lines after row {i}: {lines:?} instead of {spec:?}"));
            }
        }
        Ok(())
    }

    fn content(&self, c: &El, want: &[Piece], cells: &mut u64) -> Result<(), String> {
        let mut k = c.els();
        for p in want {
            match p {
                Piece::Xml(x) => {
                    let w = xml::parse(&format!("<x>{x}</x>"))?;
                    for e in w.els() {
                        if k.is_empty() {
                            return Err(format!("{} missing", e.to_string()));
                        }
                        let got = k.remove(0);
                        if got.to_string() != e.to_string() {
                            return Err(format!("{} instead of {}", got.to_string(), e.to_string()));
                        }
                    }
                }
                Piece::Table(t) => {
                    if k.is_empty() {
                        return Err("table missing".into());
                    }
                    t.check(k.remove(0), cells)?;
                }
            }
        }
        if let Some(e) = k.first() {
            return Err(format!("unexpected {}", e.to_string()));
        }
        if c.kids.iter().any(|n| matches!(n, Node::Text(t) if !t.trim().is_empty())) {
            return Err("text in a cell".into());
        }
        Ok(())
    }
}

fn c25(c: &mut Ctx, r: &mut Rng) {
    let block = r.pct(50);
    let pretty = r.pct(20);
    let mut g = G { r, s: String::new() };
    let (pre, post) = *g.r.choose(&[("", ""), ("", ""), ("x", ""), ("a", "b"), ("\\sqrt{", "}"), ("\\frac{1}{", "}"), ("{", "}"), ("\\left[", "\\right]"), ("b^", ""), ("\\text{x}", "")][..]);
    let pre = if pre == "b^" { "b^{" } else { pre };
    let post = if pre == "b^{" { "}" } else { post };
    g.s.push_str(pre);
    // numbered environments have to stand alone
    let t = g.table(2, !pre.is_empty());
    g.s.push_str(post);
    let s = g.s;
    let mut cfg = Cfg::default();
    cfg.pretty = u8::from(pretty);
    let key = format!("{s:?}|{block}");
    if t.rows.iter().map(|r| r.len()).sum::<usize>() > 1 {
        c.nontrivial(&key);
    }
    c.stat(ENVS[t.env].0);
    c.sample(|| json!({"input": s}));
    match conv::local(&cfg.conv(), &s, block) {
        Outcome::Ok { mathml, .. } => {
            let mut cells = 0;
            let res = xml::parse(&mathml).map_err(|e| format!("{e:?}")).and_then(|m| {
                let m = xml::strip_layout(&m);
                // the first table, with its delimiters
                let mut parent = None;
                let mut found = None;
                m.walk(&mut |e| {
                    for k in e.els() {
                        if k.name == "mtable" && found.is_none() {
                            found = Some(k.clone());
                            parent = Some(e.clone());
                        }
                    }
                });
                let fenced = ENVS[t.env].1 == Kind::Cases || !ENVS[t.env].4.is_empty();
                let e = if fenced { parent } else { found }.ok_or("no table")?;
                t.check(&e, &mut cells)
            });
            if let Err(e) = res {
                c.viol(&key, "the table is not that of the source", json!({"what": e, "input": s, "output": mathml}));
                return;
            }
            c.add("cells compared", cells);
        }
        Outcome::Err { msg, .. } => c.viol(&key, "a correct table is rejected", json!({"input": s, "error": msg})),
        o => c.viol(&key, "panic", json!({"input": s, "result": o.short()})),
    }
}
