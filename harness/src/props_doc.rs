//! C05 and C06: documents generated together with the number of every row and the target of
//! every reference.
use crate::conv::*;
use crate::ctx::Ctx;
use crate::rng::Rng;
use crate::xml::{self, El, Node};
use serde_json::{Value, json};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
enum Num {
    Auto,
    Tag(String, bool),
}

#[derive(Clone, Debug)]
enum Ev {
    Row(Option<(Num, Option<String>)>),
    Ref(String),
}

/// What the output shows, in document order.
#[derive(Clone, Debug)]
enum Got {
    Row { text: Option<String>, id: Option<String> },
    Ref { href: String, text: String },
}

struct G<'a> {
    r: &'a mut Rng,
    o: String,
    ev: Vec<Ev>,
    labels: &'a [String],
    macros: bool,
    fail: bool,
    /// where the mistake was put, in numbers given out before it
    failed: Option<usize>,
    n_ctl: u32,
    big: bool,
}

fn literal(r: &mut Rng, rich: bool) -> String {
    let n = 1 + r.below(6);
    let mut s = String::new();
    for i in 0..n {
        let c = if rich && r.pct(40) {
            *r.choose(&['!', '(', ')', '*', '+', ',', '-', '.', '/', ':', ';', '<', '=', '>', '?', '@', '|', ' '])
        } else {
            *r.choose(&['a', 'b', 'E', 'q', 'x', 'Z', '1', '2', '0', '7', ':', '-'])
        };
        // a comma or dot next to a digit, or two spaces, would be read as one piece
        if c == ' ' && (i == 0 || i + 1 == n || s.ends_with(' ')) {
            s.push('w');
        } else {
            s.push(c);
        }
    }
    s
}

impl<'a> G<'a> {
    fn autos(&self) -> usize {
        self.ev.iter().filter(|e| matches!(e, Ev::Row(Some((Num::Auto, _))))).count()
    }
    fn maybe_fail(&mut self, p: u32) {
        if self.fail && self.failed.is_none() && self.r.pct(p) {
            self.o.push_str(self.r.pick(&["\\undefinedcmdx ", "\\undefinedcmdx{a}"]));
            self.failed = Some(self.autos());
        }
    }
    fn piece(&mut self, d: u32) {
        match self.r.below(12) {
            0..=5 => {
                let s = self.r.pick(&["x", "a+b", "\\alpha ", "\\frac{1}{2}", "=3", "y^2", "\\sqrt{z}", "\\text{if }", "\\nonumberless"]);
                self.o.push_str(if s.starts_with("\\nonumberl") { "\\left(u\\right)" } else { s });
            }
            6 | 7 => self.reference(),
            8 => {
                let (a, b) = *self.r.choose(&[("{", "}"), ("\\left(", "\\right)"), ("\\sqrt{", "}"), ("\\frac{", "}{2}"), ("x_{", "}")]);
                self.o.push_str(a);
                self.o.push('k');
                if self.r.pct(50) {
                    self.reference();
                }
                self.o.push_str(b);
            }
            9 if d > 0 => self.inner_table(d - 1),
            10 if d > 0 && self.r.pct(40) => self.numbered(d - 1),
            _ => self.o.push('w'),
        }
        self.maybe_fail(6);
    }
    fn reference(&mut self) {
        let l = if self.r.pct(12) { "never: labelled".to_string() } else { self.r.choose(self.labels).clone() };
        if self.macros && self.r.pct(20) {
            self.o.push_str(&format!("\\reff{{{l}}}"));
        } else {
            self.o.push_str(&format!("\\eqref{{{l}}}"));
        }
        self.ev.push(Ev::Ref(l));
    }
    fn inner_table(&mut self, d: u32) {
        let (a, b) = *self.r.choose(&[
            ("\\begin{aligned}", "\\end{aligned}"),
            ("\\begin{pmatrix}", "\\end{pmatrix}"),
            ("\\begin{cases}", "\\end{cases}"),
            ("\\begin{array}{c}", "\\end{array}"),
            ("\\begin{gathered}", "\\end{gathered}"),
        ]);
        self.o.push_str(a);
        let n = 1 + self.r.below(3);
        for i in 0..n {
            if i > 0 {
                self.o.push_str("\\\\ ");
            }
            self.piece(d);
        }
        self.o.push_str(b);
    }
    fn control(&mut self, s: String, m: Option<String>) {
        self.n_ctl += 1;
        let s = match m {
            Some(m) if self.macros && self.r.pct(25) => m,
            _ => s,
        };
        match self.r.below(10) {
            0 => self.o.push_str(&format!("{{{s}}}")),
            1 => self.o.push_str(&format!("{{x{s}}}")),
            2 => self.o.push_str(&format!("\\left({s}y\\right)")),
            _ => self.o.push_str(&s),
        }
        self.o.push_str(self.r.pick(&["", " ", "\n"]));
    }
    fn numbered(&mut self, d: u32) {
        let env = self.r.pick(&["align", "align", "align*", "equation", "equation", "equation*", "gather", "gather", "gather*", "multline", "multline"]);
        let single = env.starts_with("equation");
        let multline = env == "multline";
        let star = env.ends_with('*');
        let n = if single {
            1
        } else if self.big {
            self.big = false;
            100 + self.r.below(260)
        } else {
            1 + self.r.below(5)
        };
        self.o.push_str(&format!("\\begin{{{env}}}"));
        // of the whole environment for multline, else of the row
        let (mut tag, mut sup, mut label): (Option<(String, bool)>, bool, Option<String>) = (None, false, None);
        for i in 0..n {
            let last = i + 1 == n;
            if i > 0 {
                let s = self.r.pick(&["\\\\", "\\\\ ", "\\\\\n", "\\\\[2pt]", "\\\\*"]);
                self.o.push_str(if s == "\\\\" { "\\\\ " } else { s });
            }
            // the controls of this row
            let mut ctl: Vec<u8> = vec![];
            if tag.is_none() && self.r.pct(if multline { 8 } else { 15 }) && !sup {
                ctl.push(b't');
                if self.r.pct(10) {
                    ctl.push(b't');
                }
            } else if tag.is_none() && self.r.pct(if multline { 8 } else { 18 }) {
                ctl.push(b'n');
                if self.r.pct(10) {
                    ctl.push(b'n');
                }
            }
            if label.is_none() && self.r.pct(if multline { 25 } else { 40 }) {
                ctl.push(b'l');
            }
            self.r.shuffle(&mut ctl);
            let cells = if env.starts_with("align") { 1 + self.r.below(3) } else { 1 };
            let mut k = 0;
            for cell in 0..cells {
                if cell > 0 {
                    self.o.push('&');
                }
                let pieces = if n > 20 { 1 } else { self.r.below(3) };
                for p in 0..=pieces {
                    while k < ctl.len() && (self.r.pct(40) || (cell + 1 == cells && p == pieces)) {
                        match ctl[k] {
                            b'n' => {
                                sup = true;
                                let s = self.r.pick(&["\\nonumber ", "\\notag ", "\\nonumber{}", "\\notag\n"]).to_string();
                                self.control(s, Some("\\nonn ".into()));
                            }
                            b't' => {
                                let t = literal(self.r, true);
                                let par = self.r.pct(60);
                                let s = format!("\\tag{}{{{t}}}", if par { "" } else { "*" });
                                let m = if par { Some(format!("\\tagg{{{t}}}")) } else { None };
                                self.control(s, m);
                                tag = Some((t, par));
                            }
                            _ => {
                                let l = self.r.choose(self.labels).clone();
                                self.control(format!("\\label{{{l}}}"), Some(format!("\\labb{{{l}}}")));
                                label = Some(l);
                            }
                        }
                        k += 1;
                    }
                    if p < pieces {
                        // inside of a row with controls of its own, nested environments come
                        // with their own state
                        self.piece(d);
                    }
                }
            }
            self.maybe_fail(3);
            if multline && !last {
                self.ev.push(Ev::Row(None));
                continue;
            }
            let num = if let Some((t, p)) = tag.take() {
                Some(Num::Tag(t, p))
            } else if sup || star {
                None
            } else {
                Some(Num::Auto)
            };
            sup = false;
            let l = label.take();
            self.ev.push(Ev::Row(num.map(|n| (n, l))));
        }
        self.o.push_str(&format!("\\end{{{env}}}"));
        self.maybe_fail(4);
    }
    fn formula(&mut self) {
        if self.fail && self.r.pct(15) {
            self.maybe_fail(100);
        }
        match self.r.below(10) {
            0..=1 => {
                for _ in 0..1 + self.r.below(3) {
                    self.piece(0);
                }
            }
            2..=7 => self.numbered(2),
            _ => {
                for _ in 0..2 + self.r.below(2) {
                    if self.r.pct(60) {
                        self.numbered(1)
                    } else {
                        self.piece(1)
                    }
                }
            }
        }
        if self.fail && self.failed.is_none() {
            self.maybe_fail(100);
        }
    }
}

fn read(e: &El, out: &mut Vec<Got>) -> Result<(), String> {
    if e.name == "annotation" {
        return Ok(());
    }
    if e.name == "a" {
        out.push(Got::Ref { href: e.attr("href").unwrap_or("").into(), text: e.text() });
        return Ok(());
    }
    if e.name == "mtable" && e.attr("style").is_some_and(|s| s.contains("width: 100%")) {
        for row in e.els() {
            let cells = row.els();
            let Some((last, rest)) = cells.split_last() else { return Err("row without cells".into()) };
            for c in rest {
                read(c, out)?;
            }
            let id = last.attr("id").map(|s| s.to_string());
            let k = last.els();
            let text = match k.len() {
                0 => None,
                1 if k[0].name == "mtext" => Some(k[0].text()),
                _ => return Err("the last cell of a row is not a number".into()),
            };
            out.push(Got::Row { text, id });
        }
        return Ok(());
    }
    for k in &e.kids {
        if let Node::El(k) = k {
            read(k, out)?;
        }
    }
    Ok(())
}

fn pct_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            v.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(v).ok()
}

/// A document (or the part of it after a reset) as it should be.
#[derive(Default)]
struct Doc {
    count: usize,
    /// numbers which failing formulas may have taken
    slack: usize,
    map: HashMap<String, String>,
    ids: HashSet<String>,
}

struct Item {
    src: String,
    block: bool,
    ev: Vec<Ev>,
    failed: Option<usize>,
}

struct Bad(&'static str, Value);

impl Doc {
    /// Compare the numbers of a formula, and note its labels.
    fn numbers(&mut self, it: &Item, got: &[Got]) -> Result<(), Bad> {
        let want: Vec<&Ev> = it.ev.iter().filter(|e| matches!(e, Ev::Row(_))).collect();
        let have: Vec<(&Option<String>, &Option<String>)> =
            got.iter().filter_map(|g| if let Got::Row { text, id } = g { Some((text, id)) } else { None }).collect();
        if want.len() != have.len() {
            return Err(Bad("the number of rows which can carry a number differs", json!({"expected": want.len(), "got": have.len()})));
        }
        for (i, (w, (text, _))) in want.iter().zip(&have).enumerate() {
            let Ev::Row(w) = w else { unreachable!() };
            let exp = match w {
                None => None,
                Some((Num::Tag(t, true), _)) => Some(format!("({t})")),
                Some((Num::Tag(t, false), _)) => Some(t.clone()),
                Some((Num::Auto, _)) => {
                    // after failing formulas, the count may have moved on by the rows they completed
                    if self.slack > 0 {
                        if let Some(n) = text.as_ref().and_then(|t| t.trim_matches(|c| c == '(' || c == ')').parse::<usize>().ok()) {
                            if n > self.count && n <= self.count + 1 + self.slack {
                                self.count = n - 1;
                            }
                        }
                        self.slack = 0;
                    }
                    self.count += 1;
                    Some(format!("({})", self.count))
                }
            };
            if **text != exp {
                return Err(Bad("a row has the wrong number", json!({"row": i, "expected": exp, "got": text})));
            }
            if let Some((n, Some(l))) = w {
                let t = match n {
                    Num::Auto => self.count.to_string(),
                    Num::Tag(t, _) => t.clone(),
                };
                self.map.insert(l.clone(), t);
            }
        }
        for (_, id) in &have {
            if let Some(id) = id {
                self.ids.insert(id.clone());
            }
        }
        Ok(())
    }
    fn references(&self, it: &Item, got: &[Got], undef: bool, prefix: &str) -> Result<(), Bad> {
        if it.ev.len() != got.len() {
            return Err(Bad("references or rows are missing in the output", json!({"expected": it.ev.len(), "got": got.len()})));
        }
        let mut any = false;
        for (w, g) in it.ev.iter().zip(got) {
            match (w, g) {
                (Ev::Row(w), Got::Row { id, .. }) => {
                    let want = w.as_ref().and_then(|(_, l)| l.as_ref()).map(|l| format!("{prefix}{l}"));
                    if id.as_ref().map(|i| pct_decode(i).unwrap_or_default()) != want {
                        return Err(Bad("a row has the wrong id", json!({"expected": want, "got": id})));
                    }
                }
                (Ev::Ref(l), Got::Ref { href, text }) => {
                    let want = self.map.get(l).cloned();
                    any |= want.is_none();
                    let show = format!("({})", want.clone().unwrap_or("??".into()));
                    if *text != show {
                        return Err(Bad("a reference shows the wrong text", json!({"label": l, "expected": show, "got": text})));
                    }
                    let Some(frag) = href.strip_prefix('#') else {
                        return Err(Bad("a reference does not link into the document", json!({"label": l, "href": href})));
                    };
                    if pct_decode(frag).as_deref() != Some(&format!("{prefix}{l}")) {
                        return Err(Bad("a reference links to another label", json!({"label": l, "href": href})));
                    }
                    if want.is_some() && !self.ids.contains(frag) {
                        return Err(Bad("the target of a resolved reference does not exist", json!({"label": l, "href": href, "ids": self.ids})));
                    }
                }
                _ => return Err(Bad("references and rows are in another order", json!({}))),
            }
        }
        if any != undef {
            return Err(Bad("the warning about undefined references is wrong", json!({"expected": any, "got": undef})));
        }
        Ok(())
    }
}

fn read_out(o: &Outcome) -> Option<(Vec<Got>, bool)> {
    let Outcome::Ok { mathml, undef, .. } = o else { return None };
    let t = xml::parse(mathml).ok()?;
    let mut v = vec![];
    read(&xml::strip_layout(&t), &mut v).ok()?;
    Some((v, *undef))
}

pub fn case(prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    if prop != "C05" && prop != "C06" {
        return false;
    }
    let numbers = prop == "C05";
    let macros = r.pct(30);
    let mut cfg = Cfg { pretty: r.below(3) as u8, xmlns: r.pct(20), annotation: r.pct(20), global_group: r.pct(20), ..Cfg::default() };
    if r.pct(40) {
        cfg.id_prefix = r.pick(&["eq-", "x", "chapter1:", "_"]).to_string();
    }
    if macros {
        for (a, b) in [("nonn", "\\nonumber "), ("tagg", "\\tag{#1}"), ("labb", "\\label{#1}"), ("reff", "\\eqref{#1}")] {
            cfg.macros.push((a.into(), b.into()));
        }
    }
    let mut labels: Vec<String> = vec![];
    let nl = 1 + r.below(6);
    while labels.len() < nl {
        let rich = r.pct(50);
        let l = literal(r, rich);
        if !labels.contains(&l) {
            labels.push(l);
        }
    }
    let flabels = vec!["label of a failing formula".to_string()];
    let most = if r.pct(5) { 30 } else { 7 };
    let n = 1 + r.below(most);
    let pfail = if r.pct(40) { 20 } else { 0 };
    let items: Vec<Item> = (0..n)
        .map(|_| {
            let fail = r.pct(pfail);
            let big = r.pct(1);
            let mut g = G { labels: if fail { &flabels } else { &labels }, r, o: String::new(), ev: vec![], macros, fail, failed: None, n_ctl: 0, big };
            g.formula();
            let (src, ev, failed, ctl) = (g.o, g.ev, g.failed, g.n_ctl);
            c.add("controls", ctl as u64);
            Item { src, block: r.pct(70), ev, failed }
        })
        .collect();
    let mode = r.below(3);
    let key = format!("{:?}|{mode}|{}", items.iter().map(|i| &i.src).collect::<Vec<_>>(), cfg.json());
    let mut nums = 0;
    let mut refs = 0;
    for it in &items {
        for e in &it.ev {
            match e {
                Ev::Row(Some(_)) => nums += 1,
                Ev::Row(None) => {}
                Ev::Ref(_) => refs += 1,
            }
        }
    }
    if if numbers { nums > 1 } else { refs > 0 } {
        c.nontrivial(&key);
    }
    c.add("rows with a number", nums);
    c.add("references", refs);
    c.max("max rows with a number in a document", nums);
    let check = |c: &mut Ctx, d: &mut Doc, it: &Item, o: &Outcome| -> bool {
        if let Outcome::Panic(_) = o {
            c.stat("skipped: panic");
            return false;
        }
        if let Some(k) = it.failed {
            if o.is_ok() {
                c.viol(&key, "a formula with an unknown command is accepted", json!({"formula": it.src}));
                return false;
            }
            c.stat("failing formulas");
            d.slack += k;
            return true;
        }
        let Some((got, _)) = read_out(o) else {
            c.viol(&key, "a correct formula is rejected or its output cannot be read", json!({"formula": it.src, "result": o.short()}));
            return false;
        };
        match d.numbers(it, &got) {
            Ok(()) => true,
            Err(Bad(w, v)) => {
                if numbers {
                    c.viol(&key, w, json!({"formula": it.src, "where": v, "output": o.short()}));
                }
                false
            }
        }
    };
    let refcheck = |c: &mut Ctx, d: &Doc, it: &Item, o: &Outcome| {
        if numbers || it.failed.is_some() {
            return true;
        }
        let Some((got, undef)) = read_out(o) else { return false };
        if let Err(Bad(w, v)) = d.references(it, &got, undef, &cfg.id_prefix) {
            c.viol(&key, w, json!({"formula": it.src, "where": v, "output": o.short()}));
            return false;
        }
        true
    };
    match mode {
        0 => {
            // one after the other, with resets and local conversions in between
            let mut k = cfg.conv();
            let mut d = Doc::default();
            for it in &items {
                if r.pct(8) {
                    k.reset_global_state();
                    d = Doc::default();
                    c.stat("resets");
                }
                if r.pct(15) {
                    let other = r.choose(&items);
                    let o = local(&k, &other.src, other.block);
                    let mut ld = Doc::default();
                    if !check(c, &mut ld, other, &o) || !refcheck(c, &ld, other, &o) {
                        return true;
                    }
                    c.stat("local conversions in between");
                }
                if r.pct(5) {
                    let _ = all(&k, &[(it.src.clone(), it.block)]);
                    c.stat("whole documents in between");
                }
                let o = global(&mut k, &it.src, it.block);
                if !check(c, &mut d, it, &o) || !refcheck(c, &d, it, &o) {
                    return true;
                }
            }
            c.stat("sequences");
        }
        1 => {
            let v: Vec<(String, bool)> = items.iter().map(|i| (i.src.clone(), i.block)).collect();
            let mut k = cfg.conv();
            if r.pct(20) {
                let _ = global(&mut k, &items[0].src, true);
            }
            let Ok(os) = all(&k, &v) else {
                c.stat("skipped: panic");
                return true;
            };
            let mut d = Doc::default();
            for (it, o) in items.iter().zip(&os) {
                if !check(c, &mut d, it, o) {
                    return true;
                }
            }
            for (it, o) in items.iter().zip(&os) {
                if !refcheck(c, &d, it, o) {
                    return true;
                }
            }
            c.stat("whole documents");
        }
        _ => {
            let k = cfg.conv();
            for it in &items {
                let o = local(&k, &it.src, it.block);
                let mut d = Doc::default();
                if !check(c, &mut d, it, &o) || !refcheck(c, &d, it, &o) {
                    return true;
                }
            }
            c.stat("formulas on their own");
        }
    }
    c.sample(|| json!({"document": items.iter().map(|i| i.src.chars().take(200).collect::<String>()).collect::<Vec<_>>(), "numbers": nums, "references": refs}));
    true
}

/// The fixed formula of a known finding.
pub fn probe(c: &mut Ctx) {
    let s = "\\begin{align} 1\\nonumber\\tag{32}\\\\2\\end{align}";
    let o = local(&Cfg::default().conv(), s, true);
    if let Some((got, _)) = read_out(&o) {
        let t: Vec<Option<String>> = got.iter().map(|g| if let Got::Row { text, .. } = g { text.clone() } else { None }).collect();
        if t != [Some("(32)".into()), Some("(1)".into())] {
            c.viol(s, "a row has the wrong number", json!({"got": t}));
        }
    }
}
