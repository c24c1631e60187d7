//! C17: text commands show exactly the text given, with exactly its styles.
use crate::conv::{self, Cfg, Outcome};
use crate::ctx::Ctx;
use crate::gen_::wild_ws;
use crate::rng::Rng;
use crate::xml::{self, El, Node};
use serde_json::json;

pub fn case(prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    match prop {
        "C17" => c17(c, r),
        _ => return false,
    }
    true
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct At {
    style: &'static str,
    size: &'static str,
    /// Raised by, in hundredths of rem, em and ex.
    up: [i64; 3],
}

const STYLES: &[(&str, &str)] = &[
    ("text", ""),
    ("textbf", "b"),
    ("textbf", "b"),
    ("textit", "i"),
    ("textit", "i"),
    ("emph", "em"),
    ("emph", "em"),
    ("texttt", "code"),
    ("textsc", "sc"),
    ("textsf", "sf"),
    ("textrm", "serif"),
    ("underbar", "u"),
    ("sout", "s"),
];

fn combine(cur: &'static str, cmd: &str, new: &'static str) -> &'static str {
    match (cur, new) {
        _ if cmd == "text" => cur,
        ("em", "em") => "",
        ("b", "i") | ("i", "b") | ("bi", "b" | "i") => "bi",
        _ => new,
    }
}

const SIZES: &[(&str, &str)] = &[
    ("tiny", "50%"),
    ("sixptsize", "60%"),
    ("scriptsize", "70%"),
    ("footnotesize", "80%"),
    ("small", "90%"),
    ("normalsize", "100%"),
    ("large", "120%"),
    ("Large", "140%"),
    ("LARGE", "170%"),
    ("huge", "200%"),
    ("Huge", "250%"),
];

const SYMS: &[(&str, char)] = &[
    ("textbackslash", '\\'),
    ("textbar", '|'),
    ("textbardbl", '‖'),
    ("textbraceleft", '{'),
    ("textbraceright", '}'),
    ("textdagger", '†'),
    ("textdaggerdbl", '‡'),
    ("textdegree", '°'),
    ("textdollar", '$'),
    ("textellipsis", '…'),
    ("textemdash", '—'),
    ("textendash", '–'),
    ("textgreater", '>'),
    ("textless", '<'),
    ("textquotedblleft", '“'),
    ("textquotedblright", '”'),
    ("textquoteleft", '‘'),
    ("textquoteright", '’'),
    ("textregistered", '®'),
    ("textsterling", '£'),
    ("textunderscore", '_'),
    ("textyen", '¥'),
    ("textasciicircum", 'ˆ'),
    ("textasciitilde", '˜'),
    ("AA", 'Å'),
    ("aa", 'å'),
    ("AE", 'Æ'),
    ("ae", 'æ'),
    ("O", 'Ø'),
    ("o", 'ø'),
    ("OE", 'Œ'),
    ("oe", 'œ'),
    ("L", 'Ł'),
    ("l", 'ł'),
    ("ss", 'ß'),
    ("i", 'ı'),
    ("j", 'ȷ'),
    ("S", '§'),
    ("P", '¶'),
    ("dag", '†'),
    ("ddag", '‡'),
    ("lq", '‘'),
    ("rq", '’'),
    ("yen", '¥'),
    ("degree", '°'),
    ("checkmark", '✓'),
    ("maltese", '✠'),
    ("circledR", 'Ⓡ'),
    ("dots", '…'),
    ("ldots", '…'),
    ("quad", '\u{2003}'),
    ("enspace", '\u{2002}'),
    ("thinspace", '\u{2009}'),
    ("medspace", '\u{205f}'),
    ("thickspace", '\u{2004}'),
    ("$", '$'),
    ("%", '%'),
    ("#", '#'),
    ("&", '&'),
    ("_", '_'),
    ("{", '{'),
    ("}", '}'),
    (" ", '\u{a0}'),
    (",", '\u{2009}'),
    (":", '\u{205f}'),
    (">", '\u{205f}'),
    (";", '\u{2004}'),
];

const ACCENTS: &[(&str, char)] = &[
    ("'", '\u{301}'),
    ("`", '\u{300}'),
    ("^", '\u{302}'),
    ("\"", '\u{308}'),
    ("~", '\u{303}'),
    ("=", '\u{304}'),
    (".", '\u{307}'),
    ("u", '\u{306}'),
    ("v", '\u{30c}'),
    ("H", '\u{30b}'),
    ("r", '\u{30a}'),
    ("c", '\u{327}'),
];

const PLAIN: &str = "abcxyzABZ0189.,;:!?()[]/|*+-=<>@'`\"éüñß漢字αβΩЖאع😀ﬁ≤∑→∈×−·…—«»\u{200b}\u{301}\u{2028}";

#[derive(Default)]
struct B {
    s: String,
    out: Vec<(char, At)>,
    /// Accents waiting for a character, the outermost first.
    acc: Vec<char>,
    /// The source ends in a command made of letters.
    word: bool,
    /// A space would be skipped here.
    skips: bool,
    /// The last command takes an argument.
    arg: bool,
    cmds: u64,
}

impl B {
    fn put(&mut self, r: &mut Rng, x: &str) {
        // whitespace after a command is skipped
        if self.word {
            if x.starts_with(|c: char| c.is_ascii_alphabetic()) {
                self.s.push_str(*r.choose(if self.acc.is_empty() && !self.arg { &[" ", " ", "\n", "  ", "{}", "%x\n"] } else { &[" ", "\n"] }));
            } else if r.pct(15) && !x.starts_with([' ', '~']) {
                self.s.push(' ');
            }
            self.word = false;
        }
        self.skips = false;
        self.s.push_str(x);
    }

    fn cmd(&mut self, r: &mut Rng, n: &str) {
        self.put(r, &format!("\\{n}"));
        self.word = n.as_bytes()[0].is_ascii_alphabetic();
        self.skips = true;
        self.arg = false;
        self.cmds += 1;
        if !self.word && r.pct(20) {
            let w = wild_ws(r);
            self.s.push_str(&w);
        }
    }

    fn show(&mut self, c: char, at: &At) {
        self.out.push((c, at.clone()));
        while let Some(a) = self.acc.pop() {
            self.out.push((a, at.clone()));
        }
    }

    /// One character, given in some way.
    fn one(&mut self, r: &mut Rng, at: &At) {
        if r.pct(25) {
            let (n, c) = *r.choose(SYMS);
            self.cmd(r, n);
            self.show(c, at);
            return;
        }
        let c = PLAIN.chars().nth(r.below(PLAIN.chars().count())).unwrap();
        self.put(r, &c.to_string());
        self.show(
            match c {
                '\'' => '’',
                '`' => '‘',
                '"' => '”',
                c => c,
            },
            at,
        );
    }

    fn braced(&mut self, r: &mut Rng, depth: u32, at: &At) {
        self.put(r, "{");
        let mut at = at.clone();
        self.body(r, depth, &mut at);
        if !self.acc.is_empty() {
            self.show('\u{a0}', &at);
        }
        self.put(r, "}");
    }

    fn body(&mut self, r: &mut Rng, depth: u32, at: &mut At) {
        for _ in 0..r.below(6) {
            match r.below(20) {
                0..=7 => self.one(r, at),
                8 | 9 => {
                    // spaces; after a command they have to be shielded
                    if self.skips {
                        self.put(r, "{}");
                        if !self.acc.is_empty() {
                            self.show('\u{a0}', at);
                        }
                    }
                    self.word = false;
                    let x = *r.choose(&[" ", " ", "  ", "\n", "\t ", "~", " % comment\n ", "\r\n"]);
                    self.s.push_str(x);
                    self.show('\u{a0}', at);
                    // two spaces in a row would be one
                    self.skips = x != "~";
                }
                10..=12 if depth > 0 => self.braced(r, depth - 1, at),
                13 | 14 => {
                    // accents
                    let (n, a) = *r.choose(ACCENTS);
                    self.cmd(r, n);
                    self.acc.push(a);
                    match r.below(4) {
                        0 => self.one(r, at),
                        1 => {
                            self.put(r, "{");
                            self.one(r, at);
                            self.put(r, "}");
                        }
                        2 => self.braced(r, depth.saturating_sub(1), at),
                        _ => {}
                    }
                }
                15..=17 if depth > 0 => {
                    let (n, st) = *r.choose(STYLES);
                    self.cmd(r, n);
                    self.arg = true;
                    let a = At { style: combine(at.style, n, st), ..at.clone() };
                    if r.pct(25) { self.one(r, &a) } else { self.braced(r, depth - 1, &a) }
                }
                18 => {
                    let (n, z) = *r.choose(SIZES);
                    self.cmd(r, n);
                    at.size = z;
                }
                19 if depth > 0 => {
                    self.cmd(r, "raisebox");
                    self.arg = true;
                    let k = r.range(-40, 40);
                    let u = r.below(3);
                    let sp = r.pick(&["", " "]).to_string();
                    self.put(r, &format!("{{{}{}{}}}", dec(k), sp, ["pt", "em", "ex"][u]));
                    let mut a = at.clone();
                    // a point is a tenth of a rem
                    a.up[u] += if u == 0 { k * 10 } else { k * 100 };
                    if r.pct(25) { self.one(r, &a) } else { self.braced(r, depth - 1, &a) }
                }
                _ => self.one(r, at),
            }
        }
    }
}

/// k tenths
fn dec(k: i64) -> String {
    format!("{}{}.{}", if k < 0 { "-" } else { "" }, k.abs() / 10, k.abs() % 10)
}

fn parse_len(s: &str, up: &mut [i64; 3]) -> Result<(), String> {
    let units = ["rem", "em", "ex"];
    let u = units.iter().position(|u| s.ends_with(u)).ok_or(format!("unit in {s}"))?;
    // CSS numbers may have an exponent.
    let v: f64 = s[..s.len() - units[u].len()].parse().map_err(|_| format!("not a number: {s}"))?;
    up[u] += (v * 1000.0).round() as i64;
    Ok(())
}

/// The characters of all texts in the output, with their styles.
fn read(e: &El, up: [i64; 3], out: &mut Vec<(char, At)>) -> Result<(), String> {
    match e.name.as_str() {
        "mtext" => {
            let mut size = "";
            for (k, v) in &e.attrs {
                match (k.as_str(), v.as_str()) {
                    ("style", v) => {
                        let z = v.strip_prefix("font-size:").ok_or(format!("style {v}"))?;
                        size = SIZES.iter().find(|x| x.1 == z).ok_or(format!("size {z}"))?.1;
                    }
                    _ => return Err(format!("attribute {k} of mtext")),
                }
            }
            styled(e, "", size, up, out)
        }
        "mpadded" => {
            let mut up = up;
            for (k, v) in &e.attrs {
                match k.as_str() {
                    "voffset" => parse_len(v, &mut up)?,
                    _ => return Err(format!("attribute {k} of mpadded")),
                }
            }
            e.kids.iter().try_for_each(|k| if let Node::El(k) = k { read(k, up, out) } else { Ok(()) })
        }
        _ => e.kids.iter().try_for_each(|k| if let Node::El(k) = k { read(k, up, out) } else { Ok(()) }),
    }
}

fn styled(e: &El, st: &'static str, size: &'static str, up: [i64; 3], out: &mut Vec<(char, At)>) -> Result<(), String> {
    for k in &e.kids {
        match k {
            Node::Text(t) => {
                let mut t = t.as_str();
                // strip_layout doesn't reach into text
                if st.is_empty() && t.trim_matches([' ', '\n']).is_empty() {
                    t = "";
                }
                out.extend(t.chars().map(|c| (c, At { style: st, size, up })))
            }
            Node::El(k) => {
                let new = match (k.name.as_str(), k.attrs.iter().map(|(a, b)| format!("{a}={b}")).collect::<Vec<_>>().join(" ").as_str()) {
                    ("b", "") => "b",
                    ("i", "") => "i",
                    ("em", "") => "em",
                    ("code", "") => "code",
                    ("u", "") => "u",
                    ("s", "") => "s",
                    ("span", "style=font-variant-caps: small-caps") => "sc",
                    ("span", "class=math-core-sans-serif-font") => "sf",
                    ("span", "class=math-core-serif-font") => "serif",
                    (n, a) => return Err(format!("element {n} {a} in text")),
                };
                let new = match (st, new) {
                    ("", n) => n,
                    ("b", "i") => "bi",
                    _ => return Err(format!("{new} in {st}")),
                };
                styled(k, new, size, up, out)?;
            }
        }
    }
    Ok(())
}

fn c17(c: &mut Ctx, r: &mut Rng) {
    let mut b = B::default();
    let (mut pre, mut post) = (String::new(), String::new());
    for (o, x) in [("x_{", "}"), ("\\frac{", "}{2}"), ("\\begin{matrix}a&", "\\\\b\\end{matrix}"), ("\\sqrt{", "}"), ("{", "}"), ("\\left(", "\\right)"), ("\\textcolor{red}{", "}"), ("\\mathrm{", "}"), ("\\hat{", "}")] {
        if r.pct(8) {
            pre.push_str(o);
            post.insert_str(0, x);
        }
    }
    for _ in 0..(1 + r.below(2)) {
        // the top command
        let (n, st) = *r.choose(&STYLES[..12]);
        b.cmd(r, n);
        b.arg = true;
        let at = At { style: st, ..At::default() };
        if r.pct(6) {
            b.one(r, &at)
        } else {
            let d = 1 + r.below(4) as u32;
            b.braced(r, d, &at)
        }
        b.word = false;
        b.s.push_str(r.pick(&["", " ", "+", "{}"]));
    }
    let s = format!("{pre}{}{post}", b.s);
    let mut cfg = Cfg::random(r);
    cfg.macros.clear();
    cfg.max_exp = None;
    cfg.annotation = false;
    let block = r.pct(50);
    let key = format!("{s:?}|{block}|{}", cfg.json());
    if b.out.iter().any(|(ch, a)| !ch.is_ascii_alphabetic() || *a != At::default()) {
        c.nontrivial(&key);
    }
    c.add("characters", b.out.len() as u64);
    c.add("commands within text", b.cmds);
    match conv::local(&cfg.conv(), &s, block) {
        Outcome::Ok { mathml, .. } => {
            let mut got = Vec::new();
            let res = xml::parse(&mathml).map_err(|e| format!("{e:?}")).and_then(|t| read(&t, [0; 3], &mut got));
            if let Err(e) = res {
                c.viol(&key, "the text in the output cannot be read", json!({"what": e, "output": mathml}));
                return;
            }
            if got != b.out {
                let i = got.iter().zip(&b.out).take_while(|(x, y)| x == y).count();
                let text = |v: &[(char, At)]| v.iter().map(|x| x.0).collect::<String>();
                c.viol(
                    &key,
                    "the text is not shown as written",
                    json!({"input": s, "at": i, "expected": format!("{:?}", b.out.get(i)), "got": format!("{:?}", got.get(i)), "text expected": text(&b.out), "text": text(&got)}),
                );
                return;
            }
            c.stat("texts equal");
            c.sample(|| json!({"input": s, "text": b.out.iter().map(|x| x.0).collect::<String>()}));
        }
        o => c.viol(&key, "a correct text is rejected", json!({"input": s, "result": o.short()})),
    }
}
