//! Definitions of custom commands over histories of formulas, against a small model of TeX's
//! expansion: C09 (where a definition is visible) and C10 (the limit of expansions).
use crate::conv::{self, Cfg, Outcome};
use crate::ctx::Ctx;
use crate::gen_::{Lay, T, a, layout, w};
use crate::rng::Rng;
use crate::xml::{self, El, Node};
use serde_json::json;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub fn case(prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    match prop {
        "C09" => c09(c, r),
        "C10" => c10(c, r),
        _ => return false,
    }
    true
}

#[derive(Clone, Debug)]
enum Tk {
    Ch(char),
    /// A command; the flag says whether it comes from the body of a custom command.
    Name(&'static str, bool),
    Group(Vec<Tk>),
    /// Structure which shows no letters.
    Raw(&'static str),
    Par(usize),
    Def(How, &'static str, Vec<Tk>),
    /// `\let`: global, name, source
    Let(bool, &'static str, Box<Tk>),
    Bound(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    New,
    Renew,
    Provide,
    Def,
    Gdef,
    GlobalDef,
}

#[derive(Clone, Debug)]
enum V {
    Mac(Rc<Mac>),
    /// A symbol.
    Sym(char),
    /// A built-in command with arguments, which shows them in order.
    Args,
}

#[derive(Debug)]
struct Mac {
    args: usize,
    body: Vec<Tk>,
    alias_of_mac: bool,
}

type Store = BTreeMap<&'static str, Rc<Mac>>;

const N0: &[&str] = &["qa", "qb", "qc", "alpha", "beta", "qd"];
const N1: &[&str] = &["fa", "fb", "bar"];
const N2: &[&str] = &["ha", "hb", "frac"];

fn arity(n: &str) -> usize {
    if N1.contains(&n) {
        1
    } else if N2.contains(&n) {
        2
    } else {
        0
    }
}

fn builtin(n: &str) -> Option<V> {
    match n {
        "alpha" => Some(V::Sym('α')),
        "beta" => Some(V::Sym('β')),
        "bar" | "frac" => Some(V::Args),
        _ => None,
    }
}

/// What a formula comes to: what it shows, or the beginning of the error message.
type Res = Result<String, &'static str>;
const UNKNOWN: &str = "Unknown command";
const TAKEN: &str = "This command is already defined";
const NOT_DEFINED: &str = "This command is not defined";
const TOO_MANY: &str = "Too many expansions";

struct Run<'a> {
    config: &'a Store,
    doc: &'a mut Store,
    local: Store,
    global_group: bool,
    ignore: bool,
    limit: u64,
    count: u64,
    aliases: bool,
    /// The model does not say what happens.
    unclear: Option<&'static str>,
    definitions: u64,
}

impl<'a> Run<'a> {
    fn look(&self, n: &str) -> Option<V> {
        self.local.get(n).or_else(|| self.doc.get(n)).or_else(|| self.config.get(n)).map(|m| V::Mac(m.clone())).or_else(|| builtin(n))
    }

    fn unknown_in(&self, t: &[Tk]) -> bool {
        t.iter().any(|t| match t {
            Tk::Name(n, _) => self.look(n).is_none(),
            Tk::Group(g) => self.unknown_in(g),
            Tk::Def(_, n, b) => self.look(n).is_none() || self.unknown_in(b),
            Tk::Let(_, n, s) => self.look(n).is_none() || self.unknown_in(std::slice::from_ref(s)),
            _ => false,
        })
    }

    fn has_from_body(q: &VecDeque<Tk>, n: &str) -> bool {
        fn f(t: &Tk, n: &str) -> bool {
            match t {
                Tk::Name(m, b) => *b && *m == n,
                Tk::Group(g) => g.iter().any(|t| f(t, n)),
                Tk::Def(_, m, b) => *m == n || b.iter().any(|t| f(t, n)),
                Tk::Let(_, m, s) => *m == n || f(s, n),
                _ => false,
            }
        }
        q.iter().any(|t| f(t, n))
    }

    fn define(&mut self, q: &VecDeque<Tk>, n: &'static str, m: Mac, global: bool) {
        self.definitions += 1;
        if self.look(n).is_some() && Self::has_from_body(q, n) {
            // see the known finding: what is left of a body keeps the former meaning
            self.unclear = Some("redefinition in the middle of a body");
        }
        let m = Rc::new(m);
        if global || self.global_group {
            self.doc.insert(n, m);
            self.local.remove(n);
        } else {
            self.local.insert(n, m);
        }
    }

    fn run(&mut self, prog: &[Tk]) -> Res {
        let mut out = String::new();
        let mut q: VecDeque<Tk> = prog.iter().cloned().collect();
        let (mut steps, mut size) = (0, 0);
        while let Some(t) = q.pop_front() {
            steps += 1;
            if steps > 60_000 || q.len() > 20_000 {
                self.unclear = Some("too long");
                return Ok(out);
            }
            let v = match t {
                Tk::Ch(c) => {
                    out.push(c);
                    continue;
                }
                Tk::Raw(_) => continue,
                Tk::Par(_) => unreachable!(),
                Tk::Group(g) => {
                    for t in g.into_iter().rev() {
                        q.push_front(t);
                    }
                    continue;
                }
                Tk::Def(how, n, body) => {
                    let known = self.look(n).is_some();
                    match how {
                        How::New if known => return Err(TAKEN),
                        How::Renew if !known => return Err(NOT_DEFINED),
                        How::Provide if known => continue,
                        _ => {}
                    }
                    let m = Mac { args: arity(n), body, alias_of_mac: false };
                    self.define(&q, n, m, matches!(how, How::Gdef | How::GlobalDef));
                    continue;
                }
                Tk::Let(global, n, src) => {
                    let v = match *src {
                        Tk::Ch(c) => V::Sym(c),
                        Tk::Name(s, _) => match self.look(s) {
                            Some(v) => v,
                            None => return Err(UNKNOWN),
                        },
                        _ => unreachable!(),
                    };
                    let alias_of_mac = matches!(v, V::Mac(_));
                    let m = Mac { args: 0, body: vec![Tk::Bound(v)], alias_of_mac };
                    self.define(&q, n, m, global);
                    continue;
                }
                Tk::Name(n, _) => match self.look(n) {
                    Some(v) => v,
                    None if self.ignore => {
                        out.push('\\');
                        out.push_str(n);
                        continue;
                    }
                    None => return Err(UNKNOWN),
                },
                Tk::Bound(v) => v,
            };
            match v {
                V::Sym(c) => out.push(c),
                V::Args => {}
                V::Mac(m) => {
                    if self.count == self.limit {
                        return Err(TOO_MANY);
                    }
                    self.count += 1;
                    self.aliases |= m.alias_of_mac;
                    let mut args: Vec<Vec<Tk>> = Vec::new();
                    for _ in 0..m.args {
                        let g = match q.pop_front() {
                            Some(Tk::Group(g)) => g,
                            Some(t @ (Tk::Ch(_) | Tk::Name(..))) => vec![t],
                            _ => {
                                self.unclear = Some("no argument");
                                return Ok(out);
                            }
                        };
                        if !self.ignore && self.unknown_in(&g) {
                            return Err(UNKNOWN);
                        }
                        args.push(g);
                    }
                    // how many tokens the body comes to
                    size += size_of(&m.body, &args);
                    if size > 20_000 {
                        self.unclear = Some("too long");
                        return Ok(out);
                    }
                    for t in subst(&m.body, &args).into_iter().rev() {
                        q.push_front(t);
                    }
                }
            }
        }
        Ok(out)
    }
}

fn size_of(body: &[Tk], args: &[Vec<Tk>]) -> usize {
    body.iter()
        .map(|t| match t {
            Tk::Par(i) => args.get(*i).map_or(1, |a| size_of(a, &[])),
            Tk::Group(g) => 1 + size_of(g, args),
            _ => 1,
        })
        .sum()
}

fn subst(body: &[Tk], args: &[Vec<Tk>]) -> Vec<Tk> {
    let mut o = Vec::new();
    for t in body {
        match t {
            Tk::Par(i) => o.extend(args[*i].iter().cloned()),
            Tk::Group(g) => o.push(Tk::Group(subst(g, args))),
            Tk::Name(n, _) => o.push(Tk::Name(n, true)),
            t => o.push(t.clone()),
        }
    }
    o
}

fn letter(r: &mut Rng) -> Tk {
    Tk::Ch((b'a' + r.below(26) as u8 - if r.pct(50) { 0 } else { 32 }) as char)
}

fn any_name(r: &mut Rng, builtins: bool) -> &'static str {
    loop {
        let n = match r.below(10) {
            0..=5 => r.pick(N0),
            6..=8 => r.pick(N1),
            _ => r.pick(N2),
        };
        if builtins || builtin(n).is_none() || r.pct(25) {
            // (`pick` borrows from a 'static list)
            return N0.iter().chain(N1).chain(N2).find(|x| ***x == *n).unwrap();
        }
    }
}

fn call(r: &mut Rng, depth: u32, par: usize, defs: bool, o: &mut Vec<Tk>) {
    let n = any_name(r, true);
    o.push(Tk::Name(n, false));
    for _ in 0..arity(n) {
        let mut g = Vec::new();
        if depth > 0 {
            let defs = defs && r.pct(40);
            stmts(r, depth - 1, par, defs, 2, &mut g);
        } else {
            g.push(if par > 0 && r.pct(50) { Tk::Par(r.below(par)) } else { letter(r) });
        }
        o.push(Tk::Group(g));
    }
}

fn body(r: &mut Rng, args: usize) -> Vec<Tk> {
    let mut b = Vec::new();
    for _ in 0..r.below(4) {
        match r.below(6) {
            0 | 1 => b.push(letter(r)),
            2 | 3 if args > 0 => b.push(Tk::Par(r.below(args))),
            4 => {
                let mut g = Vec::new();
                stmts(r, 0, args, false, 2, &mut g);
                b.push(Tk::Group(g));
            }
            _ => call(r, 1, args, false, &mut b),
        }
    }
    if b.is_empty() {
        b.push(letter(r));
    }
    b
}

fn def(r: &mut Rng, o: &mut Vec<Tk>) {
    let n = any_name(r, false);
    if r.pct(20) {
        let src = loop {
            if arity(n) == 0 && r.pct(20) {
                break letter(r);
            }
            let s = any_name(r, true);
            if arity(s) == arity(n) {
                break Tk::Name(s, false);
            }
        };
        o.push(Tk::Let(r.pct(30), n, Box::new(src)));
        return;
    }
    let how = *r.choose(&[How::New, How::New, How::New, How::Renew, How::Renew, How::Provide, How::Provide, How::Def, How::Def, How::Gdef, How::GlobalDef]);
    let b = body(r, arity(n));
    o.push(Tk::Def(how, n, b));
}

/// `par`: number of parameters that may be used (only in bodies).
fn stmts(r: &mut Rng, depth: u32, par: usize, defs: bool, most: usize, o: &mut Vec<Tk>) {
    for _ in 0..(1 + r.below(most)) {
        match r.below(12) {
            0 | 1 => o.push(if par > 0 && r.pct(50) { Tk::Par(r.below(par)) } else { letter(r) }),
            2..=4 if defs => def(r, o),
            5 if depth > 0 && par == 0 => {
                let (open, mid, close): (&str, &str, &str) = *r.choose(&[
                    ("\\left(", "", "\\right)"),
                    ("\\sqrt{", "", "}"),
                    ("\\begin{matrix}", "&", "\\end{matrix}"),
                    ("\\begin{pmatrix}", "\\\\", "\\end{pmatrix}"),
                    ("{}_{", "}^{", "}"),
                    ("\\binom{", "}{", "}"),
                    ("\\begin{aligned}", "&", "\\end{aligned}"),
                    ("\\phantom{", "", "}"),
                    ("\\overline{", "", "}"),
                    ("{\\displaystyle ", "", "}"),
                    ("{}+{", "}-{", "}"),
                    ("\\mathopen{", "}\\mathrel{", "}"),
                ]);
                o.push(Tk::Raw(open));
                stmts(r, depth - 1, 0, defs, most, o);
                if !mid.is_empty() {
                    o.push(Tk::Raw(mid));
                    stmts(r, depth - 1, 0, defs, most, o);
                }
                o.push(Tk::Raw(close));
            }
            6 if depth > 0 => {
                let mut g = Vec::new();
                stmts(r, depth - 1, par, defs, most, &mut g);
                o.push(Tk::Group(g));
            }
            _ => call(r, depth, par, defs, o),
        }
    }
}

fn source(t: &[Tk], r: &mut Rng, o: &mut Vec<T>) {
    for t in t {
        match t {
            Tk::Ch(c) => o.push(a(&c.to_string())),
            Tk::Name(n, _) => o.push(w(n)),
            Tk::Raw(s) => o.push(a(s)),
            Tk::Par(i) => o.push(a(&format!("#{}", i + 1))),
            Tk::Group(g) => {
                o.push(a("{"));
                source(g, r, o);
                o.push(a("}"));
            }
            Tk::Bound(_) => unreachable!(),
            Tk::Let(g, n, s) => {
                if *g {
                    o.push(w("global"));
                }
                o.push(w("let"));
                o.push(w(n));
                if r.pct(50) {
                    o.push(a("="));
                }
                source(std::slice::from_ref(s), r, o);
            }
            Tk::Def(how, n, b) => {
                let k = arity(n);
                let cmd = match how {
                    How::New => "newcommand",
                    How::Renew => "renewcommand",
                    How::Provide => "providecommand",
                    How::Def => "def",
                    How::Gdef => "gdef",
                    How::GlobalDef => {
                        o.push(w("global"));
                        if r.pct(20) {
                            o.push(w("global"));
                        }
                        r.pick(&["def", "gdef"])
                    }
                };
                o.push(w(cmd));
                if matches!(how, How::New | How::Renew | How::Provide) {
                    let braced = r.pct(50);
                    if braced {
                        o.push(a("{"));
                    }
                    o.push(w(n));
                    if braced {
                        o.push(a("}"));
                    }
                    if k > 0 || r.pct(10) {
                        o.extend([a("["), a(&k.to_string()), a("]")]);
                    }
                } else {
                    o.push(w(n));
                    for i in 0..k {
                        // whitespace would be a delimiter here
                        if i > 0 {
                            o.push(T::Glue);
                        }
                        o.push(a(&format!("#{}", i + 1)));
                    }
                    if k > 0 {
                        o.push(T::Glue);
                    }
                }
                o.push(a("{"));
                source(b, r, o);
                o.push(a("}"));
            }
        }
    }
}

/// The letters and unknown commands a result shows, in order.
fn shown(o: &Outcome) -> Result<String, String> {
    fn walk(e: &El, out: &mut String) {
        let txt = || -> String {
            e.kids.iter().filter_map(|k| if let Node::Text(t) = k { Some(t.as_str()) } else { None }).collect()
        };
        match e.name.as_str() {
            "mi" => {
                for c in txt().chars() {
                    // mathematical italic Greek is what `\alpha` may show
                    out.push(match c as u32 {
                        0x1d6fc => 'α',
                        0x1d6fd => 'β',
                        _ => c,
                    });
                }
            }
            "merror" => {
                for k in &e.kids {
                    if let Node::El(m) = k {
                        for k in &m.kids {
                            if let Node::Text(t) = k {
                                out.push_str(t);
                            }
                        }
                    }
                }
            }
            _ => {
                // in the order of the source
                for k in &e.kids {
                    if let Node::El(k) = k {
                        walk(k, out);
                    }
                }
            }
        }
    }
    match o {
        Outcome::Ok { mathml, .. } => {
            let t = xml::parse(mathml).map_err(|e| format!("{e:?}"))?;
            let mut s = String::new();
            walk(&xml::strip_layout(&t), &mut s);
            Ok(s)
        }
        _ => Err("no output".into()),
    }
}

/// Compare one result with the model.
fn agree(o: &Outcome, want: &Res, big: bool) -> Result<(), String> {
    match (o, want) {
        (Outcome::Ok { unknown, .. }, Ok(s)) => {
            let got = shown(o)?;
            if got != *s {
                return Err(format!("shows {got:?} instead of {s:?}"));
            }
            if *unknown != s.contains('\\') {
                return Err("the warning about unknown commands is wrong".into());
            }
            Ok(())
        }
        (Outcome::Err { msg, .. }, Err(e)) => {
            // endless recursion which nests meets one of the hard limits first
            if msg.starts_with(e) || *e == TOO_MANY && big && msg.starts_with("Hard limit exceeded") {
                Ok(())
            } else {
                Err(format!("error {msg:?} instead of {e:?}"))
            }
        }
        (Outcome::Ok { .. }, Err(e)) => Err(format!("converts instead of the error {e:?}")),
        (Outcome::Err { msg, .. }, Ok(s)) => Err(format!("error {msg:?} instead of showing {s:?}")),
        (Outcome::Panic(p), _) => Err(format!("panic {p}")),
    }
}

/// Custom commands for the configuration: they use only each other and built-in commands.
fn config(r: &mut Rng, cfg: &mut Cfg) -> Store {
    let mut st = Store::new();
    let mut names: Vec<&'static str> = Vec::new();
    for _ in 0..r.below(4) {
        let n = any_name(r, false);
        if !names.contains(&n) {
            names.push(n);
        }
    }
    for n in &names {
        let k = arity(n);
        let b = loop {
            let mut b = body(r, k);
            if k > 0 {
                // the number of parameters is taken from the body
                b.push(Tk::Par(k - 1));
            }
            fn ok(t: &[Tk], names: &[&str]) -> bool {
                t.iter().all(|t| match t {
                    Tk::Name(n, _) => names.contains(n) || builtin(n).is_some(),
                    Tk::Group(g) => ok(g, names),
                    _ => true,
                })
            }
            if ok(&b, &names) {
                break b;
            }
        };
        let mut src = Vec::new();
        source(&b, r, &mut src);
        cfg.macros.push((n.to_string(), layout(&src, Lay::Min, r)));
        st.insert(n, Rc::new(Mac { args: k, body: b, alias_of_mac: false }));
    }
    st
}

fn c09(c: &mut Ctx, r: &mut Rng) {
    let mut cfg = Cfg { global_group: r.pct(50), ignore_unknown: r.pct(40), pretty: r.below(2) as u8, ..Cfg::default() };
    let limit = if r.pct(15) { r.below(40) as u64 } else { 1000 };
    if limit != 1000 || r.pct(30) {
        cfg.max_exp = Some(limit as u32);
    }
    let conf = config(r, &mut cfg);
    let mut k = match conv::guarded(|| math_core::LatexToMathML::new(cfg.build())) {
        Ok(Ok(k)) => k,
        Ok(Err(e)) => {
            c.viol(&cfg.json().to_string(), "a correct configuration is rejected", json!({"error": e.0.error_message()}));
            return;
        }
        Err(p) => {
            c.viol(&cfg.json().to_string(), "creating the converter panics", json!({"panic": p}));
            return;
        }
    };
    let mut doc = Store::new();
    let mut log: Vec<String> = Vec::new();
    let (mut defs, mut errs) = (0, 0);
    for _ in 0..(1 + r.below(6)) {
        let one = |r: &mut Rng| {
            let mut p = Vec::new();
            stmts(r, 2, 0, true, 5, &mut p);
            let lay = *r.choose(&[Lay::Min, Lay::Min, Lay::Spaced, Lay::Wild]);
            let mut t = Vec::new();
            source(&p, r, &mut t);
            let s = layout(&t, lay, r);
            (p, s)
        };
        let mut model = |p: &[Tk], doc: &mut Store, c: &mut Ctx| -> Option<Res> {
            let mut m = Run {
                config: &conf,
                doc,
                local: Store::new(),
                global_group: cfg.global_group,
                ignore: cfg.ignore_unknown,
                limit,
                count: 0,
                aliases: false,
                unclear: None,
                definitions: 0,
            };
            let res = m.run(p);
            defs += m.definitions;
            c.add("expansions", m.count);
            match m.unclear {
                Some(w) => {
                    c.stat(&format!("left out: {w}"));
                    None
                }
                None => Some(res),
            }
        };
        let mut check = |o: &Outcome, want: &Res, s: &str, log: &[String], c: &mut Ctx| -> bool {
            c.stat(match want {
                Ok(_) => "formulas that convert",
                Err(UNKNOWN) => "formulas with unknown commands",
                Err(TAKEN) => "formulas with \\newcommand for a taken name",
                Err(NOT_DEFINED) => "formulas with \\renewcommand for a free name",
                Err(_) => "formulas with too many expansions",
            });
            errs += want.is_err() as u64;
            if let Err(e) = agree(o, want, limit >= 200) {
                let key = format!("{log:?} {}", cfg.json());
                c.viol(&key, "a definition is not visible exactly where its scope says", json!({"formula": s, "what": e, "result": o.short()}));
                return false;
            }
            true
        };
        match r.below(10) {
            0..=5 => {
                let (p, s) = one(r);
                log.push(format!("global: {s}"));
                let o = conv::global(&mut k, &s, false);
                let Some(want) = model(&p, &mut doc, c) else { return };
                if !check(&o, &want, &s, &log, c) {
                    return;
                }
            }
            6 | 7 => {
                let (p, s) = one(r);
                log.push(format!("local: {s}"));
                let o = conv::local(&k, &s, false);
                let Some(want) = model(&p, &mut Store::new(), c) else { return };
                if !check(&o, &want, &s, &log, c) {
                    return;
                }
            }
            8 => {
                let v: Vec<_> = (0..2 + r.below(3)).map(|_| one(r)).collect();
                let l: Vec<(String, bool)> = v.iter().map(|(_, s)| (s.clone(), false)).collect();
                log.push(format!("all: {:?}", l));
                let Ok(o) = conv::all(&k, &l) else {
                    c.viol(&format!("{log:?}"), "panic", json!({}));
                    return;
                };
                let mut d = Store::new();
                for ((p, s), o) in v.iter().zip(&o) {
                    let Some(want) = model(p, &mut d, c) else { return };
                    if !check(o, &want, s, &log, c) {
                        return;
                    }
                }
            }
            _ => {
                log.push("reset".into());
                k.reset_global_state();
                doc.clear();
            }
        }
    }
    c.add("definitions carried out", defs);
    c.add("formulas rejected as they should be", errs);
    if defs > 0 || !conf.is_empty() {
        c.nontrivial(&format!("{log:?} {}", cfg.json()));
    }
    c.sample(|| json!({"history": log, "macros": cfg.macros}));
}

fn c10(c: &mut Ctx, r: &mut Rng) {
    let mut cfg = Cfg { global_group: r.pct(50), ..Cfg::default() };
    let conf = config(r, &mut cfg);
    // a few formulas, with the number of expansions each takes
    let mut doc = Store::new();
    let mut fs: Vec<(String, Res, u64)> = Vec::new();
    for _ in 0..(1 + r.below(3)) {
        let mut p = Vec::new();
        stmts(r, 2, 0, true, 6, &mut p);
        if r.pct(20) {
            // a command which doubles itself, some levels deep
            let names = ["qa", "qb", "qc", "qd"];
            let n = 1 + r.below(3);
            for i in 0..n {
                let b = if i == 0 && r.pct(25) { vec![] } else if i == 0 { vec![letter(r)] } else { vec![Tk::Name(names[i - 1], false); 1 + r.below(4)] };
                p.push(Tk::Def(How::Def, names[i], b));
            }
            for _ in 0..(1 + r.below(20)) {
                p.push(Tk::Name(names[n - 1], false));
            }
        }
        let mut t = Vec::new();
        source(&p, r, &mut t);
        let s = layout(&t, *r.choose(&[Lay::Min, Lay::Spaced]), r);
        let mut m = Run {
            config: &conf,
            doc: &mut doc,
            local: Store::new(),
            global_group: cfg.global_group,
            ignore: false,
            limit: 5000,
            count: 0,
            aliases: false,
            unclear: None,
            definitions: 0,
        };
        let res = m.run(&p);
        if m.unclear.is_some() || m.aliases || res == Err(TOO_MANY) {
            c.stat("left out");
            return;
        }
        fs.push((s, res, m.count));
    }
    let most = fs.iter().map(|f| f.2).max().unwrap();
    let ok = fs.iter().all(|f| f.1.is_ok());
    let key = format!("{:?} {:?}", fs.iter().map(|f| &f.0).collect::<Vec<_>>(), cfg.json());
    let mut limits = vec![most, most + 1 + r.below(10) as u64];
    if most > 0 {
        limits.extend([most - 1, r.below(most as usize) as u64, 0]);
    }
    for limit in limits {
        if limit > u32::MAX as u64 {
            continue;
        }
        cfg.max_exp = Some(limit as u32);
        let mut k = cfg.conv();
        // Once a formula stops early, the later ones are not predicted.
        for (s, res, n) in &fs {
            let o = conv::global(&mut k, s, false);
            let want: Res = if *n > limit { Err(TOO_MANY) } else { res.clone() };
            if let Err(e) = agree(&o, &want, limit >= 200) {
                c.viol(&format!("limit {limit}: {key}"), "the limit of expansions is not exact", json!({"formula": s, "expansions": n, "limit": limit, "what": e}));
                return;
            }
            c.stat(if *n > limit { "formulas over the limit" } else { "formulas within the limit" });
            if *n == limit {
                c.stat("formulas exactly at the limit");
            }
            if *n == limit + 1 {
                c.stat("formulas one expansion over the limit");
            }
            if *n > limit {
                break;
            }
        }
    }
    // an endless recursion is cut off, no matter how large the limit
    if r.pct(2) {
        let limit = r.below(20_000) as u32;
        cfg.max_exp = Some(limit);
        let s = r.pick(&["\\def\\qa{x\\qa}\\qa", "\\def\\qa{\\qb}\\def\\qb{\\qa}\\qb", "\\def\\fa#1{\\fa{#1}}\\fa z"]);
        let o = conv::local(&cfg.conv(), s, true);
        if let Err(e) = agree(&o, &Err(TOO_MANY), limit >= 200) {
            c.viol(&format!("limit {limit}: {s:?}"), "an endless recursion is not reported", json!({"what": e}));
        }
        c.stat("endless recursions");
    }
    c.add("expansions", fs.iter().map(|f| f.2).sum());
    c.max("most expansions in one formula", most);
    if most > 0 {
        c.nontrivial(&key);
    }
    if ok && most > 3 {
        c.sample(|| json!({"formulas": fs.iter().map(|f| (&f.0, f.2)).collect::<Vec<_>>()}));
    }
}

/// The known finding.
pub fn probe(c: &mut Ctx) {
    let s = "\\def\\qa{y}\\def\\foo#1{#1\\qa}\\foo{\\def\\qa{x}}";
    let o = conv::local(&Cfg::default().conv(), s, false);
    if let Err(e) = agree(&o, &Ok("x".into()), false) {
        c.viol(s, "a redefinition in an argument does not reach the rest of the body", json!({"what": e}));
    }
}
