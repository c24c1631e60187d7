//! Thin layer over the public API of the code under test: every call is made through here, and
//! its result (markup, error or panic) is recorded as an `Outcome`.
use crate::rng::Rng;
use math_core::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok { mathml: String, unknown: bool, undef: bool },
    Err { start: usize, end: usize, msg: String },
    Panic(String),
}

impl Outcome {
    pub fn ok(&self) -> Option<&str> {
        match self {
            Outcome::Ok { mathml, .. } => Some(mathml),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Outcome::Ok { .. })
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Outcome::Err { .. })
    }
    /// The error message without the parts quoted from the input.
    pub fn err_kind(&self) -> Option<String> {
        match self {
            Outcome::Err { msg, .. } => {
                let mut o = String::new();
                let cs: Vec<char> = msg.chars().collect();
                let mut i = 0;
                while i < cs.len() {
                    o.push(cs[i]);
                    if cs[i] == '"' || cs[i] == '\'' {
                        if let Some(k) = cs.iter().rposition(|c| *c == cs[i]) {
                            if k > i {
                                i = k;
                                continue_push(&mut o);
                            }
                        }
                    }
                    i += 1;
                }
                Some(o)
            }
            _ => None,
        }
    }
    pub fn short(&self) -> String {
        match self {
            Outcome::Ok { mathml, unknown, undef } => format!("Ok[{unknown},{undef}] {mathml}"),
            Outcome::Err { start, end, msg } => format!("Err {start}..{end} {msg}"),
            Outcome::Panic(p) => format!("PANIC {p}"),
        }
    }
}

fn continue_push(o: &mut String) {
    o.push('…');
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}").replace('\n', " | ");
        if s.contains("panicked at src/") && !s.contains("/repo/") {
            eprintln!("harness: {s}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn conv_result(r: Result<ConvertResult, Box<LatexError>>) -> Outcome {
    match r {
        Ok(r) => Outcome::Ok {
            unknown: r.warnings.has_unknown_commands(),
            undef: r.warnings.has_undefined_references(),
            mathml: r.mathml,
        },
        Err(e) => Outcome::Err {
            start: e.0.start,
            end: e.0.end,
            msg: e.error_message(),
        },
    }
}

pub fn md(block: bool) -> MathDisplay {
    if block { MathDisplay::Block } else { MathDisplay::Inline }
}

pub fn local(c: &LatexToMathML, s: &str, block: bool) -> Outcome {
    match guarded(|| conv_result(c.convert_with_local_state(s, md(block)))) {
        Ok(o) => o,
        Err(p) => Outcome::Panic(p),
    }
}
pub fn global(c: &mut LatexToMathML, s: &str, block: bool) -> Outcome {
    match guarded(|| conv_result(c.convert_with_global_state(s, md(block)))) {
        Ok(o) => o,
        Err(p) => Outcome::Panic(p),
    }
}
pub fn all(c: &LatexToMathML, v: &[(String, bool)]) -> Result<Vec<Outcome>, String> {
    let items: Vec<(&str, MathDisplay)> = v.iter().map(|(s, b)| (s.as_str(), md(*b))).collect();
    guarded(|| c.convert_all(&items).into_iter().map(conv_result).collect())
}

/// A configuration as plain data, so that it can be written into replay files.
#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub pretty: u8, // 0 never 1 always 2 auto
    pub macros: Vec<(String, String)>,
    pub xmlns: bool,
    pub ignore_unknown: bool,
    pub annotation: bool,
    pub unreliable: bool,
    pub global_group: bool,
    pub subst_never: bool,
    pub tab: bool,
    pub spaces: usize, // used if !tab; 0 => default
    pub max_exp: Option<u32>,
    pub id_prefix: String,
}

impl Cfg {
    pub fn build(&self) -> MathCoreConfig {
        let mut c = MathCoreConfig::default();
        c.pretty_print = match self.pretty {
            0 => PrettyPrint::Never,
            1 => PrettyPrint::Always,
            _ => PrettyPrint::Auto,
        };
        c.macros = self.macros.clone();
        c.xml_namespace = self.xmlns;
        c.ignore_unknown_commands = self.ignore_unknown;
        c.annotation = self.annotation;
        c.allow_unreliable_rendering = self.unreliable;
        c.global_group = self.global_group;
        c.unicode_substitution =
            if self.subst_never { UnicodeSubstitution::Never } else { UnicodeSubstitution::Conventional };
        if self.tab {
            c.indentation = Indentation::Keyword(IndentKeyword::Tab);
        } else if self.spaces > 0 {
            c.indentation = Indentation::Spaces(self.spaces);
        }
        if let Some(m) = self.max_exp {
            c.max_expansions = MaxExpansions(m);
        }
        c.id_prefix = self.id_prefix.clone();
        c
    }
    pub fn conv(&self) -> LatexToMathML {
        match LatexToMathML::new(self.build()) {
            Ok(c) => c,
            Err(e) => panic!("harness: config rejected: {:?}", e),
        }
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({"pretty": self.pretty, "macros": self.macros, "xmlns": self.xmlns,
            "ignore_unknown": self.ignore_unknown, "annotation": self.annotation, "unreliable": self.unreliable,
            "global_group": self.global_group, "subst_never": self.subst_never, "tab": self.tab,
            "spaces": self.spaces, "max_exp": self.max_exp, "id_prefix": self.id_prefix})
    }
    /// A random configuration without macros.
    pub fn random(r: &mut Rng) -> Cfg {
        Cfg {
            pretty: r.below(3) as u8,
            macros: vec![],
            xmlns: r.pct(30),
            ignore_unknown: r.pct(50),
            annotation: r.pct(30),
            unreliable: r.pct(40),
            global_group: r.pct(30),
            subst_never: r.pct(40),
            tab: r.pct(20),
            spaces: r.below(5),
            max_exp: if r.pct(20) { Some(r.below(50) as u32) } else { None },
            id_prefix: if r.pct(20) { "eq-".into() } else { String::new() },
        }
    }
}
