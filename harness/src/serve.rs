//! The library behind a pipe: one JSON request per line, one JSON answer per line. The monitors
//! around the command line tool and the Python module compare with these answers.
use crate::conv::{Cfg, guarded, md};
use math_core::{LatexError, LatexToMathML, MathCoreConfig};
use serde_json::{Value, json};
use std::io::{BufRead, Write};

fn cfg(v: &Value) -> Cfg {
    let b = |k: &str| v[k].as_bool().unwrap_or(false);
    Cfg {
        pretty: v["pretty"].as_u64().unwrap_or(0) as u8,
        macros: v["macros"]
            .as_array()
            .map(|a| a.iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string())).collect())
            .unwrap_or_default(),
        xmlns: b("xmlns"),
        ignore_unknown: b("ignore_unknown"),
        annotation: b("annotation"),
        unreliable: b("unreliable"),
        global_group: b("global_group"),
        subst_never: b("subst_never"),
        tab: b("tab"),
        spaces: v["spaces"].as_u64().unwrap_or(0) as usize,
        max_exp: v["max_exp"].as_u64().map(|x| x as u32),
        id_prefix: v["id_prefix"].as_str().unwrap_or("").into(),
    }
}

fn error(e: &LatexError, latex: &str, block: bool, source: &str) -> Value {
    let mut m = String::new();
    e.to_message(&mut m, latex);
    let mut buf = Vec::new();
    let _ = e.to_report(source, true).write((source, ariadne::Source::from(latex)), &mut buf);
    let mut plain = Vec::new();
    let _ = e.to_report(source.trim_end_matches(|c: char| c.is_ascii_digit()), false).write(
        (source.trim_end_matches(|c: char| c.is_ascii_digit()), ariadne::Source::from(latex)),
        &mut plain,
    );
    json!({"label": e.label(), "plain": String::from_utf8_lossy(&plain), "latex": latex, "html": e.to_html(latex, md(block), None), "message": m, "report": String::from_utf8_lossy(&buf),
        "start": e.0.start, "end": e.0.end, "error": e.error_message()})
}

fn answer(k: &mut Option<LatexToMathML>, q: &Value) -> Value {
    let s = q["s"].as_str().unwrap_or("").to_string();
    let b = q["b"].as_bool().unwrap_or(false);
    let source = q["source"].as_str().unwrap_or("input").to_string();
    match q["op"].as_str().unwrap_or("") {
        "new" => {
            let c: MathCoreConfig = cfg(&q["cfg"]).build();
            match LatexToMathML::new(c) {
                Ok(c) => {
                    *k = Some(c);
                    json!({"ok": ""})
                }
                Err((e, i, d)) => {
                    let mut v = error(&e, &d, false, &format!("macro{i}"));
                    v["index"] = json!(i);
                    v
                }
            }
        }
        op @ ("g" | "l") => {
            let k = k.as_mut().unwrap();
            let r = if op == "g" { k.convert_with_global_state(&s, md(b)) } else { k.convert_with_local_state(&s, md(b)) };
            match r {
                Ok(r) => json!({"ok": r.mathml}),
                Err(e) => error(&e, &s, b, &source),
            }
        }
        "all" => {
            let v: Vec<(String, bool)> = q["v"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_bool().unwrap()))
                .collect();
            let items: Vec<_> = v.iter().map(|(s, b)| (s.as_str(), md(*b))).collect();
            let r = k.as_ref().unwrap().convert_all(&items);
            Value::Array(
                r.into_iter()
                    .enumerate()
                    .map(|(i, r)| match r {
                        Ok(r) => json!({"ok": r.mathml}),
                        Err(e) => error(&e, &v[i].0, v[i].1, &format!("input{i}")),
                    })
                    .collect(),
            )
        }
        "reset" => {
            k.as_mut().unwrap().reset_global_state();
            json!({"ok": ""})
        }
        _ => json!({"bad": "request"}),
    }
}

pub fn serve() {
    let mut k = Some(Cfg::default().conv());
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let q: Value = serde_json::from_str(&l).expect("request");
        let a = guarded(|| answer(&mut k, &q)).unwrap_or_else(|p| json!({"panic": p}));
        let mut o = out.lock();
        writeln!(o, "{a}").unwrap();
        o.flush().unwrap();
    }
}
