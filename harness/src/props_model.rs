//! Properties decided with the reference model of formulas: C23, C26, C28, C29.
use crate::conv::*;
use crate::ctx::Ctx;
use crate::gen_::{Data, Lay, layout};
use crate::model::*;
use crate::rng::Rng;
use crate::xml;
use serde_json::json;

pub fn case(_d: &Data, prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    match prop {
        "C23" => c23(c, r),
        "C26" => model_case(c, r, Bias { fonts: 2, colors: 2, styles: 2, ops: 10, tables: 6, other: 34 }, Facets { style: false, color: false, stacked: false, fence: true }, 'n'),
        "C28" => model_case(c, r, Bias { fonts: 1, colors: 2, styles: 6, ops: 16, tables: 6, other: 32 }, Facets { style: true, color: false, stacked: true, fence: false }, 's'),
        "C29" => {
            if r.pct(4) {
                named(c, r);
            } else {
                model_case(c, r, Bias { fonts: 1, colors: 12, styles: 2, ops: 5, tables: 8, other: 28 }, Facets { style: false, color: true, stacked: false, fence: false }, 'c');
            }
        }
        _ => return false,
    }
    true
}

/// A name of a colour shows that colour; what is no such name is an error.
fn named(c: &mut Ctx, r: &mut Rng) {
    use crate::colors::NAMED;
    let (n, v, tol) = if c.idx < 40 * NAMED.len() as u64 { NAMED[(c.idx % NAMED.len() as u64) as usize] } else { *r.choose(NAMED) };
    let block = r.pct(50);
    let mut cfg = Cfg::random(r);
    cfg.max_exp = None;
    let k = cfg.conv();
    let form = |n: &str, r: &mut Rng| {
        let core = match r.below(3) {
            0 => format!("{{\\color{{{n}}}x}}"),
            _ => format!("\\textcolor{{{n}}}{{x}}"),
        };
        match r.below(5) {
            0 => format!("\\frac{{a}}{core}"),
            1 => format!("\\begin{{matrix}}a&{core}\\end{{matrix}}"),
            2 => format!("\\def\\q#1{{a#1}}\\q{core}"),
            _ => core,
        }
    };
    if r.pct(25) {
        let mut cs: Vec<char> = n.chars().collect();
        let i = r.below(cs.len());
        match r.below(5) {
            0 => {
                cs.remove(i);
            }
            1 => cs.insert(i, *r.choose(&['a', 'e', 'Z', '0', 'é', ' '])),
            2 => cs[i] = if cs[i].is_ascii_uppercase() { cs[i].to_ascii_lowercase() } else { cs[i].to_ascii_uppercase() },
            3 => cs.rotate_left(1),
            _ => cs[i] = *r.choose(&['a', 'e', 'q', 'X']),
        }
        let m: String = cs.into_iter().collect();
        if NAMED.iter().any(|(x, ..)| *x == m) {
            return;
        }
        let s = form(&m, r);
        c.nontrivial(&s);
        c.stat("no colour name");
        if let Outcome::Ok { mathml, .. } = local(&k, &s, block) {
            if !mathml.contains("math-core-error") && !mathml.contains("<merror") {
                c.viol(&s, "a name which is no colour is accepted", json!({"output": mathml}));
            }
        }
        return;
    }
    let s = form(n, r);
    c.nontrivial(&s);
    c.stat("colour name");
    match local(&k, &s, block) {
        Outcome::Ok { mathml, .. } => {
            let shown: Vec<&str> = mathml.split("color:#").skip(1).map(|p| p.get(..6).unwrap_or("")).collect();
            let ok = shown.len() == 1
                && u32::from_str_radix(shown[0], 16).is_ok_and(|x| {
                    let near = |a: u32, b: u8| (a & 255).abs_diff(b as u32) <= tol as u32;
                    near(x >> 16, v.0) && near(x >> 8, v.1) && near(x, v.2)
                });
            if !ok {
                c.viol(&s, "a named colour is not shown as that colour", json!({"shown": shown, "expected about": [v.0, v.1, v.2], "within": tol, "output": mathml}));
            }
        }
        Outcome::Panic(_) => c.stat("skipped: panic"),
        o => c.viol(&s, "a named colour is rejected", json!({"result": o.short()})),
    }
}

fn c23(c: &mut Ctx, r: &mut Rng) {
    model_case(c, r, Bias { fonts: 16, colors: 2, styles: 2, ops: 5, tables: 6, other: 22 }, Facets { style: false, color: false, stacked: false, fence: false }, 'f')
}

/// Fixed formulas of the known findings (see known_findings.json): reported as long as they fail.
pub fn probes(prop: &str, c: &mut Ctx) {
    if prop == "C05" {
        crate::props_doc::probe(c);
    }
    if prop == "C09" {
        crate::props_scope::probe(c);
    }
    if prop == "C27" {
        crate::props_spacing::probe(c);
    }
    if prop == "C08" {
        crate::props_macro::probes(c);
    }
    let all = Facets { style: true, color: true, stacked: true, fence: false };
    let shape = Facets { style: false, color: false, stacked: false, fence: false };
    let list: &[(&str, &str, &str, Facets)] = &[
        ("C23", "\\mathfrak{I}", "ℑ", shape),
        ("C28", "{\\mathchoice{a}{b}{c}{d}\\over x}", "(frac [𝑏:T] [𝑥:T])", all),
        ("C28", "{\\sideset{}{'}\\sum_x\\over y}", "(frac [(scr/side [(scr/side [(multi [∑:T] - [] [])] - [′:S])] [𝑥:S] -)] [𝑦:T])", all),
        ("C28", "\\genfrac{}{}{}{2}{\\mathchoice{a}{b}{c}{d}}{x}", "(frac [𝑑:SS] [𝑥:SS])", all),
    ];
    for (p, s, want, f) in list {
        if *p != prop {
            continue;
        }
        if let Outcome::Ok { mathml, .. } = local(&Cfg::default().conv(), s, true) {
            let got = xml::parse(&mathml).map_err(|e| format!("{e:?}")).and_then(|t| norm_root(&xml::strip_layout(&t)));
            let got = match got {
                Ok(g) => show(&g, *f),
                Err(e) => e,
            };
            if got != *want {
                c.viol(s, "a fixed formula is not shown as written", json!({"expected": want, "got": got}));
            }
        } else {
            c.viol(s, "a fixed formula is rejected", json!({}));
        }
    }
}

/// Where two printed trees part.
fn diff(w: &str, g: &str) -> serde_json::Value {
    let (a, b): (Vec<char>, Vec<char>) = (w.chars().collect(), g.chars().collect());
    let i = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let cut = |v: &Vec<char>| v[i.saturating_sub(25)..(i + 50).min(v.len())].iter().collect::<String>();
    json!({"expected": cut(&a), "got": cut(&b), "at": i})
}

fn model_case(c: &mut Ctx, r: &mut Rng, b: Bias, f: Facets, key: char) {
    let block = r.pct(60);
    let mut m = M::new(r, b);
    let want = m.formula(&E { st: if block { St::D } else { St::T }, color: None, font: "" });
    let (nf, nc, ns, nl, nn, nch) = (m.n_fonts, m.n_colors, m.n_styles, m.n_limits, m.n_nodes, m.n_choice);
    let o = m.o;
    let lay = *r.choose(&[Lay::Min, Lay::Min, Lay::NoBraces, Lay::Spaced, Lay::Wild]);
    let s = layout(&o, lay, r);
    let k = Cfg { pretty: r.below(3) as u8, ..Cfg::default() };
    let input = format!("{s:?}|{block}");
    match local(&k.conv(), &s, block) {
        Outcome::Panic(_) => c.stat("skipped: panic"),
        Outcome::Err { start, end, msg } => c.viol(&input, "a correct formula is rejected", json!({"span": [start, end], "error": msg})),
        Outcome::Ok { mathml, .. } => {
            let t = match xml::parse(&mathml) {
                Ok(t) => t,
                Err(_) => {
                    c.stat("skipped: not well-formed");
                    return;
                }
            };
            match norm_root(&xml::strip_layout(&t)) {
                Err(e) => c.viol(&input, "the output cannot be read", json!({"what": e, "output": mathml})),
                Ok(got) => {
                    let got = align(&want, got);
                    let (w, g) = (show(&want, f), show(&got, f));
                    c.add("alphabet commands", nf as u64);
                    c.add("colour commands", nc as u64);
                    c.add("style switches", ns as u64);
                    c.add("operators with limits", nl as u64);
                    c.add("constructs", nn as u64);
                    c.add("mathchoice", nch as u64);
                    c.max("max_tree_size", w.len() as u64);
                    let nontrivial = match key {
                        'n' => nn > 0,
                        's' => ns + nl + nch > 0 || nn > 1,
                        'c' => nc > 0,
                        _ => nf > 0,
                    };
                    if nontrivial {
                        c.nontrivial(&input);
                    }
                    if w != g {
                        c.viol(&input, "the output does not show the formula as written", json!({"differ": diff(&w, &g), "expected": w, "got": g}));
                    }
                    c.sample(|| json!({"input": s, "tree": g}));
                }
            }
        }
    }
}
