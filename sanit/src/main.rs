//! The workload for the sanitizers: histories of conversions over given inputs.
//!
//! usage: sanit FILE SEED FROM STEP COUNT SECS MAXLEN [report]
//!
//! FILE has the inputs, with a record separator behind each. What is observed here is only that
//! every string the library gives is valid UTF-8; the rest is up to the sanitizer.
use math_core::{
    LatexError, LatexToMathML, MathCoreConfig, MathDisplay, MaxExpansions, PrettyPrint,
    UnicodeSubstitution,
};
use std::collections::{BTreeMap, HashSet, hash_map::DefaultHasher};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
}

#[derive(Default)]
struct Seen {
    counts: BTreeMap<&'static str, u64>,
    bytes: u64,
    keys: HashSet<u64>,
}

impl Seen {
    fn n(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }
    fn text(&mut self, s: &str) {
        self.bytes += s.len() as u64;
        // A copy, which nothing is known about.
        let v = std::hint::black_box(s.as_bytes().to_vec());
        if std::str::from_utf8(&v).is_err() {
            eprintln!("INVALID-UTF8 {:?}", String::from_utf8_lossy(&v));
            std::process::abort();
        }
    }
    fn error(&mut self, e: &LatexError, input: &str, md: MathDisplay, report: bool) {
        self.n("errors");
        self.text(&e.error_message());
        let mut m = String::new();
        e.to_message(&mut m, input);
        self.text(&m);
        self.text(&e.to_html(input, md, Some("c")));
        if report {
            let mut buf = Vec::new();
            if catch_unwind(AssertUnwindSafe(|| {
                e.to_report("a", false)
                    .write(("a", ariadne::Source::from(input)), &mut buf)
            }))
            .is_ok()
                && std::str::from_utf8(&buf).is_err()
            {
                eprintln!("INVALID-UTF8 report");
                std::process::abort();
            }
        }
    }
}

fn md(b: bool) -> MathDisplay {
    if b {
        MathDisplay::Block
    } else {
        MathDisplay::Inline
    }
}

fn cfg(r: &mut Rng, pool: &[&str]) -> MathCoreConfig {
    let mut c = MathCoreConfig::default();
    c.pretty_print = match r.below(4) {
        0 => PrettyPrint::Always,
        1 => PrettyPrint::Auto,
        _ => PrettyPrint::Never,
    };
    c.ignore_unknown_commands = r.pct(50);
    c.annotation = r.pct(30);
    c.xml_namespace = r.pct(20);
    c.allow_unreliable_rendering = r.pct(40);
    c.global_group = r.pct(40);
    if r.pct(30) {
        c.unicode_substitution = UnicodeSubstitution::Never;
    }
    if r.pct(20) {
        c.id_prefix = "é-".into();
    }
    if r.pct(80) {
        c.max_expansions = MaxExpansions([0, 1, 5, 40][r.below(4)]);
    }
    let n = if r.pct(50) { r.below(4) } else { 0 };
    for i in 0..n {
        let names = ["foo", "bar", "x", "w"];
        let body = if r.pct(50) {
            pool[r.below(pool.len())].to_string()
        } else {
            [
                "#1",
                "x#1é",
                "\\frac{#1}{#2}",
                "{#1}^#1",
                "\\text{é#1}",
                "\\foo",
            ][r.below(6)]
            .to_string()
        };
        c.macros.push((names[i].into(), body));
    }
    c
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    let data = std::fs::read_to_string(&a[1]).unwrap();
    let (seed, from, step, count, secs, maxlen) =
        (n(2) as u64, n(3), n(4), n(5), n(6) as u64, n(7));
    let report = a.get(8).is_some();
    let pool: Vec<&str> = data.split('\u{1e}').filter(|s| s.len() <= maxlen).collect();
    if std::env::var("SANIT_LOUD").is_err() {
        // Panics are not looked for here.
        std::panic::set_hook(Box::new(|_| ()));
    }
    let t0 = std::time::Instant::now();
    let mut seen = Seen::default();
    let mut i = from;
    let mut cases = 0;
    while cases < count && t0.elapsed().as_secs() < secs {
        eprintln!("case {i}");
        let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ i as u64);
        let th = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, || {
                    // A case ends with the panic.
                    if catch_unwind(AssertUnwindSafe(|| case(&mut r, &pool, &mut seen, report)))
                        .is_err()
                    {
                        seen.n("panics");
                    }
                })
                .unwrap()
                .join()
        });
        let _ = th;
        seen.n("cases");
        cases += 1;
        i += step;
    }
    let mut o = String::from("{");
    for (k, v) in &seen.counts {
        o += &format!("\"{k}\": {v}, ");
    }
    for k in &seen.keys {
        println!("K {k:016x}");
    }
    println!("{o}\"bytes\": {}}}", seen.bytes);
    let _ = std::io::stdout().flush();
}

fn case(r: &mut Rng, pool: &[&str], seen: &mut Seen, report: bool) {
    let c = cfg(r, pool);
    let mut h = DefaultHasher::new();
    (format!("{:?}", c.macros), c.global_group, c.annotation, c.ignore_unknown_commands).hash(&mut h);
    if std::env::var("SANIT_SHOW").is_ok() {
        println!("DEFINITIONS {:?}", c.macros);
    }
    let mut k = match LatexToMathML::new(c) {
        Ok(k) => k,
        Err(b) => {
            let (e, _, d) = *Box::new(b);
            seen.n("definitions rejected");
            return seen.error(&e, &d, MathDisplay::Inline, report);
        }
    };
    let n = 1 + r.below(4);
    let mine: Vec<(&str, bool)> = (0..n)
        .map(|_| (pool[r.below(pool.len())], r.pct(50)))
        .collect();
    if std::env::var("SANIT_SHOW").is_ok() {
        println!("FORMULAS {mine:?}");
    }
    for &(s, b) in &mine {
        (s, b).hash(&mut h);
        seen.keys.insert(h.finish());
        let x = if r.pct(50) {
            k.convert_with_local_state(s, md(b))
        } else {
            k.convert_with_global_state(s, md(b))
        };
        match x {
            Ok(o) => {
                seen.n("conversions");
                seen.text(&o.mathml)
            }
            Err(e) => seen.error(&e, s, md(b), report),
        }
        if r.pct(10) {
            k.reset_global_state();
        }
    }
    if r.pct(30) {
        let items: Vec<_> = mine.iter().map(|(s, b)| (*s, md(*b))).collect();
        for (o, (s, b)) in k.convert_all(&items).into_iter().zip(&mine) {
            match o {
                Ok(o) => {
                    seen.n("batch conversions");
                    seen.text(&o.mathml)
                }
                Err(e) => seen.error(&e, s, md(*b), report),
            }
        }
    }
    if r.pct(25) {
        // The same converter, shared.
        seen.n("concurrent cases");
        let (k, mine) = (&k, &mine);
        std::thread::scope(|sc| {
            for t in 0..3 {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let _ = catch_unwind(AssertUnwindSafe(|| {
                            for j in 0..mine.len() {
                                let (s, b) = mine[(j + t) % mine.len()];
                                if t == 2 {
                                    let items: Vec<_> =
                                        mine.iter().map(|(s, b)| (*s, md(*b))).collect();
                                    let _ = std::hint::black_box(k.convert_all(&items));
                                    break;
                                }
                                let _ = std::hint::black_box(k.convert_with_local_state(s, md(b)));
                            }
                        }));
                    })
                    .unwrap();
            }
        });
    }
    if r.pct(20) {
        // The converter goes to another thread and ends there.
        let s = mine[0].0;
        std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, move || {
                    let _ = catch_unwind(AssertUnwindSafe(|| {
                        std::hint::black_box(k.convert_with_global_state(s, md(true)))
                    }));
                })
                .unwrap();
        });
    }
}
