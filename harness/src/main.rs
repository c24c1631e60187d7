mod colors;
mod conv;
mod ctx;
mod gen_;
mod mathml;
mod model;
mod props_core;
mod props_doc;
mod props_macro;
mod props_scope;
mod props_text;
mod props_len;
mod props_spacing;
mod props_size;
mod props_symbol;
mod props_config;
mod props_table;
mod props_model;
mod rng;
mod serve;
mod xml;

use ctx::Ctx;
use rng::Rng;
use std::io::Write;
use std::os::unix::fs::FileExt;

#[global_allocator]
static A: ctx::alloc::Counting = ctx::alloc::Counting;


fn arg<'a>(args: &'a [String], k: &str) -> Option<&'a str> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

/// Run one case of a property. `None` if there is no such property.
fn case(d: &gen_::Data, prop: &str, c: &mut Ctx, r: &mut Rng) -> bool {
    props_core::case(d, prop, c, r) || props_model::case(d, prop, c, r) || props_doc::case(prop, c, r) || props_macro::case(d, prop, c, r) || props_scope::case(prop, c, r) || props_text::case(prop, c, r) || props_len::case(prop, c, r) || props_spacing::case(prop, c, r) || props_table::case(prop, c, r) || props_symbol::case(d, prop, c, r) || props_size::case(prop, c, r) || props_config::case(d, prop, c, r)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") | Some("replay") => {
            let replay = args[1] == "replay";
            let prop = arg(&args, "--prop").expect("--prop").to_string();
            let seed: u64 = arg(&args, "--seed").unwrap_or("1").parse().unwrap();
            let shard: u64 = arg(&args, "--shard").unwrap_or("0").parse().unwrap();
            let of: u64 = arg(&args, "--of").unwrap_or("1").parse().unwrap();
            let cases: u64 = arg(&args, "--cases").unwrap_or("1000").parse().unwrap();
            let secs: f64 = arg(&args, "--secs").unwrap_or("1e9").parse().unwrap();
            let only: Option<u64> = arg(&args, "--idx").map(|s| s.parse().unwrap());
            let start: u64 = arg(&args, "--start").unwrap_or("0").parse().unwrap();
            let skip: Vec<u64> =
                arg(&args, "--skip").unwrap_or("").split(',').filter_map(|s| s.parse().ok()).collect();
            let cur = arg(&args, "--cur").map(|p| std::fs::File::create(p).unwrap());
            let out = arg(&args, "--out").map(|s| s.to_string());
            let thorough = arg(&args, "--tier") == Some("thorough");
            let mb: usize = arg(&args, "--stack-mb").unwrap_or("256").parse().unwrap();
            conv::install_hook();
            let th = std::thread::Builder::new()
                .stack_size(mb << 20)
                .spawn(move || {
                    let d = gen_::Data::load();
                    let mut c = Ctx::new(&prop, seed, thorough);
                    c.verbose = replay;
                    let t0 = std::time::Instant::now();
                    let mut one = |c: &mut Ctx, idx: u64| {
                        if let Some(f) = &cur {
                            let _ = f.write_all_at(format!("{idx:020}").as_bytes(), 0);
                        }
                        c.idx = idx;
                        c.evals += 1;
                        if idx == 0 {
                            props_model::probes(&prop, c);
                        }
                        let mut r = Rng::for_case(&prop, seed, idx);
                        if !case(&d, &prop, c, &mut r) {
                            eprintln!("no such property {prop}");
                            std::process::exit(3);
                        }
                    };
                    if let Some(i) = only {
                        one(&mut c, i);
                    } else {
                        let mut i = start + shard;
                        while i < cases && t0.elapsed().as_secs_f64() < secs {
                            if !skip.contains(&i) {
                                one(&mut c, i);
                            }
                            i += of;
                        }
                        c.stats.insert("next_index".into(), i);
                    }
                    let j = c.json();
                    if let Some(o) = out {
                        let mut keys = Vec::with_capacity(c.distinct.len() * 8);
                        for k in &c.distinct {
                            keys.extend_from_slice(&k.to_le_bytes());
                        }
                        std::fs::write(format!("{o}.keys"), keys).unwrap();
                        std::fs::write(o, serde_json::to_string(&j).unwrap()).unwrap();
                    } else {
                        println!("{}", serde_json::to_string_pretty(&j).unwrap());
                    }
                    let _ = std::io::stdout().flush();
                })
                .unwrap();
            if th.join().is_err() {
                std::process::exit(4);
            }
        }
        Some("show") => {
            conv::install_hook();
            let mut cfg = conv::Cfg::default();
            cfg.ignore_unknown = args.iter().any(|a| a == "-i");
            cfg.annotation = args.iter().any(|a| a == "-a");
            cfg.pretty = args.iter().any(|a| a == "-p") as u8;
            let block = args.iter().any(|a| a == "-b");
            let k = cfg.conv();
            let mut g = cfg.conv();
            for l in std::io::stdin().lines() {
                let l = l.unwrap();
                let o = if args.iter().any(|a| a == "-g") { conv::global(&mut g, &l, block) } else { conv::local(&k, &l, block) };
                println!("{l}\n   => {}", o.short());
            }
        }
        Some("serve") => {
            conv::install_hook();
            std::thread::Builder::new().stack_size(256 << 20).spawn(serve::serve).unwrap().join().unwrap();
        }
        // A pool of formulas, as JSON strings, one per line.
        Some("pool") => {
            let d = gen_::Data::load();
            let mut r = Rng::new(arg(&args, "--seed").unwrap_or("1").parse().unwrap());
            let g = gen_::Gen { d: &d };
            let n: usize = arg(&args, "--n").unwrap_or("1000").parse().unwrap();
            let mix = args.iter().any(|a| a == "--mix");
            for i in 0..n {
                let s = match i % 4 {
                    _ if mix => props_core::mixed(&d, &mut r),
                    0 => r.choose(&d.corpus).clone(),
                    _ => {
                        let t = g.formula(&mut r);
                        let lay = if r.pct(50) { gen_::Lay::Min } else { gen_::Lay::Spaced };
                        gen_::layout(&t, lay, &mut r)
                    }
                };
                if mix {
                    print!("{}\u{1e}", s.replace('\u{1e}', ""));
                } else {
                    println!("{}", serde_json::json!(s));
                }
            }
        }
        Some("gen") => {
            let d = gen_::Data::load();
            let mut r = Rng::new(arg(&args, "--seed").unwrap_or("1").parse().unwrap());
            let g = gen_::Gen { d: &d };
            for _ in 0..20 {
                let t = g.formula(&mut r);
                println!("{}", gen_::layout(&t, gen_::Lay::Min, &mut r));
            }
        }
        _ => {
            eprintln!("usage: mcmon run|replay|show|gen ...");
            std::process::exit(3);
        }
    }
}
