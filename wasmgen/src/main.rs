//! `wasmgen IN.wasm OUT_DIR NAME`: what `wasm-bindgen --target experimental-nodejs-module` does.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut b = wasm_bindgen_cli_support::Bindgen::new();
    b.nodejs_module(true).unwrap();
    b.typescript(false).out_name(&a[3]).input_path(&a[1]);
    if let Err(e) = b.generate(&a[2]) {
        eprintln!("{e:?}");
        std::process::exit(1);
    }
}
