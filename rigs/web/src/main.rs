//! Line protocol: {"cases":[{"name":..,"input":..,"options":..}]} -> ["text", ...]
#[allow(dead_code)]
#[path = "/repo/json_typegen_wasm/src/lib.rs"]
mod wasm;

use serde_json::Value;
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let r: Vec<Value> = v["cases"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| {
                let s = |k: &str| c[k].as_str().unwrap().to_string();
                std::panic::catch_unwind(|| wasm::run(&s("name"), &s("input"), &s("options"))).unwrap_or("panic".into()).into()
            })
            .collect();
        writeln!(out, "{}", Value::Array(r)).unwrap();
        out.flush().unwrap();
    }
}
