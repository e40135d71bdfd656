//! What the drivers share: grammars given as tables or as a `Cfg`, a forest that
//! records what it is told, and the execution of recognizer histories.
pub mod forest;
pub mod grammar;
pub mod session;

use serde_json::Value;
use std::io::{BufRead, BufReader, BufWriter, Write};

/// Reads a script, runs `f` on every line, writes one record per line.
pub fn main_loop(mut f: impl FnMut(&Value) -> Value) {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var_os("DRV_DEBUG").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let input = BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for line in input.lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let r = f(&v);
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

pub fn u(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("script: not a number: {v}")) as usize
}
pub fn us(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(u).collect()
}
/// Numbers as the specification's integers: the null id is -1.
pub fn id(n: u32) -> i64 {
    if n == !0 {
        -1
    } else {
        n as i64
    }
}
