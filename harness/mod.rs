//! Replay server: runs functions of the crate under verification on concrete inputs.
//! One JSON request per line on stdin, one JSON reply per line on stdout. Compiled into the generated view of
//! the crate (see tool/gencrate.py), so that it reaches private items; it contains no expected values: every
//! expectation is computed by the Python side from the property alone.
#![allow(missing_docs, dead_code, unused_qualifications, clippy::all, unreachable_pub)]
extern crate std;
use alloc::{boxed::Box, format, string::{String, ToString}, vec, vec::Vec};
use serde_json::{json, Value};
use std::io::{BufRead, Write};

mod h_uint;
mod h_curve;
mod h_paillier;
mod h_zk;
mod h_tools;

pub type R = Result<Value, String>;

pub fn serve() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => break };
        if line.trim().is_empty() { continue; }
        let v: Value = serde_json::from_str(&line).unwrap_or(Value::Null);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&v)));
        let reply = match r {
            Ok(Ok(x)) => json!({"ok": x}),
            Ok(Err(e)) => json!({"err": e}),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                json!({"panic": m})
            }
        };
        writeln!(out, "{}", reply).unwrap();
        out.flush().unwrap();
    }
}

fn dispatch(v: &Value) -> R {
    let op = v["op"].as_str().unwrap_or("");
    let (m, f) = op.split_once('.').unwrap_or(("", op));
    match m {
        "uint" => h_uint::run(f, v),
        "curve" => h_curve::run(f, v),
        "pai" => h_paillier::run(f, v),
        "zk" => h_zk::run(f, v),
        "tools" => h_tools::run(f, v),
        _ => Err(format!("unknown op {op}")),
    }
}

// ------------------------------------------------------------------ helpers
pub fn u(v: &Value) -> u64 { v.as_u64().unwrap_or_else(|| panic!("harness: integer expected, got {v}")) }
pub fn s(v: &Value) -> &str { v.as_str().unwrap_or_else(|| panic!("harness: string expected, got {v}")) }
pub fn hex_to_bytes(x: &str) -> Vec<u8> {
    (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn to_hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn uint<const L: usize>(v: &Value) -> crypto_bigint::Uint<L> {
    let h = s(v);
    let n = L * 16;
    let h = if h.len() < n { format!("{}{}", "0".repeat(n - h.len()), h) } else { h.into() };
    crypto_bigint::Uint::<L>::from_be_hex(&h)
}
pub fn hx<T: core::fmt::LowerHex>(x: &T) -> String { format!("{x:x}") }

/// A random generator whose output is scripted, then pseudo-random.
pub struct Rng { pub script: Vec<u8>, pub pos: usize, pub fill: Option<u8>, pub r: rand_chacha::ChaCha8Rng }
pub fn rng(v: &Value) -> Rng {
    use rand_core::SeedableRng;
    let seed = v["seed"].as_u64().unwrap_or(0);
    let script = v["script"].as_str().map(hex_to_bytes).unwrap_or_default();
    let fill = v["fill"].as_u64().map(|x| x as u8);
    Rng { script, pos: 0, fill, r: rand_chacha::ChaCha8Rng::seed_from_u64(seed) }
}
impl rand_core::RngCore for Rng {
    fn next_u32(&mut self) -> u32 { let mut b = [0u8; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0u8; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            if self.pos < self.script.len() { *x = self.script[self.pos]; self.pos += 1; }
            else if let Some(f) = self.fill { *x = f; }
            else { let mut b = [0u8; 1]; rand_core::RngCore::fill_bytes(&mut self.r, &mut b); *x = b[0]; }
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand_core::CryptoRng for Rng {}

/// An extendable-output reader over given bytes; counts what was read.
pub struct Xof { pub bytes: Vec<u8>, pub pos: usize }
impl digest::XofReader for Xof {
    fn read(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() { *x = *self.bytes.get(self.pos).expect("harness: reader exhausted"); self.pos += 1; }
    }
}
