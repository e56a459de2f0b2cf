//! Answers requests with another build of the library: one JSON line in, one
//! out. {"call": "frame" | "block" | "decrypt" | "decode" | "records" | format
//! name, "bytes": hex, "key": hex or null}

mod dump;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

#[cfg(feature = "std")]
fn high(call: &str, bytes: &[u8], key: Option<[u8; 16]>) -> Value {
    use m_bus_parser::{DecodeOptions, OutputFormat, RenderOptions};
    use std::str::FromStr;
    let decode = DecodeOptions { key, include_enrichment: false };
    let text = |v: serde_json::Result<Value>| Value::String(v.expect("serialises").to_string());
    let r = match call {
        "decode" => m_bus_parser::decode_bytes(bytes, &decode).map(|d| text(serde_json::to_value(&d))),
        "records" => m_bus_parser::decode_data_records(bytes).map(|r| text(serde_json::to_value(&r))),
        f => OutputFormat::from_str(f).and_then(|f| m_bus_parser::render_bytes(bytes, f, &RenderOptions { decode, table_width: None }).map(Value::String)),
    };
    match r {
        Ok(v) => json!({"ok": v}),
        Err(e) => json!({"error": e.code()}),
    }
}

fn answer(q: &Value) -> Value {
    let bytes = unhex(q["bytes"].as_str().unwrap_or(""));
    let key: Option<[u8; 16]> = q["key"].as_str().map(|k| unhex(k).try_into().expect("key"));
    let _ = key;
    match q["call"].as_str().unwrap_or("") {
        "frame" => json!({"ok": dump::frame(&bytes)}),
        "block" => json!({"ok": dump::block(&bytes)}),
        #[cfg(feature = "decryption")]
        "decrypt" => json!({"ok": dump::decrypt(&bytes, &key.expect("key"))}),
        #[cfg(feature = "std")]
        c => high(c, &bytes, key),
        #[cfg(not(feature = "std"))]
        c => json!({"unknown": c}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let q: Value = serde_json::from_str(&line).expect("request");
        let a = std::panic::catch_unwind(|| answer(&q)).unwrap_or_else(|_| json!({"panic": true}));
        let _ = writeln!(out, "{a}");
        let _ = out.flush();
    }
}
