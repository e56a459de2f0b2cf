//! Answers requests to the web binding, built natively, one JSON line each.
//!   {"call":"render","data":..,"format":..,"key":..,"width":..,"enrich":..}
//!   {"call":"parse"|"parse_with_key",..}   {"call":"highlight","source":..,"language":..}
//! Answer: {"ok": text} or {"error": panic message}.
//! The error path of the binding makes a JavaScript error object, which does
//! not exist natively and panics.

use m_bus_parser_wasm_pack as web;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::catch_unwind;
use std::sync::Mutex;

static LAST: Mutex<String> = Mutex::new(String::new());

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST.lock().unwrap() = format!("{m} at {at}");
    }));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let v: Value = serde_json::from_str(&line).expect("request");
        let text = |k: &str| v[k].as_str().unwrap_or("").to_string();
        let result = catch_unwind(|| match text("call").as_str() {
            "render" => web::m_bus_render(&text("data"), &text("format"), v["key"].as_str().map(str::to_string), v["width"].as_u64().map(|w| w as usize), v["enrich"].as_bool()).ok(),
            "parse" => Some(web::m_bus_parse(&text("data"), &text("format"))),
            "parse_with_key" => Some(web::m_bus_parse_with_key(&text("data"), &text("format"), &text("key"))),
            "highlight" => web::m_bus_highlight(&text("source"), &text("language")).ok(),
            _ => Some(web::version()),
        });
        let answer = match result {
            Ok(Some(t)) => json!({"ok": t}),
            Ok(None) => json!({"error": "returned"}),
            Err(_) => json!({"error": LAST.lock().unwrap().clone()}),
        };
        writeln!(out, "{answer}").expect("answer");
        out.flush().expect("answer");
    }
}
