//! Thin calls into the library under test.

use m_bus_parser::{DecodeOptions, OutputError, OutputFormat, RenderOptions};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::str::FromStr;

pub fn options(key: Option<[u8; 16]>, enrich: bool) -> DecodeOptions {
    DecodeOptions { key, include_enrichment: enrich }
}

/// Canonical decode as a JSON value, or the error code.
pub fn decode(bytes: &[u8], key: Option<[u8; 16]>) -> Result<Value, OutputError> {
    m_bus_parser::decode_bytes(bytes, &options(key, false)).map(|d| serde_json::to_value(&d).expect("serialises"))
}

pub fn render(bytes: &[u8], format: OutputFormat, key: Option<[u8; 16]>, width: Option<usize>) -> Result<String, OutputError> {
    m_bus_parser::render_bytes(bytes, format, &RenderOptions { decode: options(key, false), table_width: width })
}

pub fn records(v: &Value) -> &[Value] {
    v["records"].as_array().map(Vec::as_slice).unwrap_or(&[])
}

/// Stand-alone record decode.
pub fn standalone(block: &[u8]) -> Result<Vec<Value>, OutputError> {
    m_bus_parser::decode_data_records(block)
        .map(|r| r.iter().map(|x| serde_json::to_value(x).expect("serialises")).collect())
}

/// Answers one request, in this process or for another build:
/// {"call": "decode" | "records" | format name, "bytes": hex, "key": hex or null, "width": n or null, "enrich": bool}
pub fn answer(q: &Value) -> Value {
    let bytes = crate::util::unhex(q["bytes"].as_str().unwrap_or(""));
    let key = q["key"].as_str().map(|k| crate::util::unhex(k).try_into().expect("key"));
    let decode = options(key, q["enrich"].as_bool().unwrap_or(false));
    let r = crate::runner::guarded(|| match q["call"].as_str().unwrap_or("") {
        "decode" => m_bus_parser::decode_bytes(&bytes, &decode).map(|d| serde_json::to_value(&d).expect("serialises")),
        "records" => m_bus_parser::decode_data_records(&bytes).map(|r| serde_json::to_value(&r).expect("serialises")),
        f => {
            let f = OutputFormat::from_str(f)?;
            let width = q["width"].as_u64().map(|w| w as usize);
            m_bus_parser::render_bytes(&bytes, f, &RenderOptions { decode, table_width: width }).map(Value::String)
        }
    });
    match r {
        Ok(Ok(v)) => json!({"ok": v}),
        Ok(Err(e)) => json!({"error": e.code()}),
        Err(p) => json!({"panic": p}),
    }
}

/// One request per line in, one answer per line out.
pub fn serve() {
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let q = serde_json::from_str(&line).expect("request");
        let _ = writeln!(out, "{}", answer(&q));
        let _ = out.flush();
    }
}

/// A process that answers one line per request line.
pub struct Server {
    name: String,
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Server {
    pub fn start(name: &str, command: &mut Command) -> Self {
        let mut child = command.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| {
            eprintln!("harness error: cannot start {name}: {e}");
            std::process::exit(3)
        });
        let to = child.stdin.take().expect("stdin");
        let from = BufReader::new(child.stdout.take().expect("stdout"));
        Self { name: name.to_string(), child, to, from }
    }
    pub fn ask(&mut self, q: &Value) -> Value {
        let sent = writeln!(self.to, "{q}").and_then(|()| self.to.flush());
        let mut line = String::new();
        if sent.is_err() || !matches!(self.from.read_line(&mut line), Ok(1..)) {
            eprintln!("harness error: {} ended without an answer to {q}", self.name);
            std::process::exit(3);
        }
        serde_json::from_str(&line).unwrap_or_else(|e| {
            eprintln!("harness error: {} answered {line:?}: {e}", self.name);
            std::process::exit(3)
        })
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Place of a file under the root of the check.
pub fn place(path: &str) -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(std::path::PathBuf::from).unwrap_or_else(|| "/verif".into()).join(path)
}
