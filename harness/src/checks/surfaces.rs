//! The other surfaces of the library: command line (C20), Python (C21), web
//! (C22), and the other build configurations (C27, C30).

use std::cell::RefCell;
use std::collections::HashMap;
use std::process::{Command, Stdio};
use std::str::FromStr;

use m_bus_parser::{decode_data_records, decode_hex_bytes, render_bytes, render_hex, OutputError, OutputFormat, RenderOptions};
use serde_json::{json, Value};

use super::output::{self, same};
use super::total;
use crate::dump;
use crate::gen::{self, Frame, Hdr};
use crate::model::{self, End};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::sut::{self, place, Server};
use crate::util::{hex, hex_sp};

thread_local! {
    static SERVERS: RefCell<HashMap<&'static str, Server>> = RefCell::new(HashMap::new());
}

fn ask(name: &'static str, q: &Value) -> Value {
    SERVERS.with(|s| {
        s.borrow_mut()
            .entry(name)
            .or_insert_with(|| {
                let mut c = match name {
                    "web" => Command::new(place("target/web/release/mbus-verif-web")),
                    "python" => {
                        let mut c = Command::new(std::env::var_os("VERIF_PYTHON").unwrap_or("/opt/vp/venv/bin/python".into()));
                        c.arg(place("tools/pyserve.py")).arg(place("target/surfaces/release/libpymbusparser.so")).env("PYTHONDONTWRITEBYTECODE", "1");
                        c
                    }
                    "bare" | "baredec" | "nodec" => Command::new(place(&format!("target/{name}/release/mbus-verif-bare"))),
                    _ => {
                        let mut c = Command::new(place("target/plaintext/release/check"));
                        c.arg("--serve");
                        c
                    }
                };
                Server::start(name, &mut c)
            })
            .ask(q)
    })
}

// ------------------------------------------------------------------ C27

/// A record with a plain text unit, text last and text first.
fn both_orders(s: &mut Source) -> (Vec<u8>, Vec<u8>) {
    let code = s.below(15) as u8;
    let difes = gen::dif_chain(s, true);
    let upper = (s.byte() & 7) << 4;
    let (_, text, vifes) = gen::plain_vib(s, false);
    let data = gen::data_for(s, code, &gen::FULL);
    let mut head = vec![code | upper | if difes.is_empty() { 0 } else { 0x80 }];
    head.extend(difes);
    head.push(0xFC);
    let mut plain = vec![text.len() as u8];
    plain.extend(text);
    ([&head[..], &vifes, &plain, &data].concat(), [&head[..], &plain, &vifes, &data].concat())
}

/// Removes what depends on the order of the bytes.
fn without_bytes(v: &mut Value) {
    let list = if v.is_array() { v.as_array_mut() } else { v["records"].as_array_mut() };
    for r in list.into_iter().flatten() {
        if let Some(o) = r.as_object_mut() {
            o.remove("header_hex");
        }
    }
    if let Some(o) = v.as_object_mut() {
        o.remove("raw");
    }
}

fn c27_order(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let tail = s.chance(1, 5);
    let alone = s.chance(1, 4);
    let link = gen::link(s);
    let hdr = gen::clear_header(s);
    let room = link.room() - hdr.bytes().len();
    let (mut last, mut first) = (vec![], vec![]);
    let mut units = 0;
    for _ in 0..s.range(1, 6) {
        let (a, b) = if units == 0 || s.chance(1, 2) {
            units += 1;
            both_orders(s)
        } else {
            let r = gen::record(s, &gen::PLAIN);
            (r.clone(), r)
        };
        if last.len() + a.len() + 4 > room {
            break;
        }
        if s.chance(1, 8) {
            last.push(0x2F);
            first.push(0x2F);
        }
        last.extend(a);
        first.extend(b);
    }
    if tail {
        let t = *s.pick(&[&[0x0C_u8, 0x13, 0xAA][..], &[0x04, 0x13, 1], &[0x0F, 1, 2], &[0x1F]]);
        last.extend(t);
        first.extend(t);
    }
    let p = model::parse_with(&last, false);
    let q = model::parse_with(&first, true);
    if p.end != q.end || p.records.len() != q.records.len() {
        eprintln!("harness error: model differs between [{}] and [{}]", hex_sp(&last), hex_sp(&first));
        std::process::exit(3);
    }
    ctx.class(match p.end {
        End::Complete => "complete",
        End::Bad(_) => "ends in a bad record",
        End::Open(_) => "open",
    });
    let (q1, q2, what) = if alone {
        (json!({"call": "records", "bytes": hex(&last)}), json!({"call": "records", "bytes": hex(&first)}), "records")
    } else {
        let (f, g) = (Frame { link: link.clone(), hdr: hdr.clone(), block: last }, Frame { link, hdr, block: first });
        if f.ambiguous() || g.ambiguous() {
            ctx.class("ambiguous frame");
            return Ok(());
        }
        (json!({"call": "decode", "bytes": hex(&f.bytes())}), json!({"call": "decode", "bytes": hex(&g.bytes())}), "frame")
    };
    ctx.class(what);
    let names = [q1["bytes"].as_str().unwrap().to_string(), q2["bytes"].as_str().unwrap().to_string()];
    ctx.nontrivial(&names[0]);
    ctx.sample(|| names.join(" / "));
    let mut a = sut::answer(&q1);
    let mut b = ask("plaintext", &q2);
    for (x, n) in [(&a, &names[0]), (&b, &names[1])] {
        ensure!(x.get("panic").is_none(), "{what} {n}: {x}");
    }
    without_bytes(&mut a["ok"]);
    without_bytes(&mut b["ok"]);
    if !same(&a, &b) {
        fail!("{what} {} decodes in the default build to {a}, {} in the other build to {b}", names[0], names[1]);
    }
    Ok(())
}

fn c27_same(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let kind = s.below(5);
    let mut key = None;
    let bytes = match kind {
        0 | 1 => {
            let f = if kind == 0 { gen::clear_frame(s, &gen::PLAIN, 8) } else { gen::any_frame(s, &gen::PLAIN, 6) };
            if model::parse(&f.block).records.iter().any(|r| r.vif.is_some_and(|v| v & 0x7F == 0x7C)) {
                ctx.class("plain text by chance");
                return Ok(());
            }
            f.bytes()
        }
        2 => {
            let ident = gen::ident(s);
            let mut sh = gen::short(s);
            let mode = *s.pick(&[5u8, 7]);
            let mut clear = gen::block(s, &gen::PLAIN, 6, 200);
            clear.resize(clear.len().div_ceil(16).max(1) * 16, 0x2F);
            if model::parse(&clear).records.iter().any(|r| r.vif.is_some_and(|v| v & 0x7F == 0x7C)) {
                ctx.class("plain text by chance");
                return Ok(());
            }
            sh.conf = [((clear.len() / 16).min(15) as u8) << 4, mode];
            let k: [u8; 16] = s.bytes(16).try_into().unwrap();
            let block = gen::encrypt(mode, &k, &ident, sh.access, &clear);
            key = Some(k);
            Frame { link: gen::link(s), hdr: Hdr::Long(ident, sh), block }.bytes()
        }
        3 => {
            let i = output::input(s);
            key = i.key;
            i.bytes
        }
        _ => {
            let b = s.pick(total::real()).clone();
            b
        }
    };
    if matches!(kind, 3 | 4) && (key.is_some() || bytes.iter().any(|b| b & 0x7F == 0x7C)) {
        ctx.class("may hold plain text");
        return Ok(());
    }
    ctx.class(["records", "any header", "encrypted", "any input", "captured frame"][kind]);
    ctx.nontrivial(&bytes);
    ctx.sample(|| hex(&bytes));
    for call in ["decode", "records", "annotated", "annotated-text", "xml", "csv", "table", "mermaid", "yaml"] {
        if !matches!(call, "decode" | "records") && s.chance(1, 2) {
            continue;
        }
        let q = json!({"call": call, "bytes": hex(&bytes), "key": key.map(|k| hex(&k)), "width": 100, "enrich": true});
        let (a, b) = (sut::answer(&q), ask("plaintext", &q));
        ensure!(a.get("panic").is_none(), "{call} of {}: {a}", hex(&bytes));
        if !same(&a, &b) {
            // Stand-alone decoding reads the whole frame as records, where anything may stand.
            if call == "records" && bytes.iter().any(|b| b & 0x7F == 0x7C) {
                continue;
            }
            fail!("{call} of {} is {a} in the default build and {b} in the other", hex(&bytes));
        }
    }
    Ok(())
}

pub fn c27() -> Property {
    Property {
        id: "C27",
        rule: "Frames and record blocks with one to six records, at least one with a plain text unit followed by extensions, written in both orders and given to both builds; and frames without plain text units (generated, damaged, encrypted with the key, captured) given to both builds in several formats. Non-trivial: every frame compared.",
        both_builds: false,
        assumptions: &["plain text units of 1..9 characters with at least one extension", "in damaged and captured frames, only those without any byte 7Ch or FCh count as free of plain text units"],
        parts: vec![
            Part { name: "both orders", kind: Kind::Random { quick: 400_000, thorough: 6_000_000, tape: (20, 240), f: c27_order } },
            Part { name: "no plain text", kind: Kind::Random { quick: 80_000, thorough: 1_200_000, tape: (10, 200), f: c27_same } },
        ],
    }
}

// ------------------------------------------------------------------ common to C20, C21, C22

/// Input text with a key that may fit it.
fn frame_text(s: &mut Source) -> (String, Option<[u8; 16]>) {
    if s.chance(1, 4) {
        (total::any_text(s), total::key(s))
    } else {
        let mark = s.weighted(&[24, 1, 1, 1, 1]);
        let i = output::input(s);
        let t = output::spell(s, &i.bytes);
        // Marks that readers of text files know, which the grammar does not.
        let t = match mark {
            0 => t,
            1 => format!("\u{feff}{t}"),
            2 => format!("# frame\n{t}"),
            3 => format!("{t}\n\n"),
            _ => format!("{t} # end"),
        };
        (t, i.key)
    }
}

fn format_name(s: &mut Source) -> String {
    if s.chance(1, 6) {
        total::any_format(s)
    } else {
        s.pick(&["json", "table", "yaml", "csv", "mermaid", "xml", "annotated", "annotated-text", "yml"]).to_string()
    }
}

/// What can be wrong with a key text.
fn key_text(s: &mut Source, key: Option<[u8; 16]>) -> Option<String> {
    let good = key.map(|k| hex(&k));
    match s.weighted(&[10, 2, 1, 1, 1, 1, 1]) {
        0 => good,
        1 => good.map(|k| k.to_lowercase()),
        2 => key.map(|k| output::spell(s, &k)),
        3 => {
            let n = if s.chance(1, 2) { 2 * *s.pick(&[0usize, 1, 15, 17, 32]) } else { s.range(0, 40) };
            Some(hex(&s.bytes(32))[..n].to_string())
        }
        4 => {
            let mut k: Vec<char> = hex(&s.bytes(16)).chars().collect();
            let at = s.below(k.len());
            k[at] = *s.pick(&['g', ' ', '-', 'é', 'x', '\n', '٣', '+']);
            Some(k.into_iter().collect())
        }
        5 => Some(s.pick(&["", " ", "\t\n", "0x", "zz", "00112233445566778899aabbccddee", "0x00112233445566778899aabbccddeeff", "\u{a0}"]).to_string()),
        _ => {
            let k = s.bytes(16);
            Some(format!("{}{}{}", s.pick(&["", " ", "\n"]), hex(&k), s.pick(&[" ", "", "\n"])))
        }
    }
}

/// The library's answer to the options after reading: text, or the codes of
/// everything that is wrong (any one may be reported).
fn wanted(text: &str, format: &str, key: Result<Option<[u8; 16]>, Vec<&'static str>>, width: Option<usize>, enrich: bool) -> Result<String, Vec<&'static str>> {
    let mut codes = vec![];
    let format = OutputFormat::from_str(format).map_err(|e: OutputError| codes.push(e.code())).ok();
    let key = match key {
        Ok(k) => Some(k),
        Err(c) => {
            codes.extend(c);
            None
        }
    };
    let r = render_hex(text, format.unwrap_or(OutputFormat::Json), &RenderOptions { decode: sut::options(key.flatten(), enrich), table_width: width });
    match r {
        Err(e) => {
            codes.push(e.code());
            Err(codes)
        }
        Ok(_) if !codes.is_empty() => Err(codes),
        Ok(t) => Ok(t),
    }
}

fn brief(t: &str) -> String {
    if t.len() <= 300 {
        format!("{t:?}")
    } else {
        let cut = (0..=300).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
        format!("{:?}... ({} bytes)", &t[..cut], t.len())
    }
}

fn first_difference(a: &str, b: &str) -> String {
    let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let around = |t: &str| t.chars().skip(n.saturating_sub(20)).take(60).collect::<String>();
    format!("first difference at character {n}: {:?} / {:?}", around(a), around(b))
}

// ------------------------------------------------------------------ C20

struct Ran {
    ok: bool,
    out: Vec<u8>,
    err: String,
}

fn cli(args: &[String]) -> Ran {
    let o = Command::new(place("target/surfaces/release/m-bus-parser-cli")).args(args).stdin(Stdio::null()).output().unwrap_or_else(|e| {
        eprintln!("harness error: cannot run the command line tool: {e}");
        std::process::exit(3)
    });
    if o.status.code().is_none() {
        // Ended by a signal, for example for lack of memory: not an answer.
        eprintln!("harness error: the command line tool ended with {}", o.status);
        std::process::exit(3);
    }
    Ran { ok: o.status.success(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

/// A file that is removed again.
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(text: &str) -> Self {
        thread_local!(static N: u64 = {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            std::thread::current().id().hash(&mut h);
            h.finish()
        });
        let p = std::env::temp_dir().join(format!("mbus-verif-{}-{:x}.hex", std::process::id(), N.with(|n| *n)));
        std::fs::write(&p, text).unwrap_or_else(|e| {
            eprintln!("harness error: cannot write {}: {e}", p.display());
            std::process::exit(3)
        });
        Self(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn option(s: &mut Source, short: &str, long: &str, value: &str, args: &mut Vec<String>) {
    match s.below(3) {
        0 if !value.starts_with('-') => args.extend([format!("-{short}"), value.to_string()]),
        1 if !value.starts_with('-') => args.extend([format!("--{long}"), value.to_string()]),
        _ => args.push(format!("--{long}={value}")),
    }
}

fn c20_case(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let by_file = s.below(3);
    let width: Option<String> = match s.below(8) {
        0..=2 => None,
        3..=6 => total::width(s).map(|w| w.to_string()),
        _ => Some(s.pick(&["-1", "", "abc", "1e2", "99999999999999999999999", "10.5", " 80", "+70", "0x50"]).to_string()),
    };
    let omit_format = s.chance(1, 8);
    let format = if omit_format { "table".to_string() } else { format_name(s) };
    let enrich = s.chance(1, 2);
    let order = s.below(2);
    let (text, key) = frame_text(s);
    let key = key_text(s, key);
    let mut opts = vec![];
    if !omit_format {
        option(s, "t", "format", &format, &mut opts);
    }
    if let Some(k) = &key {
        option(s, "k", "key", k, &mut opts);
    }
    if let Some(w) = &width {
        opts.push(format!("--width={w}"));
    }
    if !enrich {
        opts.push("--no-enrichment".into());
    }
    // Arguments cannot hold the character NUL.
    if opts.iter().any(|o| o.contains('\0')) {
        ctx.class("option with NUL");
        return Ok(());
    }
    let by_file = if text.contains('\0') { 1 } else { by_file };
    let usage = width.as_ref().is_some_and(|w| w.parse::<usize>().is_err());
    let columns = match &width {
        Some(w) => w.parse().ok(),
        None => Some(100),
    };
    let parsed = match &key {
        None => Ok(None),
        Some(k) if k.len() == 32 && k.bytes().all(|b| b.is_ascii_hexdigit()) => Ok(Some(crate::util::unhex(k).try_into().expect("key"))),
        Some(_) => Err(vec!["option.invalid"]),
    };
    let parsed_key: Key = parsed.clone();
    let want = wanted(&text, &format, parsed, columns, enrich);
    ctx.class(match &want {
        _ if usage => "width is not a number",
        Ok(_) => "success",
        Err(c) => c[0],
    });
    ctx.nontrivial(&(&text, &opts));
    ctx.sample(|| format!("{opts:?} {text:?}"));
    let run = |file: bool| {
        let mut args: Vec<String> = vec!["parse".into()];
        let scratch = file.then(|| Scratch::new(&text));
        let input = match &scratch {
            Some(f) => format!("--file={}", f.0.display()),
            None => format!("--data={text}"),
        };
        if order == 0 {
            args.push(input.clone());
        }
        args.extend(opts.iter().cloned());
        if order == 1 {
            args.push(input);
        }
        cli(&args)
    };
    let name = || format!("parse {opts:?} on {}", brief(&text));
    let r = run(by_file == 1);
    ctx.class(if by_file == 1 { "from a file" } else { "from an argument" });
    match &want {
        _ if usage => ensure!(!r.ok && r.out.is_empty(), "{} succeeds or prints to standard output although the width is not a number", name()),
        Ok(t) => {
            ensure!(r.ok, "{} fails with {:?} but the library renders it", name(), r.err);
            let out = String::from_utf8_lossy(&r.out);
            ensure!(out == t.as_str(), "{} prints something other than the library renders: {}", name(), first_difference(&out, t));
        }
        Err(codes) => {
            ensure!(!r.ok, "{} succeeds but the library refuses it with {codes:?}", name());
            ensure!(r.out.is_empty(), "{} fails but prints {} to standard output", name(), brief(&String::from_utf8_lossy(&r.out)));
            ensure!(codes.iter().any(|c| r.err.contains(c)), "{} fails with {:?}, which names none of {codes:?}", name(), r.err);
            if let (Ok(f), Ok(k)) = (OutputFormat::from_str(&format), parsed_key) {
                let said = render_hex(&text, f, &RenderOptions { decode: sut::options(k, enrich), table_width: columns }).err().map(|e| e.to_string());
                ensure!(said.is_none_or(|t| r.err.contains(&t)), "{} fails with {:?}, which is not the library's text", name(), r.err);
                ctx.class("error text");
            }
        }
    }
    if by_file == 2 && !text.contains('\0') {
        let f = run(true);
        ctx.class("argument and file");
        ensure!(f.ok == r.ok && f.out == r.out && f.err == r.err, "{} gives something else when read from a file: {} / {}", name(), brief(&String::from_utf8_lossy(&f.out)), f.err);
    }
    Ok(())
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        rule: "Runs of the built tool: generated and damaged frames in all spellings and arbitrary texts, as argument or file, with any format name, fitting, wrong and malformed keys, widths and the enrichment switch. Non-trivial: every run.",
        both_builds: false,
        assumptions: &["standard output is a pipe, where the tool uses 100 columns unless a width is given", "if several options are wrong any one of the errors may be named; a width that is no number is refused by the option parser without a code", "widths up to 4096", "files hold valid UTF-8"],
        parts: vec![Part { name: "runs", kind: Kind::Random { quick: 60_000, thorough: 1_000_000, tape: (20, 150), f: c20_case } }],
    }
}

// ------------------------------------------------------------------ C21

fn python_value(s: &mut Source, text: &str, bytes: &[u8], as_text: bool) -> Value {
    if as_text {
        json!({"str": text})
    } else {
        let kind = *s.pick(&["bytes", "bytes", "bytearray", "memoryview", "list", "tuple"]);
        json!({kind: hex(bytes)})
    }
}

fn python_error(name: &dyn Fn() -> String, a: &Value, codes: &[&str]) -> CheckResult {
    ensure!(a.get("ok").is_none(), "{} returns {} but the library refuses it with {codes:?}", name(), brief(&a["ok"].to_string()));
    ensure!(a["module_error"] == true, "{} raises {a} instead of the module's error", name());
    let text = a["text"].as_str().unwrap_or("");
    ensure!(codes.iter().any(|c| text.contains(c)), "{} raises {text:?}, which names none of {codes:?}", name());
    Ok(())
}

/// Key argument: value for Python and what it means.
type Key = Result<Option<[u8; 16]>, Vec<&'static str>>;

fn python_key(s: &mut Source, key: Option<[u8; 16]>) -> (Option<Value>, Key) {
    match s.below(3) {
        0 => {
            let t = key_text(s, key);
            let k = text_key(t.as_deref());
            (t.map(|t| json!({"str": t})), k)
        }
        1 => {
            let b: Option<Vec<u8>> = if s.chance(1, 6) {
                let n = *s.pick(&[0usize, 1, 15, 17, 32]);
                Some(s.bytes(n))
            } else {
                key.map(|k| k.to_vec())
            };
            let v = b.as_ref().map(|b| python_value(s, "", b, false));
            let k = match b {
                None => Ok(None),
                Some(b) => <[u8; 16]>::try_from(b).map(Some).map_err(|_| vec!["option.invalid", "input.empty"]),
            };
            (v, k)
        }
        _ => (if s.chance(1, 4) { Some(json!({"none": null})) } else { None }, Ok(None)),
    }
}

fn text_key(t: Option<&str>) -> Key {
    let Some(t) = t else { return Ok(None) };
    match decode_hex_bytes(t) {
        Ok(b) => <[u8; 16]>::try_from(b).map(Some).map_err(|_| vec!["option.invalid"]),
        Err(e) => Err(vec![e.code(), "option.invalid"]),
    }
}

fn c21_case(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let call = *s.pick(&["parse", "render", "parse_records", "m_bus_parse", "parse_application_layer"]);
    let text_only = matches!(call, "m_bus_parse" | "parse_application_layer");
    let as_text = text_only || s.chance(1, 2);
    let both = s.chance(1, 3);
    let enrich = match s.below(3) {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    };
    let width = total::width(s);
    let format = (call == "m_bus_parse" || s.chance(7, 8)).then(|| format_name(s));
    // The input as text and as bytes.
    let (text, mut key) = match call {
        "parse_records" | "parse_application_layer" if s.chance(3, 4) => {
            let b = match s.below(3) {
                0 => super::records::mutated_block(s),
                _ => gen::block(s, &gen::FULL, 6, 200),
            };
            (output::spell(s, &b), None)
        }
        _ => frame_text(s),
    };
    if key.is_none() && s.chance(1, 6) {
        key = total::key(s);
    }
    let decoded = decode_hex_bytes(&text);
    let as_text = as_text || decoded.is_err() && !s.chance(1, 2);
    let bytes = decoded.clone().unwrap_or_default();
    let (pykey, key) = python_key(s, key);
    let arg = python_value(s, &text, &bytes, as_text);
    let mut args = vec![arg.clone()];
    let mut kwargs = serde_json::Map::new();
    let input: Result<Vec<u8>, OutputError> = if as_text { decoded } else if bytes.is_empty() { Err(OutputError::EmptyInput) } else { Ok(bytes.clone()) };

    let mut codes: Vec<&'static str> = input.as_ref().err().map(OutputError::code).into_iter().collect();
    // The text of the library's error, of interest if it is the only one.
    let mut said = input.as_ref().err().map(ToString::to_string);
    let mut want: Option<Value> = None;
    match call {
        "parse" | "render" | "m_bus_parse" => {
            if let Some(k) = &pykey {
                if call != "m_bus_parse" || k.get("str").is_some() {
                    kwargs.insert("key".into(), k.clone());
                }
            }
            let key = match (&key, kwargs.contains_key("key")) {
                (_, false) => None,
                (Ok(k), _) => *k,
                (Err(c), _) => {
                    codes.extend(c);
                    None
                }
            };
            let on = enrich.unwrap_or(true) || call == "m_bus_parse";
            if call != "m_bus_parse" {
                if let Some(e) = enrich {
                    kwargs.insert("include_enrichment".into(), json!({"bool": e}));
                }
            }
            if call == "parse" {
                if let Ok(b) = &input {
                    match m_bus_parser::decode_bytes(b, &sut::options(key, on)) {
                        Ok(d) => want = Some(serde_json::to_value(&d).expect("serialises")),
                        Err(e) => {
                            said = Some(e.to_string());
                            codes.push(e.code());
                        }
                    }
                }
            } else {
                let mut table_width = if call == "m_bus_parse" { RenderOptions::default().table_width } else { None };
                if call == "render" {
                    if let Some(w) = width {
                        kwargs.insert("width".into(), json!({"int": w}));
                        table_width = Some(w);
                    }
                }
                if let Some(f) = &format {
                    args.push(json!({"str": f}));
                }
                let f = OutputFormat::from_str(format.as_deref().unwrap_or("json"));
                match (f, &input) {
                    (Err(e), _) => {
                        said = Some(e.to_string());
                        codes.push(e.code());
                    }
                    (Ok(f), Ok(b)) => {
                        let o = RenderOptions { decode: sut::options(key, on), table_width };
                        // Text given to the old function goes to the library as text.
                        match if call == "m_bus_parse" { render_hex(&text, f, &o) } else { render_bytes(b, f, &o) } {
                            Ok(t) => want = Some(Value::String(t)),
                            Err(e) => {
                            said = Some(e.to_string());
                            codes.push(e.code());
                        }
                        }
                    }
                    _ => {}
                }
            }
        }
        _ => {
            if let Ok(b) = &input {
                match decode_data_records(b) {
                    Ok(r) => want = Some(serde_json::to_value(&r).expect("serialises")),
                    Err(e) => {
                            said = Some(e.to_string());
                            codes.push(e.code());
                        }
                }
            }
        }
    }
    let q = json!({"call": call, "args": args, "kwargs": kwargs});
    ctx.class(call);
    ctx.class(if as_text { "text" } else { "bytes" });
    ctx.class(if codes.is_empty() { "success" } else { codes[0] });
    ctx.nontrivial(&q.to_string());
    ctx.sample(|| q.to_string());
    let a = ask("python", &q);
    let name = || format!("Python call {}", brief(&q.to_string()));
    if !codes.is_empty() {
        python_error(&name, &a, &codes)?;
        if let (Some(t), 1) = (said, codes.len()) {
            let text = a["text"].as_str().unwrap_or("");
            ensure!(text.contains(&t), "{} raises {text:?}, but the library says {t:?}", name());
            ctx.class("error text");
        }
        return Ok(());
    }
    let want = want.expect("no error, so a result");
    let mut got = a["ok"].clone();
    ensure!(a.get("ok").is_some(), "{} raises {a} but the library returns {}", name(), brief(&want.to_string()));
    if call == "parse_application_layer" {
        let t = got.as_str().ok_or_else(|| Fail::new(format!("{} returns no text", name())))?;
        got = serde_json::from_str(t).map_err(|e| Fail::new(format!("{} returns text that is not JSON: {e}", name())))?;
    }
    if !same(&got, &want) {
        let (g, w) = (got.to_string(), want.to_string());
        fail!("{} returns something other than the library: {}", name(), first_difference(&g, &w));
    }
    // The other spelling of the same bytes.
    if both && !text_only {
        let mut q = q.clone();
        q["args"][0] = python_value(s, &hex_sp(&bytes), &bytes, !as_text);
        let b = ask("python", &q);
        ctx.class("both spellings");
        ensure!(b.get("ok").is_some_and(|b| same(b, &a["ok"])), "{} differs from the call with {}: {}", name(), brief(&q["args"][0].to_string()), brief(&b.to_string()));
    }
    Ok(())
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        rule: "Calls of the five functions of the built module: generated and damaged frames or record blocks as text in all spellings or as bytes, bytearray, memoryview, list or tuple; keys as text or bytes, fitting, wrong or malformed; all formats, widths and the enrichment flag given or left out. Non-trivial: every call.",
        both_builds: false,
        assumptions: &["if several arguments are wrong any one of the errors may be raised", "widths up to 4096; arguments of other types are not given"],
        parts: vec![Part { name: "calls", kind: Kind::Random { quick: 500_000, thorough: 8_000_000, tape: (20, 200), f: c21_case } }],
    }
}

// ------------------------------------------------------------------ C22

fn reported(a: &Value) -> Result<bool, Fail> {
    let Some(m) = a["error"].as_str() else { return Ok(false) };
    // Natively the JavaScript error object cannot be made, and says so.
    let message = m.rsplit_once(" at ").map_or(m, |x| x.0);
    if m == "returned" || message.contains("wasm") {
        return Ok(true);
    }
    Err(Fail::new(format!("the web binding panics: {m}")))
}

fn c22_render(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let call = ["render", "render", "parse", "parse_with_key"][s.below(4)];
    let format = format_name(s);
    let width = total::width(s);
    let enrich = match s.below(3) {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    };
    let (text, key) = frame_text(s);
    let mut key = key_text(s, key);
    let (width, enrich) = if call == "render" { (width, enrich) } else { (None, None) };
    match call {
        "parse" => key = None,
        "parse_with_key" if key.is_none() => key = Some(String::new()),
        _ => {}
    }
    let parsed = text_key(key.as_deref().filter(|k| !k.trim().is_empty()));
    let want = wanted(&text, &format, parsed, width, enrich.unwrap_or(true));
    let q = json!({"call": call, "data": text, "format": format, "key": key, "width": width, "enrich": enrich});
    ctx.class(call);
    ctx.class(match &want {
        Ok(_) => "success",
        Err(c) => c[0],
    });
    ctx.nontrivial(&q.to_string());
    ctx.sample(|| q.to_string());
    let a = ask("web", &q);
    let name = || format!("web call {}", brief(&q.to_string()));
    let error = reported(&a).map_err(|e| Fail::new(format!("{}: {}", name(), e.message)))?;
    match want {
        Ok(t) => {
            ensure!(!error, "{} reports an error but the library renders it", name());
            let got = a["ok"].as_str().unwrap_or("");
            ensure!(got == t, "{} returns something other than the library: {}", name(), first_difference(got, &t));
        }
        Err(codes) => ensure!(error, "{} returns {} but the library refuses it with {codes:?}", name(), brief(&a.to_string())),
    }
    Ok(())
}

/// Text of the highlighter's HTML, or what is wrong with it.
fn html_text(h: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut open = 0usize;
    let mut rest = h;
    while let Some(at) = rest.find(['<', '>', '&']) {
        out.push_str(&rest[..at]);
        rest = &rest[at..];
        if let Some(r) = rest.strip_prefix("</span>") {
            open = open.checked_sub(1).ok_or("a span is closed that is not open")?;
            rest = r;
        } else if let Some(r) = rest.strip_prefix("<span class=\"") {
            let end = r.find('"').ok_or("unfinished class")?;
            if r[..end].is_empty() || !r[..end].split(' ').all(|c| c.starts_with("syn-") && !c.contains(['<', '>', '&', '\'', '\n'])) {
                return Err(format!("class {:?}", &r[..end]));
            }
            rest = r[end + 1..].strip_prefix('>').ok_or("span with other attributes")?;
            open += 1;
        } else if let Some(r) = rest.strip_prefix('&') {
            let end = r.find(';').ok_or("unfinished entity")?;
            let c = match &r[..end] {
                "amp" => '&',
                "lt" => '<',
                "gt" => '>',
                "quot" => '"',
                "apos" => '\'',
                e => e
                    .strip_prefix("#x")
                    .and_then(|x| u32::from_str_radix(x, 16).ok())
                    .or_else(|| e.strip_prefix('#').and_then(|x| x.parse().ok()))
                    .and_then(char::from_u32)
                    .ok_or_else(|| format!("entity {e:?}"))?,
            };
            out.push(c);
            rest = &r[end + 1..];
        } else {
            return Err(format!("stray markup at {:?}", rest.chars().take(20).collect::<String>()));
        }
    }
    out.push_str(rest);
    if open != 0 {
        return Err(format!("{open} spans are left open"));
    }
    Ok(out)
}

const BITS: &[&str] = &[
    "\n", "\r\n", "\r", "\n\n", "\t", " ", ",", ";", ":", "\"", "'", "\"\"", "<", ">", "&", "</span>", "<span class=\"syn-x\">", "&lt;", "&amp;", "&#39;", "<script>", "</script>", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>", "<!DOCTYPE", "{", "}", "[", "]",
    "- ", "? ", "| ", "|\n", ">\n", "#", "&anchor", "*alias", "!!str", "%YAML", "---", "...", "null", "true", "1e5", "-0.5", "\\", "\\n", "\\u00e9", "\\\"", "/*", "//", "*/", "é", "日本", "🦀", "\u{2028}", "\u{85}", "\u{0}", "\u{1b}", "\u{feff}", "\u{301}", "\u{b}", "\u{c}", "a", "key", "key: value", "\"a\": 1", "<a b=\"c\">", "</a>", "<a/>",
];

fn source_text(s: &mut Source) -> (String, &'static str) {
    match s.below(5) {
        0 => {
            let n = s.below(60);
            ((0..n).map(|_| *s.pick(BITS)).collect(), "pieces")
        }
        1 => {
            let n = s.below(60);
            ((0..n).filter_map(|_| char::from_u32(s.raw() % 0x300)).collect(), "characters")
        }
        2 => {
            let (a, b, n) = (*s.pick(BITS), *s.pick(BITS), s.range(1, 150));
            ((0..n).flat_map(|_| [a, b]).collect(), "repeated")
        }
        k => {
            // An output of the library, sometimes damaged.
            let damage: Vec<(usize, &str, usize)> = (0..if k == 3 { 0 } else { s.range(1, 5) }).map(|_| (s.raw() as usize, *s.pick(BITS), s.below(3))).collect();
            let f = *s.pick(&total::FORMATS);
            let i = output::input(s);
            let t = sut::render(&i.bytes, f, i.key, Some(80)).unwrap_or_default();
            let mut c: Vec<char> = t.chars().take(3000).collect();
            for (at, piece, kind) in damage {
                let at = at % (c.len() + 1);
                match kind {
                    0 => {
                        c.splice(at..at, piece.chars());
                    }
                    1 if at < c.len() => {
                        c.remove(at);
                    }
                    _ => c.truncate(at.max(1)),
                }
            }
            (c.into_iter().collect(), if k == 3 { "output" } else { "damaged output" })
        }
    }
}

fn c22_highlight(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let language = match s.below(12) {
        0..=2 => "csv",
        3..=4 => "json",
        5..=6 => "yaml",
        7..=8 => "xml",
        9 => "plain",
        _ => *s.pick(&["", "yml", " CSV ", "JSON", "Xml\n", "table", "mermaid", "rust", "html", "csv,", "日本", "\u{0}", "toml"]),
    };
    let (text, kind) = source_text(s);
    let q = json!({"call": "highlight", "source": text, "language": language});
    ctx.class(kind);
    ctx.class(language);
    if !text.is_empty() {
        ctx.nontrivial(&q.to_string());
    }
    ctx.sample(|| q.to_string());
    let a = ask("web", &q);
    let name = || format!("highlighting {} as {language:?}", brief(&text));
    let Some(h) = a["ok"].as_str() else { fail!("{} gives {a}", name()) };
    let got = html_text(h).map_err(|e| Fail::new(format!("{}: {e} in {}", name(), brief(h))))?;
    ensure!(got == text, "{} loses text: {}", name(), first_difference(&got, &text));
    Ok(())
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        rule: "Calls of the rendering functions of the web binding, built natively, with generated and damaged frames in all spellings, all formats, keys, widths and flags; and calls of the highlighter with library outputs, damaged outputs, token mixtures and arbitrary characters in every language. Non-trivial: every rendering call and every non-empty source.",
        both_builds: false,
        assumptions: &["the native build stands for the WebAssembly build; there, making the JavaScript error object is what reports an error", "a blank key text means no key", "sources up to 3000 characters"],
        parts: vec![
            Part { name: "renderings", kind: Kind::Random { quick: 400_000, thorough: 6_000_000, tape: (20, 200), f: c22_render } },
            Part { name: "highlighter", kind: Kind::Random { quick: 60_000, thorough: 900_000, tape: (10, 150), f: c22_highlight } },
        ],
    }
}

// ------------------------------------------------------------------ C30

/// Frames, damaged frames, captured frames and other byte strings.
fn any_bytes(s: &mut Source) -> (Vec<u8>, &'static str) {
    let damage = s.chance(1, 4).then(|| (s.below(3), s.raw() as usize, s.byte()));
    let (mut b, kind) = match s.weighted(&[4, 3, 2, 1, 1]) {
        0 => (gen::clear_frame(s, &gen::FULL, 8).bytes(), "records"),
        1 => (gen::any_frame(s, &gen::FULL, 5).bytes(), "any header"),
        2 => (gen::clear_frame(s, &gen::TEXTY, 6).bytes(), "texts"),
        3 => (s.pick(total::real()).clone(), "captured frame"),
        _ => {
            let n = s.below(60);
            (s.bytes(n), "random bytes")
        }
    };
    let Some((what, place, byte)) = damage.filter(|_| !b.is_empty()) else { return (b, kind) };
    let i = place % b.len();
    match what {
        0 => b.truncate(i),
        1 => b[i] = byte,
        _ => b.insert(i, byte),
    }
    (b, "damaged")
}

/// Where two texts first differ.
fn difference(a: &str, b: &str) -> String {
    match a.lines().zip(b.lines()).find(|(x, y)| x != y) {
        Some((x, y)) => format!("{y}\n instead of {x}"),
        None => format!("{} bytes instead of {}", b.len(), a.len()),
    }
}

fn same_dump(build: &'static str, call: &str, bytes: &[u8], key: Option<&[u8; 16]>, want: &str) -> CheckResult {
    let a = ask(build, &json!({"call": call, "bytes": hex(bytes), "key": key.map(|k| hex(k))}));
    ensure!(a.get("panic").is_none(), "{call} {} panics in the build {build}", hex(bytes));
    let got = a["ok"].as_str().unwrap_or("no answer");
    ensure!(got == want, "{call} {} with the build {build}: {}", hex(bytes), difference(want, got));
    Ok(())
}

fn c30_low(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let build = if s.chance(1, 2) { "bare" } else { "baredec" };
    let alone = s.chance(1, 4);
    ctx.class(build);
    if alone {
        let b = gen::block(s, &gen::FULL, 6, 200);
        ctx.sample(|| hex(&b));
        ctx.nontrivial(&b);
        ctx.class("data block");
        return same_dump(build, "block", &b, None, &dump::block(&b));
    }
    let (b, kind) = any_bytes(s);
    ctx.sample(|| hex(&b));
    ctx.class(kind);
    if !matches!((m_bus_parser::WiredFrame::try_from(b.as_slice()), sut::decode(&b, None)), (Err(_), Err(_))) {
        ctx.nontrivial(&b);
    }
    same_dump(build, "frame", &b, None, &dump::frame(&b))
}

/// A frame whose payload is encrypted, and the key.
fn sealed(s: &mut Source) -> (Vec<u8>, [u8; 16]) {
    let ident = gen::ident(s);
    let mut sh = gen::short(s);
    let mode = *s.pick(&[5u8, 7]);
    let long = s.chance(1, 2);
    let link = if long { gen::link(s) } else { gen::Link::Wireless { c: 0x44, ident: ident.clone(), layout: *s.pick(&gen::LAYOUTS) } };
    let mut clear = gen::block(s, &gen::FULL, 5, 200);
    clear.resize(clear.len().div_ceil(16).max(1) * 16, 0x2F);
    sh.conf = [((clear.len() / 16).min(15) as u8) << 4, mode];
    let key: [u8; 16] = s.bytes(16).try_into().unwrap();
    let block = gen::encrypt(mode, &key, &ident, sh.access, &clear);
    let hdr = if long { Hdr::Long(ident, sh) } else { Hdr::Short(0x7A, sh) };
    (Frame { link, hdr, block }.bytes(), key)
}

fn c30_decrypt(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (b, key) = sealed(s);
    ctx.sample(|| hex(&b));
    ctx.nontrivial(&b);
    same_dump("baredec", "decrypt", &b, Some(&key), &dump::decrypt(&b, &key))
}

/// Without decryption support: the same without a key; with one, encrypted
/// payloads are refused as unsupported and everything else is the same.
fn c30_nodec(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let keyed = s.chance(1, 2);
    let call = *s.pick(&["decode", "json", "yaml", "csv", "table", "mermaid", "xml", "annotated", "annotated-text", "records"]);
    let (b, key) = if s.chance(1, 2) {
        sealed(s)
    } else {
        let b = if call == "records" { gen::block(s, &gen::FULL, 6, 200) } else { any_bytes(s).0 };
        (b, s.bytes(16).try_into().unwrap())
    };
    let input = hex(&b);
    ctx.sample(|| format!("{call} {input}"));
    let protected = sut::decode(&b, None).is_ok_and(|v| v["security"]["payload_protection"] == "encrypted");
    let mut q = json!({"call": call, "bytes": input});
    // Values travel as text: reading a number back may change its last digit.
    let full = |q: &Value| {
        let mut a = sut::answer(q);
        if let (Some(v), "decode" | "records") = (a.get_mut("ok"), call) {
            *v = v.to_string().into();
        }
        a
    };
    let open = full(&q);
    if keyed {
        q["key"] = hex(&key).into();
    }
    let got = ask("nodec", &q);
    ensure!(got.get("panic").is_none(), "{call} {input} panics in the build without decryption");
    ctx.class(call);
    if open.get("ok").is_some() {
        ctx.nontrivial(&(call, &input));
    }
    let want = match (keyed, call) {
        (true, "decode" | "json" | "yaml" | "csv" | "table" | "mermaid") if protected => {
            ctx.class("refused for want of decryption");
            // Modes no build supports may be refused as such.
            let all = full(&q);
            if all.get("error").is_some() && all == got { all } else { json!({"error": "security.feature_unavailable"}) }
        }
        // The format has one error code.
        (true, "xml") if protected => {
            ensure!(got.get("error").is_some() || got == open, "xml {input} with a key and without decryption: {got}");
            return Ok(());
        }
        (true, "decode" | "json" | "yaml" | "csv" | "table" | "mermaid") => {
            ctx.class("key without use");
            full(&q)
        }
        _ => open,
    };
    ensure!(got == want, "{call} {input} {} without decryption support: {}", if keyed { "with key" } else { "without key" }, difference(&want.to_string(), &got.to_string()));
    Ok(())
}

pub fn c30() -> Property {
    Property {
        id: "C30",
        rule: "Frames, damaged frames, captured frames, data blocks and random bytes are read by the library built without std, without std but with decryption, and with std but without decryption, and compared with the full build: low-level values as debug text, low-level decryption, and every output format with and without a key. Non-trivial: a frame or block at least one build reads.",
        both_builds: false,
        assumptions: &["the debug text of the low-level types shows all they hold", "in a build without decryption a key for an encrypted payload gives security.feature_unavailable"],
        parts: vec![
            Part { name: "low", kind: Kind::Random { quick: 500_000, thorough: 8_000_000, tape: (16, 260), f: c30_low } },
            Part { name: "decrypt", kind: Kind::Random { quick: 200_000, thorough: 3_200_000, tape: (40, 260), f: c30_decrypt } },
            Part { name: "nodec", kind: Kind::Random { quick: 500_000, thorough: 8_000_000, tape: (40, 260), f: c30_nodec } },
        ],
    }
}
