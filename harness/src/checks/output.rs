//! Renderings of the canonical output: C13, C14, C15, C18, C28.

use m_bus_parser::{DecodeOptions, OutputError, OutputFormat, RenderOptions};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use unicode_width::UnicodeWidthStr;

use crate::gen::{self, Frame, Hdr, Link};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::sut;
use crate::util::{hex, hex_sp};

pub struct Input {
    pub bytes: Vec<u8>,
    pub key: Option<[u8; 16]>,
    pub kind: &'static str,
}

/// Frames of every kind, most of them with records full of awkward texts.
pub fn input(s: &mut Source) -> Input {
    let mut key = None;
    let (bytes, kind) = match s.weighted(&[6, 6, 5, 4, 1, 4, 3]) {
        0 => (gen::clear_frame(s, &gen::FULL, 8).bytes(), "records"),
        1 => (gen::clear_frame(s, &gen::TEXTY, 5).bytes(), "text records"),
        2 => (gen::any_frame(s, &gen::FULL, 6).bytes(), "any header"),
        3 => (damaged(s).bytes(), "damaged records"),
        4 => {
            let c = *s.pick(&[0x40u8, 0x5A, 0x5B, 0x7A, 0x7B]);
            let a = s.byte();
            (if s.chance(1, 5) { vec![0xE5] } else { vec![0x10, c, a, c.wrapping_add(a), 0x16] }, "short frame")
        }
        5 => {
            let link = gen::link(s);
            let app = if s.chance(1, 4) {
                let n = s.below(30);
                s.bytes(n)
            } else {
                gen::loose_payload(s, link.room())
            };
            (link.frame(&app), "random payload")
        }
        _ => {
            let ident = gen::ident(s);
            let mut sh = gen::short(s);
            let mode = *s.pick(&[5u8, 7]);
            let mut clear = gen::block(s, &gen::FULL, 5, 200);
            clear.resize(clear.len().div_ceil(16).max(1) * 16, 0x2F);
            let blocks = (clear.len() / 16).min(15) as u8;
            sh.conf = [blocks << 4, mode];
            let k: [u8; 16] = s.bytes(16).try_into().unwrap();
            let block = gen::encrypt(mode, &k, &ident, sh.access, &clear);
            if s.chance(3, 4) {
                key = Some(k);
            }
            let link = gen::link(s);
            (Frame { link, hdr: Hdr::Long(ident, sh), block }.bytes(), "encrypted")
        }
    };
    if key.is_none() && s.chance(1, 10) {
        key = Some([7; 16]);
    }
    Input { bytes, key, kind }
}

fn damaged(s: &mut Source) -> Frame {
    // Drawn first, so that a short tape does not pin the damage to the start.
    let (kind, place, byte) = (s.below(3), s.raw() as usize, s.byte());
    let mut f = gen::clear_frame(s, &gen::FULL, 6);
    if !f.block.is_empty() {
        let i = place % f.block.len();
        match kind {
            0 => f.block.truncate(i),
            1 => f.block[i] = byte,
            _ => {
                f.block.remove(i);
            }
        }
    }
    f
}

fn opts(key: Option<[u8; 16]>, enrich: bool, width: Option<usize>) -> RenderOptions {
    RenderOptions { decode: sut::options(key, enrich), table_width: width }
}

fn decoded(i: &Input, enrich: bool) -> Result<Value, OutputError> {
    m_bus_parser::decode_bytes(&i.bytes, &sut::options(i.key, enrich)).map(|d| serde_json::to_value(&d).expect("serialises"))
}

/// Spelling of bytes as hexadecimal text.
pub fn spell(s: &mut Source, bytes: &[u8]) -> String {
    match s.below(6) {
        0 => hex(bytes),
        1 => hex_sp(bytes),
        2 => hex(bytes).to_lowercase(),
        3 => bytes.iter().map(|b| format!("0x{b:02x}")).collect::<Vec<_>>().join(" "),
        4 => bytes.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(if s.chance(1, 2) { ":" } else { "-" }),
        _ => format!("\n {}\t\r\n", hex_sp(bytes)),
    }
}

/// Equality of JSON values where floating point numbers may differ by what
/// the parser of the test loses.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            x == y
                || match (x.as_f64(), y.as_f64()) {
                    (Some(p), Some(q)) => (x.is_f64() || y.is_f64()) && (p - q).abs() <= 4.0 * f64::EPSILON * p.abs(),
                    _ => false,
                }
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| same(p, q))),
        _ => a == b,
    }
}

pub fn value_text(r: &Value) -> String {
    let v = &r["value"];
    match &v["value"] {
        Value::String(t) => t.clone(),
        Value::Object(o) => o
            .iter()
            .map(|(k, x)| format!("{k}={}", x.as_str().map(str::to_string).unwrap_or_else(|| x.to_string())))
            .collect::<Vec<_>>()
            .join(", "),
        Value::Null => match v["kind"].as_str().unwrap_or("?") {
            "manufacturer_specific" => text(&r["data_hex"]).replace(' ', ""),
            "none" => "No data".into(),
            "unknown" => "Unsupported value type".into(),
            _ => String::new(),
        },
        x => x.to_string(),
    }
}

fn text(v: &Value) -> String {
    match v {
        Value::Null => String::new(),
        Value::String(s) => s.clone(),
        x => x.to_string(),
    }
}

fn list(v: &Value, f: impl Fn(&Value) -> String, sep: &str) -> String {
    v.as_array().map(|a| a.iter().map(f).collect::<Vec<_>>().join(sep)).unwrap_or_default()
}

pub fn reading(r: &Value) -> String {
    let q = list(&r["quantities"], text, ", ");
    let q = if q.is_empty() { "Reading".to_string() } else { q };
    let unit = r["unit"].as_str().map(|u| format!(" {u}")).unwrap_or_default();
    format!("{q}: {}{unit}", value_text(r))
}

// ------------------------------------------------------------------ C13

const FRAME_COLUMNS: [&str; 18] = [
    "schema_version", "protocol", "frame_kind", "frame_function", "address", "meter_id", "manufacturer_code", "identity_source",
    "access_numbers", "status_codes", "security_mode", "decryption_state", "decode_state", "record_count", "diagnostic_codes",
    "manufacturer_name", "manufacturer_website", "frame_hex",
];
const RECORD_COLUMNS: [&str; 11] = [
    "function", "storage_number", "tariff", "subunit", "quantities", "value_type", "value", "unit", "data_coding", "header_hex", "data_hex",
];

/// Expected header and row of the CSV rendering.
fn csv_cells(v: &Value) -> (Vec<String>, Vec<String>) {
    let id = &v["meter"]["identity"];
    let t = &v["transport"];
    let mut head: Vec<String> = FRAME_COLUMNS.iter().map(|c| c.to_string()).collect();
    let mut row = vec![
        text(&v["schema_version"]),
        text(&v["protocol"]),
        text(&v["frame"]["kind"]),
        text(&v["frame"]["function"]),
        text(&v["frame"]["address"]),
        text(&id["id"]),
        text(&id["manufacturer_code"]),
        text(&id["source"]),
        list(&t["access_numbers"], |a| format!("{}:{}", text(&a["source"]), text(&a["value"])), "|"),
        list(&t["statuses"], |a| text(&a["raw"]), "|"),
        text(&v["security"]["mode"]),
        text(&v["security"]["decryption_state"]),
        text(&v["decode_state"]),
        sut::records(v).len().to_string(),
        list(&v["diagnostics"], |d| text(&d["code"]), "|"),
        text(&v["enrichment"]["manufacturer_name"]),
        text(&v["enrichment"]["manufacturer_website"]),
        text(&v["raw"]["original_frame_hex"]),
    ];
    for (i, r) in sut::records(v).iter().enumerate() {
        head.extend(RECORD_COLUMNS.iter().map(|c| format!("record_{i}_{c}")));
        row.extend([
            text(&r["function"]),
            text(&r["storage_number"]),
            text(&r["tariff"]),
            text(&r["subunit"]),
            list(&r["quantities"], text, "|"),
            text(&r["value"]["kind"]),
            value_text(r),
            text(&r["unit"]),
            text(&r["data_coding"]),
            text(&r["header_hex"]),
            text(&r["data_hex"]),
        ]);
    }
    (head, row)
}

fn parse_csv(t: &str) -> Result<Vec<Vec<String>>, Fail> {
    let mut r = csv::ReaderBuilder::new().has_headers(false).flexible(true).from_reader(t.as_bytes());
    r.records()
        .map(|x| x.map(|x| x.iter().map(str::to_string).collect()).map_err(|e| Fail::new(format!("CSV does not parse: {e}"))))
        .collect()
}

fn c13_frame(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let i = input(s);
    let enrich = s.chance(1, 2);
    let o = opts(i.key, enrich, None);
    let at = hex_sp(&i.bytes);
    ctx.class(i.kind);
    ctx.sample(|| at.clone());
    let spelled = spell(s, &i.bytes);
    let got = decoded(&i, enrich);
    let from_hex = m_bus_parser::decode_hex(&spelled, &o.decode);
    let renders: Vec<(OutputFormat, Result<String, OutputError>, Result<String, OutputError>)> =
        [OutputFormat::Json, OutputFormat::Yaml, OutputFormat::Csv, OutputFormat::Table, OutputFormat::Mermaid]
            .into_iter()
            .map(|f| (f, m_bus_parser::render_bytes(&i.bytes, f, &o), m_bus_parser::render_hex(&spelled, f, &o)))
            .collect();
    let v = match got {
        Err(e) => {
            ctx.class("refused");
            ensure_eq!(from_hex.map(|_| ()).map_err(|e| e.code()), Err(e.code()), "[{at}] decode_hex");
            for (f, a, b) in renders {
                ensure_eq!(a.map(|_| ()).map_err(|e| e.code()), Err(e.code()), "[{at}] {f:?}");
                ensure_eq!(b.map(|_| ()).map_err(|e| e.code()), Err(e.code()), "[{at}] {f:?} from hex");
            }
            return Ok(());
        }
        Ok(v) => v,
    };
    if !sut::records(&v).is_empty() {
        ctx.nontrivial(&i.bytes);
    }
    let mut h = serde_json::to_value(from_hex.map_err(|e| Fail::new(format!("decode_hex refuses [{at}]: {e}")))?).expect("serialises");
    ensure_eq!(h["raw"]["input"].as_str(), Some(spelled.as_str()), "[{at}] echoed input");
    h["raw"].as_object_mut().unwrap().remove("input");
    let mut w = v.clone();
    w["raw"].as_object_mut().unwrap().remove("input");
    ensure_eq!(h, w, "[{at}] decode_hex");
    for (f, a, b) in renders {
        let a = a.map_err(|e| Fail::new(format!("[{at}] {f:?} refused: {e}")))?;
        ensure_eq!(b.ok().as_deref(), Some(a.as_str()), "[{at}] {f:?} from hex");
        match f {
            OutputFormat::Json => {
                let p: Value = serde_json::from_str(&a).map_err(|e| Fail::new(format!("[{at}] JSON does not parse: {e}")))?;
                ensure!(same(&p, &v), "[{at}] JSON differs from the decoded value:\n{p}\n{v}");
            }
            OutputFormat::Yaml => {
                let p: Value = serde_yaml::from_str(&a).map_err(|e| Fail::new(format!("[{at}] YAML does not parse: {e}\n{a}")))?;
                ensure!(same(&p, &v), "[{at}] YAML differs from the decoded value:\n{p}\n{v}");
            }
            OutputFormat::Csv => {
                let rows = parse_csv(&a)?;
                ensure_eq!(rows.len(), 2, "[{at}] CSV rows");
                let (head, row) = csv_cells(&v);
                ensure_eq!(rows[0], head, "[{at}] CSV header");
                ensure_eq!(rows[1].len(), row.len(), "[{at}] CSV cells");
                for (n, (g, w)) in rows[1].iter().zip(&row).enumerate() {
                    ensure_eq!(g, w, "[{at}] CSV column {}", head[n]);
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn c13_errors(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    // Frames that mostly fail to decode, and texts that are not hex.
    let (kind, place, bit) = (s.below(4), s.raw() as usize, s.below(8));
    let junk = if s.chance(1, 4) { *s.pick(&["g", "0", " 1", "0x", ",", "é", "::1"]) } else { "" };
    let mut b = if kind == 2 {
        let n = s.below(20);
        s.bytes(n)
    } else {
        input(s).bytes
    };
    match kind {
        0 => b.truncate(place % (b.len() + 1)),
        1 => {
            let i = place % b.len();
            b[i] ^= 1 << bit;
        }
        2 => {}
        _ => b.push(place as u8),
    }
    let mut t = spell(s, &b);
    t.push_str(junk);
    let o = opts(None, s.chance(1, 2), None);
    ctx.sample(|| t.clone());
    let first = m_bus_parser::decode_hex(&t, &o.decode).map(|_| ()).map_err(|e| e.code());
    match &first {
        Ok(()) => ctx.class("decodes"),
        Err(c) => {
            ctx.class(c);
            ctx.nontrivial(t.as_bytes());
        }
    }
    for f in [OutputFormat::Json, OutputFormat::Yaml, OutputFormat::Csv] {
        let r = m_bus_parser::render_hex(&t, f, &o).map(|_| ()).map_err(|e| e.code());
        ensure_eq!(r, first, "{t:?} {f:?}");
    }
    if let Ok(bytes) = m_bus_parser::decode_hex_bytes(&t) {
        ensure_eq!(m_bus_parser::decode_bytes(&bytes, &o.decode).map(|_| ()).map_err(|e| e.code()), first, "{t:?} decode_bytes");
        for f in [OutputFormat::Json, OutputFormat::Yaml, OutputFormat::Csv] {
            let r = m_bus_parser::render_bytes(&bytes, f, &o).map(|_| ()).map_err(|e| e.code());
            ensure_eq!(r, first, "{t:?} {f:?} from bytes");
        }
    }
    Ok(())
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "Frames of every kind with awkward texts, keys and damaged blocks, rendered as JSON, YAML and CSV and parsed back; and inputs that mostly fail to decode. Non-trivial: a decoded frame with at least one record, or an input refused with an error code.",
        both_builds: false,
        assumptions: &["serde_json, serde_yaml and the csv crate parse their formats correctly"],
        parts: vec![
            Part { name: "round trip", kind: Kind::Random { quick: 240_000, thorough: 2_880_000, tape: (16, 260), f: c13_frame } },
            Part { name: "errors", kind: Kind::Random { quick: 120_000, thorough: 1_440_000, tape: (16, 120), f: c13_errors } },
        ],
    }
}

// ------------------------------------------------------------------ C14

#[derive(Debug, PartialEq)]
enum Item {
    Line(String),
    Box(Vec<Vec<String>>),
}

fn squeeze(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Undoes wrapping: free lines and boxes with their cells, white space removed.
fn parse_table(t: &str) -> Result<Vec<Item>, Fail> {
    let mut items = vec![];
    let mut rows: Option<Vec<Vec<String>>> = None;
    let mut open: Vec<String> = vec![];
    for line in t.split('\n') {
        match line.chars().next() {
            Some('┌') => rows = Some(vec![]),
            Some('│') => {
                ensure!(rows.is_some(), "cell outside a box: {line}");
                let body = line.strip_prefix('│').unwrap().strip_suffix('│').ok_or_else(|| Fail::new(format!("open row {line:?}")))?;
                let cells: Vec<&str> = body.split('│').collect();
                if open.is_empty() {
                    open = vec![String::new(); cells.len()];
                }
                ensure_eq!(cells.len(), open.len(), "cells in {line:?}");
                for (o, c) in open.iter_mut().zip(cells) {
                    o.push_str(&squeeze(c));
                }
            }
            Some('├') => {
                ensure!(rows.is_some(), "border outside a box: {line}");
                rows.as_mut().unwrap().push(std::mem::take(&mut open));
            }
            Some('└') => {
                let mut r = rows.take().ok_or_else(|| Fail::new(format!("border outside a box: {line}")))?;
                r.push(std::mem::take(&mut open));
                items.push(Item::Box(r));
            }
            _ => {
                ensure!(rows.is_none(), "free line in a box: {line:?}");
                let l = squeeze(line);
                if l.is_empty() {
                    continue;
                }
                match items.last_mut() {
                    Some(Item::Line(x)) => x.push_str(&l),
                    _ => items.push(Item::Line(l)),
                }
            }
        }
    }
    ensure!(rows.is_none(), "box not closed");
    Ok(items)
}

fn expected_table(v: &Value, width: usize) -> Vec<Item> {
    let id = &v["meter"]["identity"];
    let dash = |x: &Value| x.as_str().map(str::to_string).unwrap_or_else(|| "—".into());
    let row = |cells: &[String]| cells.iter().map(|c| squeeze(c)).collect::<Vec<_>>();
    let kv = |rows: Vec<(String, String)>| {
        let mut b = vec![row(&["Field".into(), "Value".into()])];
        b.extend(rows.into_iter().map(|(k, x)| row(&[k, x])));
        Item::Box(b)
    };
    let mut items = vec![Item::Line(squeeze(&format!("{} {} frame · {} decode", text(&v["protocol"]), text(&v["frame"]["kind"]), text(&v["decode_state"]))))];
    let mut facts = vec![
        ("Function".to_string(), dash(&v["frame"]["function"])),
        ("Meter".to_string(), dash(&id["id"])),
        ("Manufacturer".to_string(), dash(&id["manufacturer_code"])),
        ("Device".to_string(), dash(&id["device_type"])),
        ("Security".to_string(), format!("{} · {}", text(&v["security"]["payload_protection"]), text(&v["security"]["decryption_state"]))),
    ];
    let e = &v["enrichment"];
    if !e.is_null() {
        facts.push(("Manufacturer name".into(), text(&e["manufacturer_name"])));
        facts.push(("Website".into(), text(&e["manufacturer_website"])));
        facts.push(("Description".into(), text(&e["manufacturer_description"])));
    }
    items.push(kv(facts));
    let raw = |r: &Value| format!("{} {}", text(&r["header_hex"]), text(&r["data_hex"]));
    let stu = |r: &Value| format!("{}/{}/{}", r["storage_number"], r["tariff"], r["subunit"]);
    let records = sut::records(v);
    if !records.is_empty() {
        if width >= 72 {
            let mut b = vec![if width >= 100 {
                row(&["#", "Reading", "Function", "S/T/U", "Coding", "Raw"].map(String::from))
            } else {
                row(&["#", "Reading / detail", "Function", "S/T/U"].map(String::from))
            }];
            for (n, r) in records.iter().enumerate() {
                b.push(if width >= 100 {
                    row(&[n.to_string(), reading(r), text(&r["function"]), stu(r), text(&r["data_coding"]), raw(r)])
                } else {
                    row(&[n.to_string(), format!("{}{} · raw {}", reading(r), text(&r["data_coding"]), raw(r)), text(&r["function"]), stu(r)])
                });
            }
            items.push(Item::Box(b));
        } else {
            for (n, r) in records.iter().enumerate() {
                items.push(Item::Line(format!("Record{n}")));
                items.push(kv(vec![
                    ("Reading".into(), reading(r)),
                    ("Function".into(), text(&r["function"])),
                    ("Storage/Tariff/Subunit".into(), stu(r)),
                    ("Coding".into(), text(&r["data_coding"])),
                    ("Raw".into(), raw(r)),
                ]));
            }
        }
    }
    let diagnostics = v["diagnostics"].as_array().cloned().unwrap_or_default();
    if !diagnostics.is_empty() {
        items.push(Item::Line("Diagnostics".into()));
        items.push(kv(diagnostics.iter().map(|d| (text(&d["code"]), format!("{}: {}", text(&d["severity"]), text(&d["message"])))).collect()));
    }
    items
}

/// All lines of a box are equally wide, and its column lines meet its borders.
fn aligned(table: &str) -> CheckResult {
    let places = |l: &str| -> Vec<usize> { l.char_indices().filter(|(_, c)| !matches!(c, '─') && "┌┬┐├┼┤└┴┘│".contains(*c)).map(|(i, _)| l[..i].width()).collect() };
    let mut top: Option<Vec<usize>> = None;
    for l in table.split('\n') {
        match l.chars().next() {
            Some('┌') => top = Some(places(l)),
            Some('├' | '│' | '└') => {
                let Some(t) = &top else { fail!("{l:?} outside a box") };
                ensure_eq!(places(l), *t, "columns of {l:?}");
                if l.starts_with('└') {
                    top = None;
                }
            }
            _ => ensure!(top.is_none(), "{l:?} inside a box"),
        }
    }
    ensure!(top.is_none(), "a box has no lower border");
    Ok(())
}

fn c14_frame(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let width = match s.below(5) {
        0 => *s.pick(&[32usize, 33, 40, 60, 71, 72, 73, 80, 99, 100, 101, 120]),
        1 => s.range(32, 71),
        2 => s.range(72, 99),
        3 => s.range(100, 140),
        _ => s.range(32, 400),
    };
    let enrich = s.chance(1, 3);
    let i = if width <= 50 && s.chance(1, 6) {
        // A text that fills the narrow cells over many lines.
        let (link, hdr) = (gen::link(s), gen::clear_header(s));
        let n = s.range(60, 191);
        let mut block = vec![0x0D, 0x78, n as u8];
        block.extend((0..n).map(|_| if s.chance(1, 9) { s.byte() } else { b'a' + (s.raw() % 26) as u8 }));
        Input { bytes: Frame { link, hdr, block }.bytes(), key: None, kind: "long text" }
    } else {
        input(s)
    };
    let at = format!("width {width} [{}]", hex_sp(&i.bytes));
    ctx.class(i.kind);
    ctx.class(if width >= 100 { "wide" } else if width >= 72 { "middle" } else { "narrow" });
    ctx.sample(|| at.clone());
    let table = m_bus_parser::render_bytes(&i.bytes, OutputFormat::Table, &opts(i.key, enrich, Some(width)));
    let v = match decoded(&i, enrich) {
        Ok(v) => v,
        Err(e) => {
            ensure_eq!(table.map(|_| ()).map_err(|e| e.code()), Err(e.code()), "{at}");
            return Ok(());
        }
    };
    let table = table.map_err(|e| Fail::new(format!("{at}: refused: {e}")))?;
    if !sut::records(&v).is_empty() {
        ctx.nontrivial(&i.bytes);
    }
    for line in table.split('\n') {
        ensure!(line.width() <= width, "{at}: a line of {} columns: {line:?}", line.width());
    }
    let narrow = s.below(32);
    let r = m_bus_parser::render_bytes(&i.bytes, OutputFormat::Table, &opts(i.key, enrich, Some(narrow)));
    ensure_eq!(r.map(|_| ()).map_err(|e| e.code()), Err("option.invalid"), "width {narrow} [{}]", hex_sp(&i.bytes));
    let default = m_bus_parser::render_bytes(&i.bytes, OutputFormat::Table, &opts(i.key, enrich, None)).ok();
    let hundred = m_bus_parser::render_bytes(&i.bytes, OutputFormat::Table, &opts(i.key, enrich, Some(100))).ok();
    ensure!(default.is_some() && default == hundred, "[{}]: the default width is not 100", hex_sp(&i.bytes));
    if sut::records(&v).iter().any(|r| value_text(r).contains(['│', '┌', '├', '└'])) {
        ctx.class("box characters in a text: cells not compared");
        return Ok(());
    }
    aligned(&table).map_err(|e| Fail::new(format!("{at}: {e}\n{table}")))?;
    let got = parse_table(&table).map_err(|e| Fail::new(format!("{at}: {e}\n{table}")))?;
    let want = expected_table(&v, width);
    ensure_eq!(got.len(), want.len(), "{at}: sections of\n{table}");
    for (g, w) in got.iter().zip(&want) {
        ensure_eq!(g, w, "{at}");
    }
    Ok(())
}

/// Texts with the characters of borders: the table is that of a text with other
/// characters of the same width, in which the cells are compared.
fn c14_boxes(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    const PAIRS: [(char, char); 4] = [('│', '┄'), ('┌', '┅'), ('├', '┆'), ('└', '┇')];
    let width = *s.pick(&[32usize, 36, 47, 60, 72, 73, 90, 100, 101, 130, 250]);
    let (link, hdr) = (gen::link(s), gen::clear_header(s));
    let (mut boxed, mut plain) = (vec![], vec![]);
    for _ in 0..s.range(1, 3) {
        let (mut a, mut b) = (String::new(), String::new());
        for _ in 0..s.range(1, 24) {
            let pair = if s.chance(1, 3) {
                *s.pick(&PAIRS)
            } else {
                let c = *s.pick(&['a', 'Z', '7', ' ', '.', 'é', '日', '-', '─', '|']);
                (c, c)
            };
            a.push(pair.0);
            b.push(pair.1);
        }
        for (t, block) in [(&a, &mut boxed), (&b, &mut plain)] {
            block.extend([0x0D, 0x78, t.len() as u8]);
            block.extend(t.bytes().rev());
        }
    }
    ctx.nontrivial(&(&boxed, width));
    ctx.class(if width >= 100 { "wide" } else if width >= 72 { "middle" } else { "narrow" });
    let frame = |block: &Vec<u8>| Frame { link: link.clone(), hdr: hdr.clone(), block: block.clone() }.bytes();
    let (boxed, plain) = (frame(&boxed), frame(&plain));
    let at = format!("width {width} [{}]", hex_sp(&boxed));
    ctx.sample(|| at.clone());
    let table = |bytes: &[u8]| m_bus_parser::render_bytes(bytes, OutputFormat::Table, &opts(None, false, Some(width))).map_err(|e| Fail::new(format!("width {width} [{}]: refused: {e}", hex_sp(bytes))));
    let (b, p) = (table(&boxed)?, table(&plain)?);
    let view = |bytes: &Vec<u8>| decoded(&Input { bytes: bytes.clone(), key: None, kind: "" }, false).map_err(|e| Fail::new(format!("{at}: {e}")));
    let (w, v) = (view(&boxed)?, view(&plain)?);
    if w["decode_state"] != "complete" || v["decode_state"] != "complete" {
        ctx.class("the text ends in the CRC of its frame");
        return Ok(());
    }
    aligned(&p).map_err(|e| Fail::new(format!("{at}: {e}\n{p}")))?;
    let got = parse_table(&p).map_err(|e| Fail::new(format!("{at}: {e}\n{p}")))?;
    ensure!(got == expected_table(&v, width), "{at}: cells of\n{p}");
    ensure_eq!(b.chars().count(), p.chars().count(), "{at}: characters of\n{b}");
    for (b, p) in b.chars().zip(p.chars()) {
        let want = PAIRS.iter().find(|(_, q)| *q == p).map_or(p, |(c, _)| *c);
        // The raw bytes and checksums of the two frames differ.
        ensure!(b == want || (b.is_ascii_hexdigit() && want.is_ascii_hexdigit()), "{at}: {b:?} instead of {want:?}");
    }
    Ok(())
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "Frames of every kind with awkward texts rendered as tables of 32 to 400 columns, plus a too narrow and the default width for each. Non-trivial: the frame has at least one record.",
        both_builds: false,
        assumptions: &["column widths are those of the unicode-width crate", "cells are compared without white space; the table of a text with border characters is compared with that of the text with other characters"],
        parts: vec![Part { name: "tables", kind: Kind::Random { quick: 480_000, thorough: 4_800_000, tape: (16, 260), f: c14_frame } }, Part { name: "border characters", kind: Kind::Random { quick: 40_000, thorough: 400_000, tape: (16, 120), f: c14_boxes } }],
    }
}

// ------------------------------------------------------------------ C15

fn unescape(l: &str) -> Result<String, Fail> {
    let mut out = String::new();
    let mut rest = l;
    while let Some(p) = rest.find('&') {
        out.push_str(&rest[..p]);
        rest = &rest[p..];
        let (e, c) = [("&amp;", '&'), ("&quot;", '"'), ("&lt;", '<'), ("&gt;", '>')]
            .into_iter()
            .find(|(e, _)| rest.starts_with(e))
            .ok_or_else(|| Fail::new(format!("bare & in label {l:?}")))?;
        out.push(c);
        rest = &rest[e.len()..];
    }
    out.push_str(rest);
    Ok(out)
}

fn is_id(t: &str) -> bool {
    !t.is_empty() && t.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')
}

struct Diagram {
    nodes: BTreeMap<String, String>,
    groups: BTreeMap<String, String>,
    /// Group in which each node stands.
    inside: BTreeMap<String, Option<String>>,
    order: Vec<String>,
}

fn parse_mermaid(t: &str) -> Result<Diagram, Fail> {
    let mut d = Diagram { nodes: BTreeMap::new(), groups: BTreeMap::new(), inside: BTreeMap::new(), order: vec![] };
    let mut used: Vec<String> = vec![];
    let mut classes: BTreeSet<String> = BTreeSet::new();
    let mut class_uses: Vec<String> = vec![];
    let mut stack: Vec<String> = vec![];
    ensure!(!t.contains('\r'), "carriage return in the diagram");
    for (n, line) in t.split('\n').enumerate() {
        let l = line.trim_matches(' ');
        if n == 0 {
            ensure_eq!(l, "flowchart TD", "first line");
            continue;
        }
        let labelled = |t: &str| -> Result<Option<(String, String)>, Fail> {
            let Some((id, rest)) = t.split_once("[\"") else { return Ok(None) };
            if !is_id(id) {
                return Ok(None);
            }
            let Some(label) = rest.strip_suffix("\"]") else { return Ok(None) };
            ensure!(!label.contains(['"', '<', '>']), "raw quote or bracket in label {label:?}");
            Ok(Some((id.to_string(), unescape(label)?)))
        };
        if l.is_empty() || l == "direction LR" {
            continue;
        }
        if l == "end" {
            ensure!(stack.pop().is_some(), "end without subgraph");
            continue;
        }
        if let Some((id, label)) = l.strip_prefix("subgraph ").map(labelled).transpose()?.flatten() {
            ensure!(!d.groups.contains_key(&id) && !d.nodes.contains_key(&id), "{id} defined twice");
            d.groups.insert(id.clone(), label);
            stack.push(id);
            continue;
        }
        if let Some((id, label)) = labelled(l)? {
            ensure!(!d.groups.contains_key(&id) && !d.nodes.contains_key(&id), "{id} defined twice");
            d.nodes.insert(id.clone(), label);
            d.inside.insert(id.clone(), stack.last().cloned());
            d.order.push(id);
            continue;
        }
        if let Some((a, b)) = l.split_once(" --> ").or_else(|| l.split_once(" ~~~ ")) {
            ensure!(is_id(a) && is_id(b), "not a statement: {line:?}");
            used.extend([a.to_string(), b.to_string()]);
            continue;
        }
        let words: Vec<&str> = l.splitn(3, ' ').collect();
        match words[..] {
            ["classDef", name, style] if is_id(name) && !style.contains([' ', '"']) => {
                classes.insert(name.to_string());
            }
            ["class", names, class] if is_id(class) => {
                for x in names.split(',') {
                    ensure!(is_id(x), "not a statement: {line:?}");
                    used.push(x.to_string());
                }
                class_uses.push(class.to_string());
            }
            ["style", id, style] if is_id(id) && !style.contains([' ', '"']) => used.push(id.to_string()),
            _ => fail!("not a statement: {line:?}"),
        }
    }
    ensure!(stack.is_empty(), "subgraph not closed");
    for u in used {
        ensure!(d.nodes.contains_key(&u) || d.groups.contains_key(&u), "{u} used but not defined");
    }
    for c in class_uses {
        ensure!(classes.contains(&c), "class {c} used but not defined");
    }
    Ok(d)
}

fn c15_frame(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let i = input(s);
    let enrich = s.chance(1, 3);
    let at = hex_sp(&i.bytes);
    ctx.class(i.kind);
    ctx.sample(|| at.clone());
    let out = m_bus_parser::render_bytes(&i.bytes, OutputFormat::Mermaid, &opts(i.key, enrich, None));
    let v = match decoded(&i, enrich) {
        Ok(v) => v,
        Err(e) => {
            ensure_eq!(out.map(|_| ()).map_err(|e| e.code()), Err(e.code()), "[{at}]");
            return Ok(());
        }
    };
    let out = out.map_err(|e| Fail::new(format!("[{at}] refused: {e}")))?;
    let records = sut::records(&v);
    if !records.is_empty() {
        ctx.nontrivial(&i.bytes);
    }
    let d = parse_mermaid(&out).map_err(|e| Fail::new(format!("[{at}]: {e}\n{out}")))?;
    let mut want: BTreeMap<String, (String, Option<&str>)> = BTreeMap::new();
    let mut node = |id: &str, label: String, group: Option<&'static str>| {
        want.insert(id.to_string(), (label.replace(['\n', '\r'], " "), group));
    };
    node("FRAME_KIND", format!("{} · {}", text(&v["protocol"]), text(&v["frame"]["kind"])), Some("FRAME_SG"));
    if let Some(f) = v["frame"]["function"].as_str() {
        node("FRAME_FUNCTION", format!("Function · {f}"), Some("FRAME_SG"));
    }
    if let Some(a) = v["frame"]["address"].as_str() {
        node("FRAME_ADDRESS", format!("Address · {a}"), Some("FRAME_SG"));
    }
    let id = &v["meter"]["identity"];
    if !id.is_null() {
        node("METER_ID", format!("ID · {}", id["id"].as_str().unwrap_or("unknown")), Some("METER_SG"));
        node("METER_MANUFACTURER", format!("Manufacturer · {}", id["manufacturer_code"].as_str().unwrap_or("unknown manufacturer")), Some("METER_SG"));
        if let Some(t) = id["device_type"].as_str() {
            node("METER_TYPE", format!("Type · {t}"), Some("METER_SG"));
        }
        if !id["version"].is_null() {
            node("METER_VERSION", format!("Version · {}", id["version"]), Some("METER_SG"));
        }
    }
    node("SECURITY_MODE", text(&v["security"]["payload_protection"]), Some("SECURITY_SG"));
    node("SECURITY_STATE", text(&v["security"]["decryption_state"]), Some("SECURITY_SG"));
    for (n, r) in records.iter().enumerate() {
        node(&format!("R{n}"), reading(r), Some("RECORDS_SG"));
    }
    let diagnostics = v["diagnostics"].as_array().cloned().unwrap_or_default();
    if let Some(first) = diagnostics.first() {
        node("DIAG", format!("{} diagnostic(s) · {}", diagnostics.len(), text(&first["code"])), None);
    }
    for (id, (label, group)) in &want {
        ensure_eq!(d.nodes.get(id), Some(label), "[{at}]: node {id}");
        ensure_eq!(d.inside[id].as_deref(), *group, "[{at}]: group of node {id}");
    }
    for id in d.nodes.keys() {
        ensure!(want.contains_key(id), "[{at}]: unexpected node {id}");
    }
    let order: Vec<&String> = d.order.iter().filter(|n| n.starts_with('R')).collect();
    let expected: Vec<String> = (0..records.len()).map(|n| format!("R{n}")).collect();
    ensure_eq!(order, expected.iter().collect::<Vec<_>>(), "[{at}]: order of records");
    if !records.is_empty() {
        ensure_eq!(d.groups.get("RECORDS_SG"), Some(&format!("Data Records · {}", records.len())), "[{at}]: record group");
    }
    Ok(())
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "Frames of every kind with awkward texts rendered as Mermaid and parsed with a strict parser of the statements used. Non-trivial: the frame has at least one record.",
        both_builds: false,
        assumptions: &["line breaks of texts are shown as spaces"],
        parts: vec![Part { name: "diagrams", kind: Kind::Random { quick: 240_000, thorough: 2_880_000, tape: (16, 260), f: c15_frame } }],
    }
}

// ------------------------------------------------------------------ C18

#[derive(Debug, PartialEq)]
pub enum Hex {
    Bytes(Vec<u8>),
    Empty,
    Invalid,
    /// White space other than the ASCII one between bytes.
    Open,
}

/// The grammar of hexadecimal input, written from its description.
pub fn hex_grammar(t: &str) -> Hex {
    let t = t.trim();
    if t.is_empty() {
        return Hex::Empty;
    }
    let c: Vec<char> = t.chars().collect();
    let val = |c: char| c.to_digit(16).filter(|_| c.is_ascii());
    if c.iter().all(|c| val(*c).is_some()) {
        if c.len() % 2 == 1 {
            return Hex::Invalid;
        }
        return Hex::Bytes(c.chunks(2).map(|p| (val(p[0]).unwrap() * 16 + val(p[1]).unwrap()) as u8).collect());
    }
    if c.iter().any(|c| c.is_whitespace() && !matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}')) {
        return Hex::Open;
    }
    let mut out = vec![];
    let mut i = 0;
    let sep = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}' | ':' | '-');
    while i < c.len() {
        if sep(c[i]) {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < c.len() && !sep(c[j]) {
            j += 1;
        }
        let mut word = &c[i..j];
        if word.len() > 2 && word[0] == '0' && matches!(word[1], 'x' | 'X') {
            word = &word[2..];
        }
        match word {
            [a, b] => match (val(*a), val(*b)) {
                (Some(a), Some(b)) => out.push((a * 16 + b) as u8),
                _ => return Hex::Invalid,
            },
            _ => return Hex::Invalid,
        }
        i = j;
    }
    if out.is_empty() {
        Hex::Empty
    } else {
        Hex::Bytes(out)
    }
}

/// Hexadecimal text near the borders of the grammar.
pub fn hex_text(s: &mut Source, bytes: &[u8]) -> String {
    let mut t = String::new();
    match s.below(4) {
        0 => t = spell(s, bytes),
        1 => {
            // Mixed spelling of each byte, any separators.
            for b in bytes {
                if s.chance(1, 3) {
                    t.push_str(if s.chance(1, 2) { "0x" } else { "0X" });
                }
                t.push_str(&if s.chance(1, 2) { format!("{b:02x}") } else { format!("{b:02X}") });
                t.push_str(s.pick(&[" ", ":", "-", "\n", "\t", "\r\n", "  ", "::", " - ", "\u{c}", "\u{a0}", "\u{b}", ""]));
            }
        }
        2 => {
            let n = s.below(12);
            for _ in 0..n {
                t.push_str(s.pick(&["0", "1", "a", "F", " ", ":", "-", "0x", "0X", "x", "00", "7f", "g", "G", ",", ".", "_", "é", "٣", "\n", "+1", "#", "\u{2003}"]));
            }
        }
        _ => t = hex_sp(bytes),
    }
    // Damage.
    if s.chance(2, 3) {
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..s.below(3) {
            let at = s.below(c.len() + 1);
            match s.below(3) {
                0 if at < c.len() => {
                    c.remove(at);
                }
                1 => {
                    let x = *s.pick(&['0', 'a', 'F', ' ', ':', '-', 'x', 'g', ',', 'é', '\n', '\u{0}', '１', '\u{3000}', '\u{feff}']);
                    c.insert(at, x);
                }
                _ if at < c.len() => c[at] = *s.pick(&['9', 'b', ' ', ':', '-', 'X', 'h', ';', '\t', '٣']),
                _ => {}
            }
        }
        t = c.into_iter().collect();
    }
    t
}

fn c18_text(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let bytes = if s.chance(1, 3) {
        gen::clear_frame(s, &gen::SHORT, 3).bytes()
    } else {
        let n = s.below(12);
        s.bytes(n)
    };
    let t = hex_text(s, &bytes);
    ctx.sample(|| format!("{t:?}"));
    let want = hex_grammar(&t);
    let got = m_bus_parser::decode_hex_bytes(&t);
    let o = DecodeOptions { key: None, include_enrichment: s.chance(1, 2) };
    let ro = RenderOptions { decode: o.clone(), table_width: None };
    let format = *s.pick(&[OutputFormat::Json, OutputFormat::Csv, OutputFormat::Xml, OutputFormat::Annotated, OutputFormat::AnnotatedText, OutputFormat::Table]);
    match want {
        Hex::Open => ctx.class("open"),
        Hex::Bytes(b) => {
            ctx.class("accepted");
            ctx.nontrivial(t.as_bytes());
            let got = got.map_err(|e| Fail::new(format!("{t:?} refused: {e}")))?;
            ensure_eq!(hex(&got), hex(&b), "bytes of {t:?}");
            // Each entry point works on those bytes.
            let a = m_bus_parser::decode_hex(&t, &o).map(|d| d.raw.original_frame_hex.clone()).map_err(|e| e.code());
            let d = m_bus_parser::decode_bytes(&b, &o).map(|d| d.raw.original_frame_hex.clone()).map_err(|e| e.code());
            ensure_eq!(a, d, "decode_hex {t:?}");
            let a = m_bus_parser::render_hex(&t, format, &ro).map_err(|e| e.to_string());
            let d = m_bus_parser::render_bytes(&b, format, &ro).map_err(|e| e.to_string());
            ensure_eq!(a, d, "render_hex {format:?} {t:?}");
            let a = m_bus_parser::decode_data_records_hex(&t).map(|r| serde_json::to_value(&r).unwrap()).map_err(|e| e.to_string());
            let d = m_bus_parser::decode_data_records(&b).map(|r| serde_json::to_value(&r).unwrap()).map_err(|e| e.to_string());
            ensure_eq!(a, d, "decode_data_records_hex {t:?}");
            let a = m_bus_parser::serialize_mbus_data(&t, "json", None);
            let d = m_bus_parser::serialize_mbus_data(&hex(&b), "json", None);
            ensure_eq!(a, d, "serialize_mbus_data {t:?}");
        }
        other => {
            let code = if other == Hex::Empty { "input.empty" } else { "input.invalid_hex" };
            ctx.class(code);
            ctx.nontrivial(t.as_bytes());
            match got {
                Ok(b) => fail!("{t:?} accepted as [{}]", hex_sp(&b)),
                Err(e) => ensure_eq!(e.code(), code, "{t:?}"),
            }
            ensure_eq!(m_bus_parser::decode_hex(&t, &o).map(|_| ()).map_err(|e| e.code()), Err(code), "decode_hex {t:?}");
            ensure_eq!(m_bus_parser::render_hex(&t, format, &ro).map(|_| ()).map_err(|e| e.code()), Err(code), "render_hex {format:?} {t:?}");
            ensure_eq!(m_bus_parser::decode_data_records_hex(&t).map(|_| ()).map_err(|e| e.code()), Err(code), "decode_data_records_hex {t:?}");
            let a = m_bus_parser::serialize_mbus_data(&t, "json", None);
            ensure!(a.contains(&format!("[{code}]")), "serialize_mbus_data {t:?} gives {a:?}");
        }
    }
    Ok(())
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        rule: "Texts spelling random bytes or frames in every allowed way, token mixtures and texts with up to two damaged characters, given to every hex entry point of the library. Non-trivial: every text the grammar decides.",
        both_builds: false,
        assumptions: &["white space between bytes that is not ASCII is left open"],
        parts: vec![Part { name: "texts", kind: Kind::Random { quick: 900_000, thorough: 10_800_000, tape: (4, 80), f: c18_text } }],
    }
}

// ------------------------------------------------------------------ C28

const FORMATS: [OutputFormat; 8] = [
    OutputFormat::Table, OutputFormat::Json, OutputFormat::Yaml, OutputFormat::Csv, OutputFormat::Mermaid, OutputFormat::Xml,
    OutputFormat::Annotated, OutputFormat::AnnotatedText,
];

fn answer(r: Result<String, OutputError>) -> Result<String, String> {
    r.map_err(|e| format!("{} {e}", e.code()))
}

fn c28_frame(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let i = if s.chance(1, 2) {
        // Two identities from the bundled directory, to tell them apart.
        let mut f = gen::clear_frame(s, &gen::FULL, 4);
        let known = ["ABB", "ACE", "SIE", "KAM", "LUG", "EMH", "DME", "ELS", "ZRI", "TCH", "ITW", "GWF"];
        if let Link::Wireless { ident, .. } = &mut f.link {
            ident.man = gen::man_code(s.pick(&known));
        }
        if let Hdr::Long(id, _) = &mut f.hdr {
            id.man = gen::man_code(s.pick(&known));
        }
        Input { bytes: f.bytes(), key: None, kind: "bundled manufacturer" }
    } else {
        input(s)
    };
    let at = hex_sp(&i.bytes);
    ctx.class(i.kind);
    ctx.sample(|| at.clone());
    let plain = decoded(&i, false);
    let rich = decoded(&i, true);
    ensure_eq!(plain.as_ref().map_err(|e| e.to_string()), decoded(&i, false).as_ref().map_err(|e| e.to_string()), "[{at}]: second decode");
    let width = s.range(32, 400);
    for f in FORMATS {
        let a = answer(m_bus_parser::render_bytes(&i.bytes, f, &opts(i.key, false, None)));
        let b = answer(m_bus_parser::render_bytes(&i.bytes, f, &opts(i.key, false, None)));
        ensure_eq!(a, b, "[{at}]: second rendering as {f:?}");
        if f != OutputFormat::Table {
            let b = answer(m_bus_parser::render_bytes(&i.bytes, f, &opts(i.key, false, Some(width))));
            ensure_eq!(a, b, "[{at}]: width changes {f:?}");
        }
        let e = answer(m_bus_parser::render_bytes(&i.bytes, f, &opts(i.key, true, None)));
        match f {
            OutputFormat::Mermaid | OutputFormat::Xml | OutputFormat::Annotated | OutputFormat::AnnotatedText => {
                ensure_eq!(a, e, "[{at}]: enrichment changes {f:?}")
            }
            OutputFormat::Table => {
                if let (Ok(a), Ok(e)) = (&a, &e) {
                    // Lines of the plain table all appear, in order, in the enriched one.
                    let mut it = e.lines();
                    for l in a.lines() {
                        ensure!(it.any(|x| x == l), "[{at}]: enrichment loses table line {l:?}");
                    }
                } else {
                    ensure_eq!(a, e, "[{at}]: enrichment changes {f:?}");
                }
            }
            _ => ensure_eq!(a.is_ok(), e.is_ok(), "[{at}]: enrichment changes {f:?}"),
        }
        if f == OutputFormat::Csv {
            if let (Ok(a), Ok(e)) = (&a, &e) {
                let (a, e) = (parse_csv(a)?, parse_csv(e)?);
                ensure_eq!(a[0], e[0], "[{at}]: CSV header");
                for (n, (x, y)) in a[1].iter().zip(&e[1]).enumerate() {
                    if n != 15 && n != 16 {
                        ensure_eq!(x, y, "[{at}]: enrichment changes CSV column {}", a[0][n]);
                    }
                }
            }
        }
    }
    let (plain, mut rich) = match (plain, rich) {
        (Ok(p), Ok(r)) => (p, r),
        (p, r) => {
            ensure_eq!(p.err().map(|e| e.to_string()), r.err().map(|e| e.to_string()), "[{at}]: enrichment changes the error");
            return Ok(());
        }
    };
    ctx.nontrivial(&i.bytes);
    if !sut::records(&plain).iter().any(|r| value_text(r).contains(['│', '┌', '├', '└'])) {
        let table = answer(m_bus_parser::render_bytes(&i.bytes, OutputFormat::Table, &opts(i.key, false, Some(width))))
            .map_err(|e| Fail::new(format!("[{at}]: no table of width {width}: {e:?}")))?;
        ensure_eq!(parse_table(&table)?, expected_table(&plain, width), "[{at}]: content of the table of width {width}");
    }
    ensure!(plain["enrichment"].is_null(), "[{at}]: enrichment although switched off");
    let e = rich["enrichment"].take();
    let mut q = plain.clone();
    q["enrichment"].take();
    rich["enrichment"].take();
    ensure_eq!(rich, q, "[{at}]: enrichment changes the output");
    let code = plain["meter"]["identity"]["manufacturer_code"].as_str();
    let known = code.and_then(m_bus_parser::manufacturers::lookup_manufacturer);
    match known {
        None => ensure!(e.is_null(), "[{at}]: enrichment {e} for manufacturer {code:?}"),
        Some(m) => {
            ctx.class("enriched");
            ensure_eq!(e["manufacturer_code"].as_str(), code, "[{at}]: enriched manufacturer");
            ensure_eq!(e["manufacturer_name"], json!(m.name), "[{at}]: manufacturer name");
            ensure_eq!(e["manufacturer_website"], json!(m.website), "[{at}]: manufacturer website");
            ensure_eq!(e["manufacturer_description"], json!(m.description), "[{at}]: manufacturer description");
        }
    }
    // A key on a cleartext frame.
    if i.key.is_none() && plain["security"]["payload_protection"] == "cleartext" {
        let k: [u8; 16] = s.bytes(16).try_into().unwrap();
        let mut v = decoded(&Input { bytes: i.bytes.clone(), key: Some(k), kind: "" }, false).map_err(|e| Fail::new(format!("[{at}]: a key gives {e}")))?;
        ensure_eq!(v["security"]["key_supplied"], json!(true), "[{at}]: key supplied");
        v["security"]["key_supplied"] = json!(false);
        let notes = v["diagnostics"].as_array_mut().map(|d| {
            let n = d.len();
            d.retain(|x| x["code"] != "security.key_unused");
            n - d.len()
        });
        ensure_eq!(notes, Some(1), "[{at}]: note on the unused key");
        ensure_eq!(v, plain, "[{at}]: a key changes the output");
        for f in [OutputFormat::Xml, OutputFormat::Annotated, OutputFormat::AnnotatedText] {
            let a = answer(m_bus_parser::render_bytes(&i.bytes, f, &opts(None, false, None)));
            let b = answer(m_bus_parser::render_bytes(&i.bytes, f, &opts(Some(k), false, None)));
            ensure_eq!(a, b, "[{at}]: a key changes {f:?}");
        }
    }
    Ok(())
}

/// The directory as it was when this check was written: code, name, website, description.
const DIRECTORY: &str = include_str!("../directory.txt");

fn c28_directory(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    let known: std::collections::HashMap<&str, Vec<&str>> = DIRECTORY.lines().map(|l| l.split('|').collect::<Vec<_>>()).map(|l| (l[0], l)).collect();
    for n in (0..26 * 26 * 26usize).filter(|n| n % shards == shard) {
        let code: String = [n / 676, n / 26 % 26, n % 26].iter().map(|l| char::from(b'A' + *l as u8)).collect();
        let ident = gen::Ident { id: [1, 2, 3, 4], man: gen::man_code(&code), version: 1, device: 7 };
        let f = Frame { link: Link::Wireless { c: 0x44, ident, layout: gen::Layout::Plain }, hdr: Hdr::None, block: vec![] };
        ctx.evaluations += 1;
        let v = decoded(&Input { bytes: f.bytes(), key: None, kind: "" }, true).map_err(|e| Fail::new(format!("{code} refused: {e}")))?;
        let e = &v["enrichment"];
        ensure_eq!(v["meter"]["identity"]["manufacturer_code"].as_str(), Some(code.as_str()), "manufacturer");
        let Some(entry) = known.get(code.as_str()) else {
            ensure!(e.is_null(), "{code} is not listed and enriched with {e}");
            continue;
        };
        ctx.class("listed");
        ctx.nontrivial(code.as_bytes());
        ctx.sample(|| format!("{code}: {}", e["manufacturer_name"]));
        for (field, want) in ["manufacturer_code", "manufacturer_name", "manufacturer_website", "manufacturer_description"].iter().zip(entry) {
            ensure_eq!(e[*field].as_str(), Some(*want), "{field} of {code}");
        }
    }
    Ok(())
}

pub fn c28() -> Property {
    Property {
        id: "C28",
        rule: "Frames of every kind decoded and rendered twice, with and without enrichment, at two widths and with a needless key; and all 17576 manufacturer codes with enrichment. Non-trivial: the frame decodes, or the manufacturer is listed.",
        both_builds: false,
        assumptions: &["the bundled directory is compared with the list of codes and names it held when the check was written"],
        parts: vec![
            Part { name: "options", kind: Kind::Random { quick: 72_000, thorough: 864_000, tape: (16, 200), f: c28_frame } },
            Part { name: "directory", kind: Kind::Exhaustive { f: c28_directory } },
        ],
    }
}
