//! C34: format names, and the code, layer, place and text of errors.

use m_bus_parser::{OutputError, OutputFormat, RenderOptions};
use serde_json::{json, Value};
use std::str::FromStr;

use super::lowlevel::low;
use super::output::{hex_grammar, hex_text, Hex};
use crate::expect;
use crate::gen::{self, Frame, Hdr, Layout, Link};
use crate::model::{self, End};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::sut;
use crate::util::{hex, hex_sp};

const NAMES: [(&str, OutputFormat, bool); 11] = [
    ("table", OutputFormat::Table, true),
    ("json", OutputFormat::Json, true),
    ("yaml", OutputFormat::Yaml, true),
    ("csv", OutputFormat::Csv, true),
    ("mermaid", OutputFormat::Mermaid, true),
    ("xml", OutputFormat::Xml, true),
    ("annotated", OutputFormat::Annotated, true),
    ("annotated-text", OutputFormat::AnnotatedText, true),
    ("table_format", OutputFormat::Table, false),
    ("yml", OutputFormat::Yaml, false),
    ("hexview", OutputFormat::Annotated, false),
];

fn c34_names(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (name, _, _) = *s.pick(&NAMES);
    let mut t: Vec<char> = name.chars().collect();
    for _ in 0..s.below(4) {
        let i = s.below(t.len() + 1);
        match s.below(8) {
            6 => {
                // Any sign around the name.
                let c = char::from(s.below(128) as u8);
                let close = match c {
                    '(' => ')',
                    '[' => ']',
                    '{' => '}',
                    '<' => '>',
                    c => c,
                };
                t.insert(0, c);
                t.push(close);
            }
            7 => t.insert(if s.chance(1, 2) { 0 } else { t.len() }, char::from(s.below(128) as u8)),
            0 | 1 if i < t.len() => t[i] = t[i].to_ascii_uppercase(),
            2 => t.insert(if s.chance(1, 2) { 0 } else { t.len() }, *s.pick(&[' ', '\t', '\n', '\r', '\u{a0}', '\u{3000}'])),
            3 => t.insert(i, *s.pick(&['a', '-', '_', ' ', '.', 'L', 'ſ', '\u{130}', '\u{212a}', '\u{0}'])),
            4 if i < t.len() => {
                t.remove(i);
            }
            _ if i < t.len() => t[i] = *s.pick(&['ſ', 'K', 'ı', 'x', 'İ', '-', '_', 'A']),
            _ => {}
        }
    }
    let t: String = t.into_iter().collect();
    let folded: String = t.trim().chars().map(|c| if c.is_ascii() { c.to_ascii_lowercase() } else { c }).collect();
    ctx.sample(|| format!("{t:?}"));
    ctx.nontrivial(t.as_bytes());
    match (NAMES.iter().find(|(n, _, _)| *n == folded), OutputFormat::from_str(&t)) {
        (Some((_, want, _)), Ok(got)) => {
            ctx.class("accepted");
            ensure_eq!(got, *want, "format named {t:?}");
        }
        (None, Err(e)) => {
            ctx.class("refused");
            facts(&e, "format.unsupported", "render", None, &[t.trim()], &format!("format {t:?}"))?;
        }
        (want, got) => fail!("format name {t:?}: got {got:?}, expected {want:?}"),
    }
    for (n, f, canonical) in NAMES {
        if canonical {
            ensure_eq!((f.as_str(), f.to_string().as_str()), (n, n), "name of {f:?}");
        }
    }
    Ok(())
}

/// Code, layer, place and quoted parts of an error.
fn facts(e: &OutputError, code: &str, layer: &str, offset: Option<usize>, quotes: &[&str], at: &str) -> CheckResult {
    ensure_eq!(e.code(), code, "{at}: code of {e}");
    ensure_eq!(e.layer(), layer, "{at}: layer of {e}");
    ensure_eq!(e.byte_offset(), offset, "{at}: place of {e}");
    let t = e.to_string();
    ensure!(!t.is_empty(), "{at}: error without text");
    for q in quotes {
        // Quoted texts may be shown escaped.
        let debug = format!("{q:?}");
        ensure!(t.contains(q) || t.contains(&debug[1..debug.len() - 1]), "{at}: {t:?} does not name {q:?}");
    }
    Ok(())
}

/// Offset and text of the first token that is no byte, in the trimmed text.
fn first_fault(t: &str) -> Option<(usize, String)> {
    let t = t.trim();
    if t.bytes().all(|b| b.is_ascii_hexdigit()) {
        return (t.len() % 2 == 1).then(|| (t.len() - 1, String::new()));
    }
    let sep = |b: u8| matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0C | b':' | b'-');
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if sep(b[i]) {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < b.len() && !sep(b[j]) {
            j += 1;
        }
        let word = &t[i..j];
        let digits = if word.starts_with("0x") || word.starts_with("0X") { &word[2..] } else { word };
        if digits.len() != 2 || !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
            return Some((i, word.to_string()));
        }
        i = j;
    }
    None
}

fn c34_texts(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let n = s.below(20);
    let bytes = s.bytes(n);
    let t = hex_text(s, &bytes);
    ctx.sample(|| format!("{t:?}"));
    let at = format!("{t:?}");
    let o = RenderOptions::default();
    let format = NAMES[s.below(8)].1;
    let all = || {
        [
            m_bus_parser::decode_hex_bytes(&t).map(|_| ()),
            m_bus_parser::decode_hex(&t, &o.decode).map(|_| ()),
            m_bus_parser::render_hex(&t, format, &o).map(|_| ()),
            m_bus_parser::decode_data_records_hex(&t).map(|_| ()),
        ]
    };
    match hex_grammar(&t) {
        Hex::Open => ctx.class("open"),
        Hex::Bytes(_) => ctx.class("hexadecimal"),
        Hex::Empty => {
            ctx.class("empty");
            ctx.nontrivial(t.as_bytes());
            for r in all() {
                facts(&r.err().ok_or_else(|| Fail::new(format!("{at} accepted")))?, "input.empty", "input", None, &[], &at)?;
            }
        }
        Hex::Invalid => {
            ctx.class("invalid");
            ctx.nontrivial(t.as_bytes());
            let (place, word) = first_fault(&t).ok_or_else(|| Fail::new(format!("{at}: the check finds no fault")))?;
            for r in all() {
                let e = r.err().ok_or_else(|| Fail::new(format!("{at} accepted")))?;
                facts(&e, "input.invalid_hex", "input", Some(place), &[&word, &place.to_string()], &at)?;
            }
        }
    }
    Ok(())
}

const DECODING: [OutputFormat; 5] = [OutputFormat::Table, OutputFormat::Json, OutputFormat::Yaml, OutputFormat::Csv, OutputFormat::Mermaid];

fn c34_causes(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let cause = s.below(5);
    match cause {
        0 => {
            // Bytes that are no frame.
            let (kind, place, bit) = (s.below(3), s.raw() as usize, s.below(8));
            let mut b = gen::any_frame(s, &gen::FULL, 4).bytes();
            match kind {
                0 => b.truncate(place % b.len()),
                1 => {
                    let i = place % b.len();
                    b[i] ^= 1 << bit;
                }
                _ => {
                    let n = s.below(30);
                    b = s.bytes(n);
                }
            }
            if low(&b).is_some() {
                ctx.class("still a frame");
                return Ok(());
            }
            let at = format!("[{}]", hex_sp(&b));
            ctx.sample(|| at.clone());
            ctx.nontrivial(&b);
            let code = if b.is_empty() { "input.empty" } else { "frame.invalid" };
            let layer = if b.is_empty() { "input" } else { "link" };
            ctx.class(code);
            let wired = m_bus_parser::WiredFrame::try_from(b.as_slice()).err().map(|e| m_bus_parser::MbusError::from(e).to_string()).unwrap_or_default();
            let quotes: &[&str] = if b.is_empty() { &[] } else { &["wired", "wireless", &wired] };
            for f in DECODING {
                let e = sut::render(&b, f, None, None).err().ok_or_else(|| Fail::new(format!("{at} accepted as {f:?}")))?;
                facts(&e, code, layer, None, quotes, &at)?;
            }
            let e = sut::decode(&b, None).err().ok_or_else(|| Fail::new(format!("{at} accepted")))?;
            facts(&e, code, layer, None, quotes, &at)?;
            // A first Format A block alone also reads as a frame without payload.
            if b.len() == 12 && b[0] == 11 {
                return Ok(());
            }
            for f in [OutputFormat::Annotated, OutputFormat::AnnotatedText, OutputFormat::Xml] {
                let want = if f == OutputFormat::Xml { "xml.unsupported" } else { "annotation.failed" };
                let e = sut::render(&b, f, None, None).err().ok_or_else(|| Fail::new(format!("{at} accepted as {f:?}")))?;
                facts(&e, want, "application", None, &[], &at)?;
            }
        }
        1 => {
            // A table that is too narrow.
            let w = s.below(32);
            let b = gen::any_frame(s, &gen::FULL, 4).bytes();
            let at = format!("width {w} [{}]", hex_sp(&b));
            ctx.sample(|| at.clone());
            ctx.nontrivial(at.as_bytes());
            ctx.class("option.invalid");
            let e = sut::render(&b, OutputFormat::Table, None, Some(w)).err().ok_or_else(|| Fail::new(format!("{at} accepted")))?;
            facts(&e, "option.invalid", "render", None, &["width", "32"], &at)?;
        }
        2 => {
            // A key for a payload that cannot be decrypted with it.
            let link = gen::link(s);
            let kind = s.below(3);
            let hdr = match kind {
                0 => Hdr::Ell2(s.byte(), s.byte(), s.bytes(4).try_into().unwrap(), s.bytes(2).try_into().unwrap()),
                1 => Hdr::Ell3(s.byte(), s.byte(), s.bytes(2).try_into().unwrap(), s.bytes(6).try_into().unwrap(), s.bytes(4).try_into().unwrap(), s.bytes(2).try_into().unwrap()),
                _ => {
                    let mut sh = gen::short(s);
                    sh.conf[1] = *s.pick(&[1u8, 2, 3, 4, 6, 8, 9, 10, 13, 15, 31]);
                    Hdr::Long(gen::ident(s), sh)
                }
            };
            let n = 1 + s.below(40);
            let f = Frame { link, hdr, block: s.bytes(n) };
            if f.ambiguous() {
                return Ok(());
            }
            let b = f.bytes();
            let at = format!("[{}] with a key", hex_sp(&b));
            ctx.sample(|| at.clone());
            ctx.nontrivial(&b);
            ctx.class("security.unsupported_mode");
            let key = Some([0x5A; 16]);
            for format in DECODING {
                let e = sut::render(&b, format, key, None).err().ok_or_else(|| Fail::new(format!("{at} accepted as {format:?}")))?;
                facts(&e, "security.unsupported_mode", "security", None, &[], &at)?;
            }
        }
        3 => {
            // Frames that the XML format does not cover.
            let b = if s.chance(1, 8) {
                vec![0xE5]
            } else {
                let (c, a) = (*s.pick(&[0x40u8, 0x5B, 0x7B, 0x5A, 0x7A]), s.byte());
                vec![0x10, c, a, c.wrapping_add(a), 0x16]
            };
            let at = format!("[{}]", hex_sp(&b));
            ctx.nontrivial(&b);
            ctx.class("xml.unsupported");
            let e = sut::render(&b, OutputFormat::Xml, None, None).err().ok_or_else(|| Fail::new(format!("{at} accepted as XML")))?;
            facts(&e, "xml.unsupported", "application", None, &[], &at)?;
        }
        _ => {
            // A record block with a record that cannot be decoded.
            let (kind, place, byte) = (s.below(2), s.raw() as usize, s.byte());
            let mut b = gen::block(s, &gen::FULL, 6, 200);
            if b.is_empty() {
                return Ok(());
            }
            let i = place % b.len();
            if kind == 0 {
                b.truncate(i + 1);
            } else {
                b[i] = byte;
            }
            // Such a block may be longer than any frame.
            if s.chance(1, 3) {
                let first = gen::record(s, &gen::FULL);
                let p = model::parse(&first);
                if p.end == End::Complete && p.records.iter().all(|r| !r.special()) {
                    let mut long = first.repeat(1 + s.below(600) / first.len());
                    long.append(&mut b);
                    b = long;
                }
            }
            let End::Bad(bad) = model::parse(&b).end else {
                ctx.class("no damage");
                return Ok(());
            };
            let at = format!("records [{}]", hex_sp(&b));
            ctx.sample(|| at.clone());
            ctx.nontrivial(&b);
            ctx.class("application.records_invalid");
            let e = sut::standalone(&b).err().ok_or_else(|| Fail::new(format!("{at} accepted")))?;
            facts(&e, "application.records_invalid", "application", None, &[], &at)?;
            // The text names the place.
            let t = e.to_string();
            let numbers: Vec<&str> = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
            ensure!(numbers.contains(&bad.to_string().as_str()), "{at}: {t:?} does not name the offset {bad}");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C35

/// What an output must say about itself.
struct Account {
    partial: bool,
    notes: Vec<(&'static str, &'static str, Option<usize>)>,
    protection: &'static str,
    state: &'static str,
    mode: Option<u8>,
    encrypted: Option<String>,
    decrypted: Option<String>,
    payload: Option<String>,
    records: Option<usize>,
}

/// Notes and completeness of a record block that is shown.
fn shown(a: &mut Account, block: &[u8]) -> bool {
    let p = model::parse(block);
    match p.end {
        End::Complete => {}
        End::Bad(at) => a.notes.push(("application.record_partial", "warning", Some(at))),
        End::Open(_) => return false,
    }
    a.records = Some(p.records.len());
    true
}

fn damage(s: &mut Source, block: &mut Vec<u8>) {
    let (kind, place, byte) = (s.below(8), s.raw() as usize, s.byte());
    if block.is_empty() {
        return;
    }
    let i = place % block.len();
    match kind {
        0 | 1 => block.truncate(i + 1),
        2 => block[i] = byte,
        _ => {}
    }
}

fn c35(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let with_key = s.chance(1, 2);
    let as_text = s.chance(1, 3);
    let mut key: [u8; 16] = s.bytes(16).try_into().unwrap();
    let mut a = Account {
        partial: false,
        notes: vec![],
        protection: "cleartext",
        state: "not_applicable",
        mode: None,
        encrypted: None,
        decrypted: None,
        payload: None,
        records: Some(0),
    };
    let kind = s.weighted(&[6, 4, 2, 1]);
    let (link, app);
    match kind {
        0 => {
            // Any header, with or without encryption, block perhaps damaged.
            let mut f = gen::any_frame(s, &gen::FULL, 6);
            if f.hdr.carries_records() && !expect::declares_encryption(&f.hdr) {
                damage(s, &mut f.block);
                if !shown(&mut a, &f.block) {
                    return Ok(());
                }
            }
            a.mode = f.hdr.conf().map(|c| c[1] & 0x1F);
            if expect::declares_encryption(&f.hdr) {
                if with_key {
                    return Ok(());
                }
                a.protection = "encrypted";
                a.state = "key_missing";
                a.encrypted = Some(hex(&f.app()));
            }
            ctx.class(f.hdr.name());
            app = Some(f.app());
            link = f.link;
        }
        1 => {
            // Encrypted; the block is perhaps damaged before encryption.
            let ident = gen::ident(s);
            let mut sh = gen::short(s);
            let mode = *s.pick(&[5u8, 7]);
            let long = s.chance(1, 2);
            let l = if long { gen::link(s) } else { Link::Wireless { c: 0x44, ident: ident.clone(), layout: *s.pick(&gen::LAYOUTS) } };
            let mut clear = gen::block(s, &gen::FULL, 5, 192);
            damage(s, &mut clear);
            clear.resize(clear.len().div_ceil(16).max(1) * 16, 0x2F);
            sh.conf = [((clear.len() / 16).min(15) as u8) << 4, mode];
            let block = gen::encrypt(mode, &key, &ident, sh.access, &clear);
            let hdr = if long { Hdr::Long(ident, sh) } else { Hdr::Short(0x7A, sh) };
            let f = Frame { link: l, hdr, block };
            a.mode = Some(mode);
            a.protection = "encrypted";
            a.encrypted = Some(hex(&f.app()));
            if with_key {
                a.state = "decrypted_unverified";
                a.decrypted = Some(hex(&clear));
                if !shown(&mut a, &clear) {
                    return Ok(());
                }
            } else {
                a.state = "key_missing";
            }
            ctx.class(if with_key { "decrypted" } else { "encrypted, no key" });
            app = Some(f.app());
            link = f.link;
        }
        2 => {
            // A header that cannot be read.
            let l = gen::link(s);
            let f = gen::any_frame(s, &gen::SHORT, 2);
            let full = f.hdr.bytes();
            let b = if s.chance(1, 2) && full.len() > 2 {
                full[..s.range(1, full.len() - 1)].to_vec()
            } else {
                let mut b = vec![*s.pick(&[0x51u8, 0x52, 0x5A, 0x5B, 0x60, 0x6F, 0x70, 0x71, 0x80, 0xB8, 0xC0, 0xFF])];
                let n = s.below(20);
                b.extend(s.bytes(n));
                b
            };
            a.notes.push(("application.partial", "warning", None));
            ctx.class("unreadable header");
            app = Some(b);
            link = l;
        }
        _ => {
            ctx.class("no payload");
            app = None;
            link = Link::Wired { c: *s.pick(&[0x40u8, 0x5A, 0x5B, 0x7A, 0x7B]), a: s.byte() };
        }
    }
    let (bytes, normalized) = match &app {
        Some(app) => {
            if gen::ambiguous(&link, app) {
                return Ok(());
            }
            a.payload = Some(hex(app));
            let b = link.frame(app);
            let n = match &link {
                Link::Wireless { layout: Layout::FormatA, .. } => link.with_layout(Layout::Plain).frame(app),
                _ => b.clone(),
            };
            (b, n)
        }
        None => {
            let Link::Wired { c, a } = link else { unreachable!() };
            let b = if s.chance(1, 6) { vec![0xE5] } else { vec![0x10, c, a, c.wrapping_add(a), 0x16] };
            (b.clone(), b)
        }
    };
    match (a.state, with_key) {
        ("key_missing", _) => a.notes.push(("security.key_missing", "warning", None)),
        ("decrypted_unverified", _) => a.notes.push(("security.decrypted_unverified", "info", None)),
        (_, true) => a.notes.push(("security.key_unused", "info", None)),
        _ => {}
    }
    a.partial = a.notes.iter().any(|n| n.1 == "warning");
    if s.chance(1, 2) && with_key && a.state == "not_applicable" {
        key = [0; 16];
    }
    ctx.sample(|| format!("{} key {with_key}", hex_sp(&bytes)));
    ctx.nontrivial(&(bytes.clone(), with_key));
    ctx.class(if a.partial { "partial" } else { "complete" });
    let options = m_bus_parser::DecodeOptions { key: with_key.then_some(key), ..Default::default() };
    let text = hex_text_good(s, &bytes);
    let decoded = if as_text { m_bus_parser::decode_hex(&text, &options) } else { m_bus_parser::decode_bytes(&bytes, &options) };
    let at = format!("[{}] {}", hex_sp(&bytes), if with_key { "with a key" } else { "without key" });
    let decoded = decoded.map_err(|e| Fail::new(format!("{at}: {e}")))?;
    let v = serde_json::to_value(&decoded).map_err(|e| Fail::new(format!("{at}: {e}")))?;
    let input = if as_text { Some(text.as_str()) } else { None };
    account(&a, &v, &bytes, &normalized, input, with_key).map_err(|e| Fail::new(format!("{at}: {}", e.message)))
}

fn hex_text_good(s: &mut Source, bytes: &[u8]) -> String {
    let sep = *s.pick(&["", " ", ":", "-", "\n"]);
    let upper = s.chance(1, 2);
    let t: Vec<String> = bytes.iter().map(|b| if upper { format!("{b:02X}") } else { format!("{b:02x}") }).collect();
    let t = t.join(sep);
    if s.chance(1, 4) {
        format!(" {t}\n")
    } else {
        t
    }
}

fn account(a: &Account, v: &Value, bytes: &[u8], normalized: &[u8], input: Option<&str>, with_key: bool) -> CheckResult {
    ensure_eq!(v["decode_state"], if a.partial { "partial" } else { "complete" }, "decode state");
    let mut got: Vec<Value> = v["diagnostics"].as_array().cloned().unwrap_or_default();
    for d in &mut got {
        ensure!(d["message"].as_str().is_some_and(|m| !m.is_empty()), "note without text: {d}");
        let o = d.as_object_mut().unwrap();
        o.remove("message");
        o.retain(|_, v| !v.is_null());
    }
    let mut want: Vec<Value> = a
        .notes
        .iter()
        .map(|(code, severity, at)| {
            let mut d = json!({"code": code, "severity": severity, "layer": code.split('.').next().unwrap()});
            if let Some(at) = at {
                d["offset_start"] = json!(at);
            }
            d
        })
        .collect();
    got.sort_by_key(|d| d["code"].to_string());
    want.sort_by_key(|d| d["code"].to_string());
    ensure_eq!(json!(got), json!(want), "notes");
    let sec = &v["security"];
    ensure_eq!(sec["payload_protection"], a.protection, "payload protection");
    ensure_eq!(sec["decryption_state"], a.state, "decryption state");
    ensure_eq!(sec["key_supplied"], json!(with_key), "key supplied");
    ensure_eq!(sec["mode_code"], json!(a.mode), "mode code");
    ensure_eq!(sec["mode"], json!(a.mode.map(expect::mode_name)), "mode name");
    ensure_eq!(sec["encrypted_payload_hex"], json!(a.encrypted), "encrypted payload");
    ensure_eq!(sec["decrypted_payload_hex"], json!(a.decrypted), "decrypted payload");
    let raw = &v["raw"];
    ensure_eq!(raw["input"], json!(input), "input text");
    ensure_eq!(raw["original_frame_hex"].as_str().unwrap_or("?"), hex(bytes), "original frame");
    ensure_eq!(raw["normalized_frame_hex"].as_str().unwrap_or("?"), hex(normalized), "normalised frame");
    ensure_eq!(raw["byte_length"], json!(bytes.len()), "length");
    ensure_eq!(raw["format_a_crc_stripped"], json!(bytes != normalized), "Format A mark");
    ensure_eq!(raw["payload_hex"], json!(a.payload), "payload");
    if let Some(n) = a.records {
        ensure_eq!(sut::records(v).len(), n, "number of records");
    }
    Ok(())
}

pub fn c35_property() -> Property {
    Property {
        id: "C35",
        rule: "Frames with any header, clear, encrypted or decrypted, intact or with a damaged record block or unreadable header, with and without a key, as bytes and as text; non-trivial: every distinct frame and key choice.",
        both_builds: false,
        assumptions: &["blocks whose reading the reference model leaves open are skipped", "a key with a mode that cannot be decrypted is an error (C34)", "the order of notes is not compared"],
        parts: vec![Part { name: "outputs", kind: Kind::Random { quick: 1_500_000, thorough: 18_000_000, tape: (16, 240), f: c35 } }],
    }
}

pub fn c34() -> Property {
    Property {
        id: "C34",
        rule: "Format names and near misses; hexadecimal texts with damage at known places; frames, options, keys and record blocks each with one fault of a known kind. Non-trivial: every name, every refused text and every faulty input.",
        both_builds: false,
        assumptions: &["error texts are searched for what they must name, not compared word by word", "places in hexadecimal text count UTF-8 bytes of the trimmed text"],
        parts: vec![
            Part { name: "format names", kind: Kind::Random { quick: 500_000, thorough: 6_000_000, tape: (4, 30), f: c34_names } },
            Part { name: "texts", kind: Kind::Random { quick: 2_000_000, thorough: 24_000_000, tape: (4, 80), f: c34_texts } },
            Part { name: "causes", kind: Kind::Random { quick: 1_000_000, thorough: 12_000_000, tape: (16, 200), f: c34_causes } },
        ],
    }
}
