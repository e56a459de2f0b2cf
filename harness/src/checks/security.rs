//! Encrypted payloads: C11, C12.

use m_bus_parser::annotate::{annotate_frame, SegmentKind};
use m_bus_parser::mbus_data::parse_to_mermaid;
use m_bus_parser::{serialize_mbus_data, OutputFormat};
use serde_json::{json, Value};

use super::records::decode_ok;
use crate::expect;
use crate::gen::{self, Frame, Hdr, Layout, Link};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::sut;
use crate::util::{hex, hex_sp};

fn key(s: &mut Source) -> [u8; 16] {
    match s.below(8) {
        0 => [0; 16],
        1 => [0xFF; 16],
        _ => s.bytes(16).try_into().unwrap(),
    }
}

/// Identity that seeds the initial vector: the long header's own, else the link's.
fn identity<'a>(link: &'a Link, hdr: &'a Hdr) -> Option<&'a gen::Ident> {
    match (hdr, link) {
        (Hdr::Long(i, _), _) => Some(i),
        (_, Link::Wireless { ident, .. }) => Some(ident),
        _ => None,
    }
}

/// Header with declared encryption that the library can decrypt.
fn decryptable(s: &mut Source) -> (Link, Hdr) {
    let mut link = gen::link(s);
    let hdr = match s.below(3) {
        0 => Hdr::Long(gen::ident(s), gen::short(s)),
        1 => Hdr::Short(0x7A, gen::short(s)),
        _ => Hdr::Ell1(s.byte(), s.byte(), Some(gen::short(s))),
    };
    if link.is_wired() && !matches!(hdr, Hdr::Long(..)) {
        link = Link::Wireless { c: *s.pick(gen::WIRELESS_C), ident: gen::ident(s), layout: *s.pick(&gen::LAYOUTS) };
    }
    (link, hdr)
}

fn c11_round_trip(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (link, mut hdr) = decryptable(s);
    let key = key(s);
    let mode = *s.pick(&[5u8, 7]);
    let room = link.room() - hdr.bytes().len();
    let budget = room / 16 * 16;
    // Whole blocks filled up with 2Fh, sometimes an unencrypted tail, seldom that alone.
    let clear_only = s.chance(1, 24);
    let mut clear = gen::block(s, &gen::FULL, 12, budget);
    if s.chance(1, 3) {
        let mut b = vec![0x2F, 0x2F];
        b.extend(&clear);
        clear = b;
        clear.truncate(budget);
    }
    while clear.len() % 16 != 0 || clear.is_empty() {
        clear.push(0x2F);
    }
    if clear_only {
        clear.clear();
    }
    let encrypted_len = clear.len();
    if clear_only || s.chance(1, 4) {
        let n = s.below((room - clear.len()).min(15) + 1);
        clear.extend(gen::block(s, &gen::SHORT, 3, n));
    }
    if clear.is_empty() {
        clear.push(0x2F);
    }
    let mut conf = hdr.conf().unwrap();
    conf[1] &= 0xE0;
    hdr.set_conf(conf);
    let plain = Frame { link: link.clone(), hdr: hdr.clone(), block: clear.clone() };
    conf[1] |= mode;
    hdr.set_conf(conf);
    let Some(ident) = identity(&link, &hdr) else { return Ok(()) };
    let mut block = gen::encrypt(mode, &key, ident, hdr.access().unwrap(), &clear[..encrypted_len]);
    block.extend(&clear[encrypted_len..]);
    let sealed = Frame { link: link.clone(), hdr: hdr.clone(), block };
    let unsealed = Frame { link: link.with_layout(Layout::Plain), hdr, block: clear.clone() };
    if plain.ambiguous() || sealed.ambiguous() || unsealed.ambiguous() {
        return Ok(());
    }
    let bytes = sealed.bytes();
    ctx.sample(|| format!("key {} frame {}", hex(&key), hex_sp(&bytes)));
    ctx.class(&format!("{} mode {mode} {}", sealed.hdr.name(), if link.is_wired() { "wired" } else { "wireless" }));
    ctx.class(&format!("{:02} blocks", encrypted_len / 16));
    ctx.nontrivial(&(key, &bytes));
    c11_compare(&key, &plain, &sealed, &unsealed)
        .map_err(|e| Fail::new(format!("mode {mode} key {} frame [{}] cleartext [{}]: {}", hex(&key), hex_sp(&bytes), hex_sp(&clear), e.message)))
}

fn c11_compare(key: &[u8; 16], plain: &Frame, sealed: &Frame, unsealed: &Frame) -> CheckResult {
    let bytes = sealed.bytes();
    let v = match sut::decode(&bytes, Some(*key)) {
        Ok(v) => v,
        Err(e) => fail!("decoding with the key failed: {} {e}", e.code()),
    };
    let p = decode_ok(&plain.bytes())?;
    let sec = &v["security"];
    ensure_eq!(sec["decrypted_payload_hex"].as_str().unwrap_or("?"), hex(&plain.block), "decrypted bytes");
    ensure_eq!(sec["encrypted_payload_hex"].as_str().unwrap_or("?"), hex(&sealed.app()), "encrypted bytes");
    ensure_eq!(sec["payload_protection"], "encrypted", "payload protection");
    ensure_eq!(sec["decryption_state"], "decrypted_unverified", "decryption state");
    ensure_eq!(sec["key_supplied"], true, "key supplied");
    ensure_eq!(v["records"], p["records"], "records against the unencrypted frame");
    ensure_eq!(v["meter"], p["meter"], "meter against the unencrypted frame");
    ensure_eq!(v["decode_state"], p["decode_state"], "decode state against the unencrypted frame");
    let mut diags: Vec<Value> = v["diagnostics"].as_array().cloned().unwrap_or_default();
    let before = diags.len();
    diags.retain(|d| d["code"] != "security.decrypted_unverified");
    ensure_eq!(before - diags.len(), 1, "number of unverified notes");
    ensure_eq!(json!(diags), json!(p["diagnostics"].as_array().cloned().unwrap_or_default()), "diagnostics against the unencrypted frame");

    // Annotations of the decrypted frame.
    let text = sut::render(&bytes, OutputFormat::Annotated, Some(*key), None).map_err(|e| Fail::new(format!("annotating with the key failed: {e}")))?;
    let a: Value = serde_json::from_str(&text).map_err(|e| Fail::new(format!("annotated output is no JSON: {e}")))?;
    ensure_eq!(a["decrypted"], true, "annotated output marked decrypted");
    let shown: Vec<u8> = a["bytes"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(999) as u8).collect();
    ensure_eq!(hex_sp(&shown), hex_sp(&unsealed.bytes()), "annotated bytes");
    let original: Vec<u8> = a["original"]["bytes"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(999) as u8).collect();
    ensure_eq!(hex_sp(&original), hex_sp(&bytes), "annotated original bytes");
    let clear = Frame { link: plain.link.with_layout(Layout::Plain), ..plain.clone() };
    let segs = annotate_frame(&clear.bytes()).map_err(|e| Fail::new(format!("annotating the unencrypted frame failed: {e}")))?;
    let start = (if plain.link.is_wired() { 6 } else { 10 }) + plain.hdr.bytes().len();
    let want: Vec<Value> = segs.iter().filter(|x| x.start >= start).map(|x| serde_json::to_value(x).unwrap()).collect();
    let got: Vec<Value> =
        a["segments"].as_array().into_iter().flatten().filter(|x| x["start"].as_u64().unwrap_or(0) as usize >= start).cloned().collect();
    // The checksum of a wired frame differs with the configuration word.
    let drop_sum = |mut l: Vec<Value>| {
        if plain.link.is_wired() {
            l.truncate(l.len().saturating_sub(2));
        }
        l
    };
    ensure_eq!(json!(drop_sum(got)), json!(drop_sum(want)), "annotation of the decrypted payload");

    // XML, with the configuration word (signature) aside.
    let xml = |b: &[u8], k| {
        sut::render(b, OutputFormat::Xml, k, None)
            .map(|t| t.lines().filter(|l| !l.contains("<Signature>")).collect::<Vec<_>>().join("\n"))
            .map_err(|e| e.code().to_string())
    };
    ensure_eq!(xml(&bytes, Some(*key)), xml(&plain.bytes(), None), "XML against the unencrypted frame");

    // Legacy summary.
    let legacy = |b: &[u8], k: Option<&[u8; 16]>| -> Result<Value, Fail> {
        let t = serialize_mbus_data(&hex(b), "json-legacy", k);
        let v: Value = serde_json::from_str(&t).map_err(|e| Fail::new(format!("legacy JSON: {e}")))?;
        Ok(v)
    };
    let (l, r) = (legacy(&bytes, Some(key))?, legacy(&plain.bytes(), None)?);
    ensure_eq!(l["summary"]["decrypted"], true, "legacy summary marked decrypted");
    ensure_eq!(l["summary"]["records"], r["summary"]["records"], "legacy records against the unencrypted frame");
    ensure_eq!(l["data_records"], r["data_records"], "legacy record data against the unencrypted frame");
    Ok(())
}

fn c11_unsupported(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (link, mut hdr) = decryptable(s);
    let key = key(s);
    let mode = loop {
        let m = 1 + s.below(31) as u8;
        if m != 5 && m != 7 {
            break m;
        }
        if s.exhausted() {
            break 1;
        }
    };
    let mut conf = hdr.conf().unwrap();
    conf[1] = conf[1] & 0xE0 | mode;
    hdr.set_conf(conf);
    if s.chance(1, 4) {
        // Protection by the extended link layer is not supported either.
        hdr = if s.chance(1, 2) {
            Hdr::Ell2(s.byte(), s.byte(), s.bytes(4).try_into().unwrap(), s.bytes(2).try_into().unwrap())
        } else {
            Hdr::Ell3(
                s.byte(),
                s.byte(),
                s.bytes(2).try_into().unwrap(),
                s.bytes(6).try_into().unwrap(),
                s.bytes(4).try_into().unwrap(),
                s.bytes(2).try_into().unwrap(),
            )
        };
    }
    let n = s.below(80);
    let f = Frame { link, hdr, block: s.bytes(n) };
    if f.ambiguous() {
        return Ok(());
    }
    let bytes = f.bytes();
    ctx.sample(|| hex_sp(&bytes));
    ctx.class(&format!("{} mode {}", f.hdr.name(), f.hdr.conf().map_or("-".into(), |c| (c[1] & 31).to_string())));
    ctx.nontrivial(&bytes);
    for (what, r) in [
        ("decode", sut::decode(&bytes, Some(key)).map(|_| ())),
        ("table", sut::render(&bytes, OutputFormat::Table, Some(key), None).map(|_| ())),
        ("csv", sut::render(&bytes, OutputFormat::Csv, Some(key), None).map(|_| ())),
    ] {
        match r {
            Err(e) => ensure_eq!(e.code(), "security.unsupported_mode", "{what} error for [{}]", hex_sp(&bytes)),
            Ok(()) => fail!("{what} of [{}] with a key succeeded", hex_sp(&bytes)),
        }
    }
    Ok(())
}

/// A wrong key never gives an error or a panic, and its bytes are the wrong decryption.
fn c11_low_level(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    use m_bus_parser::decryption::{EncryptedPayload, KeyContext, KeyProvider, StaticKeyProvider};
    use m_bus_parser::user_data::UserDataBlock;
    let (link, mut hdr) = decryptable(s);
    let key = key(s);
    let mode = *s.pick(&[5u8, 7]);
    let mut conf = hdr.conf().unwrap();
    conf[1] = conf[1] & 0xE0 | mode;
    hdr.set_conf(conf);
    let tail = if s.chance(1, 3) { s.range(1, 15) } else { 0 };
    let blocks = if tail > 0 && s.chance(1, 4) { 0 } else { s.range(1, 12) };
    let clear = s.bytes(blocks * 16 + tail);
    let ident = identity(&link, &hdr).unwrap().clone();
    let mut block = gen::encrypt(mode, &key, &ident, hdr.access().unwrap(), &clear[..blocks * 16]);
    block.extend(&clear[blocks * 16..]);
    let f = Frame { link, hdr, block };
    let app = f.app();
    ctx.sample(|| hex_sp(&app));
    ctx.class(&format!("{} mode {mode}", f.hdr.name()));
    ctx.class(if blocks == 0 { "no whole block" } else if tail > 0 { "clear tail" } else { "whole blocks" });
    ctx.nontrivial(&(key, &app));
    let user = match UserDataBlock::try_from(app.as_slice()) {
        Ok(u) => u,
        Err(e) => fail!("[{}] refused: {e:?}", hex_sp(&app)),
    };
    let want = matches!(f.hdr, Hdr::Long(..)).then_some(true);
    ensure!(user.is_encrypted() == want || user.is_encrypted() == Some(true), "is_encrypted of [{}] is {:?}", hex_sp(&app), user.is_encrypted());
    ensure_eq!(user.variable_data_len(), f.block.len(), "payload length of [{}]", hex_sp(&app));
    let man = m_bus_core::ManufacturerCode::from_id(u16::from_le_bytes(ident.man)).map_err(|e| Fail::new(format!("manufacturer refused: {e:?}")))?;
    let number: u32 = ident.digits().parse().unwrap();
    let mut store = StaticKeyProvider::<2>::new();
    store.add_key(u16::from_le_bytes(ident.man), number ^ 1, [1; 16]).map_err(|e| Fail::new(format!("{e}")))?;
    store.add_key(u16::from_le_bytes(ident.man), number, key).map_err(|e| Fail::new(format!("{e}")))?;
    let mut out = [0u8; 256];
    let device = m_bus_core::DeviceType::from(ident.device);
    let r = user.decrypt_variable_data_with_context(&store, man, number, ident.version, device, &mut out);
    ensure_eq!(r, Ok(clear.len()), "decrypting [{}] with a key store", hex_sp(&app));
    ensure_eq!(hex(&out[..clear.len()]), hex(&clear), "bytes decrypted from [{}]", hex_sp(&app));
    let context = KeyContext {
        manufacturer: man,
        identification_number: number,
        version: ident.version,
        device_type: device,
        security_mode: m_bus_core::SecurityMode::from_bits(mode),
        access_number: f.hdr.access().unwrap(),
    };
    ensure!(store.get_key(&context) == Ok(&key[..]), "key lookup");
    let mut out2 = [0u8; 256];
    let r = EncryptedPayload::new(&f.block, context).decrypt_into(&store, &mut out2);
    ensure_eq!(r, Ok(clear.len()), "decrypting the payload alone");
    ensure_eq!(hex(&out2[..clear.len()]), hex(&clear), "bytes decrypted from the payload alone");
    // One byte too little room is an error, exactly enough is not.
    let mut tight = vec![0u8; clear.len()];
    ensure_eq!(user.decrypt_variable_data_with_context(&store, man, number, ident.version, device, &mut tight), Ok(clear.len()), "decrypting into just enough room");
    ensure_eq!(hex(&tight), hex(&clear), "bytes decrypted into just enough room");
    tight.pop();
    ensure!(user.decrypt_variable_data_with_context(&store, man, number, ident.version, device, &mut tight).is_err(), "decrypted into too little room");
    Ok(())
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        rule: "Record blocks are padded, encrypted by an independent AES-128-CBC (FIPS-197 tested) with the mode's initial vector and decoded with the key; the frame with the same block in the clear is the reference; non-trivial: distinct (key, frame) pairs.",
        both_builds: false,
        assumptions: &[
            "supported modes are 5 (initial vector from identity and access number) and 7 (zero initial vector)",
            "the whole block is encrypted up to a multiple of 16 bytes, a shorter tail is in the clear; the block count of the configuration word is not used by the library",
            "wired short headers carry no identity, so their decryption is left open",
        ],
        parts: vec![
            Part { name: "round trip", kind: Kind::Random { quick: 160_000, thorough: 1_920_000, tape: (40, 240), f: c11_round_trip } },
            Part { name: "unsupported modes", kind: Kind::Random { quick: 80_000, thorough: 960_000, tape: (20, 60), f: c11_unsupported } },
            Part { name: "low-level calls", kind: Kind::Random { quick: 80_000, thorough: 960_000, tape: (20, 90), f: c11_low_level } },
        ],
    }
}

// ------------------------------------------------------------------ C12

fn encrypted_header(s: &mut Source) -> Hdr {
    match s.weighted(&[3, 3, 2, 2, 2]) {
        0 => Hdr::Long(gen::ident(s), gen::short(s)),
        1 if s.chance(1, 5) => gen::a_header(s),
        1 => Hdr::Short(0x7A, gen::short(s)),
        2 => Hdr::Ell1(s.byte(), s.byte(), Some(gen::short(s))),
        3 => Hdr::Ell2(s.byte(), s.byte(), s.bytes(4).try_into().unwrap(), s.bytes(2).try_into().unwrap()),
        _ => Hdr::Ell3(
            s.byte(),
            s.byte(),
            s.bytes(2).try_into().unwrap(),
            s.bytes(6).try_into().unwrap(),
            s.bytes(4).try_into().unwrap(),
            s.bytes(2).try_into().unwrap(),
        ),
    }
}

/// Replaces every place that keeps raw bytes.
fn mask_json(v: &mut Value) {
    if let Some(r) = v.get_mut("raw").and_then(Value::as_object_mut) {
        for k in ["original_frame_hex", "normalized_frame_hex", "payload_hex"] {
            r.remove(k);
        }
    }
    if let Some(s) = v.get_mut("security").and_then(Value::as_object_mut) {
        s.remove("encrypted_payload_hex");
    }
}

/// All outputs without key, with raw bytes taken out.
fn views(f: &Frame) -> Result<Vec<(String, String)>, Fail> {
    let b = f.bytes();
    let mut out = vec![];
    let mut put = |n: &str, t: String| out.push((n.to_string(), t));
    let mut v = decode_ok(&b)?;
    mask_json(&mut v);
    put("json", v.to_string());
    for (name, format) in [("table", OutputFormat::Table), ("mermaid", OutputFormat::Mermaid), ("annotated text", OutputFormat::AnnotatedText)] {
        let t = match sut::render(&b, format, None, None) {
            Ok(t) => t,
            Err(e) => format!("error {}", e.code()),
        };
        if format != OutputFormat::AnnotatedText {
            put(name, t);
        }
    }
    let csv = sut::render(&b, OutputFormat::Csv, None, None).map_err(|e| Fail::new(format!("csv: {e}")))?;
    put("csv", csv.replace(&hex(&b), "RAW"));
    if !f.link.is_wired() {
        put("xml", sut::render(&b, OutputFormat::Xml, None, None).unwrap_or_else(|e| format!("error {}", e.code())));
    }
    let segs = annotate_frame(&b).map_err(|e| Fail::new(format!("annotate: {e}")))?;
    put("segments", segs.iter().map(|x| format!("{}..{} {:?} {:?} {:?}\n", x.start, x.end, x.kind, x.group, x.layer)).collect());
    for name in ["json-legacy", "yaml-legacy", "csv-wide"] {
        put(name, legacy_masked(name, f));
    }
    put("legacy mermaid", parse_to_mermaid(&hex(&b), None));
    Ok(out)
}

/// Legacy output without the fields that hold raw bytes.
fn legacy_masked(name: &str, f: &Frame) -> String {
    let t = serialize_mbus_data(&hex(&f.bytes()), name, None);
    if name == "json-legacy" {
        let mut v: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
        fn scrub(v: &mut Value) {
            match v {
                Value::Object(o) => {
                    for k in ["variable_data_block", "encrypted_payload_hex"] {
                        o.remove(k);
                    }
                    o.values_mut().for_each(scrub);
                }
                Value::Array(a) => a.iter_mut().for_each(scrub),
                _ => {}
            }
        }
        scrub(&mut v);
        remove_data(&mut v["frame"]);
        return v.to_string();
    }
    if name == "yaml-legacy" {
        let (app, block) = (hex(&f.app()), hex(&f.block));
        let raw = |l: &str| l.contains(&app) || l.trim_start().starts_with("encrypted_payload_hex") || l.trim_start().starts_with("variable_data_block") || (block.len() > 8 && l.contains(&block));
        return t.lines().filter(|l| !raw(l)).collect::<Vec<_>>().join("\n");
    }
    t
}

fn remove_data(v: &mut Value) {
    if let Value::Object(o) = v {
        o.remove("data");
        o.values_mut().for_each(remove_data);
    }
}

fn c12_no_key(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let link = gen::link(s);
    let mut hdr = encrypted_header(s);
    if let Some(mut c) = hdr.conf() {
        let mode = if s.chance(1, 2) { 5 } else { 1 + s.below(31) as u8 };
        c[1] = c[1] & 0xE0 | mode;
        hdr.set_conf(c);
    }
    let room = link.room() - hdr.bytes().len();
    // Bytes that would decode as records.
    let block = gen::block(s, &gen::FULL, 10, room);
    let other = s.bytes(block.len());
    let f = Frame { link: link.clone(), hdr: hdr.clone(), block };
    let g = Frame { link, hdr, block: other };
    if f.ambiguous() || g.ambiguous() {
        return Ok(());
    }
    let bytes = f.bytes();
    ctx.sample(|| hex_sp(&bytes));
    ctx.class(&format!("{} {}", f.hdr.name(), if f.link.is_wired() { "wired" } else { "wireless" }));
    if f.block.len() > 2 {
        ctx.nontrivial(&bytes);
    } else {
        ctx.class("payload of at most 2 bytes");
    }
    c12_compare(&f, &g).map_err(|e| Fail::new(format!("{} [{}]: {}", f.hdr.name(), hex_sp(&bytes), e.message)))
}

fn c12_compare(f: &Frame, g: &Frame) -> CheckResult {
    let bytes = f.bytes();
    let v = decode_ok(&bytes)?;
    ensure!(sut::records(&v).is_empty(), "{} records reported without key", sut::records(&v).len());
    ensure_eq!(v["decode_state"], "partial", "decode state");
    let sec = &v["security"];
    ensure_eq!(sec["payload_protection"], "encrypted", "payload protection");
    ensure_eq!(sec["decryption_state"], "key_missing", "decryption state");
    ensure_eq!(sec["key_supplied"], false, "key supplied");
    ensure!(sec["decrypted_payload_hex"].is_null(), "decrypted payload without key");
    ensure_eq!(sec["encrypted_payload_hex"].as_str().unwrap_or("?"), hex(&f.app()), "encrypted payload");
    ensure_eq!(v["raw"]["payload_hex"].as_str().unwrap_or("?"), hex(&f.app()), "raw payload");
    let missing = v["diagnostics"].as_array().into_iter().flatten().filter(|d| d["code"] == "security.key_missing").count();
    ensure_eq!(missing, 1, "number of missing-key diagnostics");
    // Every annotated byte of the payload is marked encrypted.
    let segs = annotate_frame(&bytes).map_err(|e| Fail::new(format!("annotate: {e}")))?;
    let format_a = matches!(f.link, Link::Wireless { layout: Layout::FormatA, .. });
    let start = (if f.link.is_wired() { 6 } else { 10 }) + f.hdr.bytes().len();
    let map = |i: usize| if format_a && i >= 10 { i + 2 + (i - 10) / 16 * 2 } else { i };
    for i in start..start + f.block.len() {
        let p = map(i);
        let Some(x) = segs.iter().find(|x| x.start <= p && p < x.end) else { fail!("byte {p} not annotated") };
        ensure_eq!(x.kind, SegmentKind::EncryptedPayload, "annotation of payload byte {p}");
        ensure!(x.group.is_none(), "payload byte {p} annotated as part of record {:?}", x.group);
    }
    let csv = sut::render(&bytes, OutputFormat::Csv, None, None).map_err(|e| Fail::new(format!("csv: {e}")))?;
    ensure_eq!(csv.lines().next().unwrap_or("").split(',').count(), 18, "CSV columns in {}", csv.lines().next().unwrap_or(""));
    // Nothing depends on the encrypted bytes but the raw byte fields.
    for ((n, a), (_, b)) in views(f)?.into_iter().zip(views(g)?) {
        if a != b {
            let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            let cut = |t: &str| String::from_utf8_lossy(&t.as_bytes()[at.saturating_sub(60)..(at + 60).min(t.len())]).into_owned();
            fail!("{n} output depends on the encrypted bytes: …{}… against …{}… for [{}]", cut(&a), cut(&b), hex_sp(&g.bytes()));
        }
    }
    Ok(())
}

/// An encrypted payload stays unread behind further extended link layers.
fn c12_nested(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let link = gen::link(s);
    let mut hdr = encrypted_header(s);
    if let Some(mut c) = hdr.conf() {
        c[1] = c[1] & 0xE0 | (1 + s.below(31) as u8);
        hdr.set_conf(c);
    }
    let mut head = vec![];
    for _ in 0..1 + s.below(3) {
        head.extend([0x8C, s.byte(), s.byte()]);
    }
    head.extend(hdr.bytes());
    let block = gen::block(s, &gen::FULL, 10, link.room() - head.len());
    let other = s.bytes(block.len());
    let apps = [&block, &other].map(|b| [head.as_slice(), b.as_slice()].concat());
    if apps.iter().any(|a| gen::ambiguous(&link, a)) {
        return Ok(());
    }
    let frames = apps.map(|a| link.frame(&a));
    ctx.sample(|| hex_sp(&frames[0]));
    ctx.class(hdr.name());
    if block.len() > 2 {
        ctx.nontrivial(&frames[0]);
    }
    let mut seen = vec![];
    for b in &frames {
        let mut v = decode_ok(b)?;
        ensure!(sut::records(&v).is_empty(), "[{}]: {} records reported without key", hex_sp(b), sut::records(&v).len());
        ensure_eq!(v["decode_state"], "partial", "[{}]: decode state", hex_sp(b));
        mask_json(&mut v);
        let segs = annotate_frame(b).map_err(|e| Fail::new(format!("[{}]: annotate: {e}", hex_sp(b))))?;
        if let Some(x) = segs.iter().find(|x| x.group.is_some()) {
            fail!("[{}]: bytes {}..{} annotated as part of record {:?}", hex_sp(b), x.start, x.end, x.group);
        }
        let mut out = vec![v.to_string(), parse_to_mermaid(&hex(b), None)];
        for format in [OutputFormat::Table, OutputFormat::Mermaid, OutputFormat::Xml] {
            if format != OutputFormat::Xml || !link.is_wired() {
                out.push(sut::render(b, format, None, None).unwrap_or_else(|e| e.code().to_string()));
            }
        }
        seen.push(out);
    }
    ensure_eq!(seen[0], seen[1], "[{}]: output depends on the encrypted bytes", hex_sp(&frames[0]));
    Ok(())
}

fn c12_key_on_clear(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let f = gen::clear_frame(s, &gen::FULL, 8);
    let key = key(s);
    if f.ambiguous() {
        return Ok(());
    }
    let bytes = f.bytes();
    ctx.sample(|| hex_sp(&bytes));
    ctx.class(f.hdr.name());
    if !f.block.is_empty() {
        ctx.nontrivial(&bytes);
    }
    debug_assert!(!expect::declares_encryption(&f.hdr));
    let mut a = decode_ok(&bytes)?;
    let mut b = match sut::decode(&bytes, Some(key)) {
        Ok(v) => v,
        Err(e) => fail!("cleartext frame [{}] with a key: {} {e}", hex_sp(&bytes), e.code()),
    };
    ensure_eq!(b["security"]["decryption_state"], "not_applicable", "decryption state of cleartext frame [{}] with a key", hex_sp(&bytes));
    let notes: Vec<&Value> = b["diagnostics"].as_array().into_iter().flatten().filter(|d| d["code"] == "security.key_unused").collect();
    ensure_eq!(notes.len(), 1, "number of unused-key notes for [{}]", hex_sp(&bytes));
    for v in [&mut a, &mut b] {
        v["security"]["key_supplied"] = Value::Null;
        if let Some(d) = v["diagnostics"].as_array_mut() {
            d.retain(|d| d["code"] != "security.key_unused");
        }
        if v["diagnostics"].as_array().is_none_or(Vec::is_empty) {
            v["diagnostics"] = json!([]);
        }
    }
    ensure_eq!(b, a, "cleartext frame [{}] with a key against without", hex_sp(&bytes));
    for format in [OutputFormat::Xml, OutputFormat::Annotated, OutputFormat::AnnotatedText] {
        let x = sut::render(&bytes, format, None, None).map_err(|e| e.code());
        let y = sut::render(&bytes, format, Some(key), None).map_err(|e| e.code());
        ensure_eq!(y, x, "{format:?} of cleartext frame [{}] with a key against without", hex_sp(&bytes));
    }
    for name in ["json-legacy", "yaml-legacy", "csv-wide", "hexview-legacy"] {
        ensure_eq!(
            serialize_mbus_data(&hex(&bytes), name, Some(&key)),
            serialize_mbus_data(&hex(&bytes), name, None),
            "{name} of cleartext frame [{}] with a key against without",
            hex_sp(&bytes)
        );
    }
    Ok(())
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "Frames that declare encryption (all header kinds and modes) carry bytes that would decode as records; besides the stated marks, two frames differing only in those bytes must give the same output in every format apart from raw-byte fields, also behind up to three further extended link layers; non-trivial: payloads of more than 2 bytes, and cleartext frames with data decoded with a key.",
        both_builds: false,
        assumptions: &["the XML of wired frames is exempt, as stated", "raw byte fields are payload_hex, the frame hex fields and encrypted_payload_hex"],
        parts: vec![
            Part { name: "no key", kind: Kind::Random { quick: 120_000, thorough: 1_440_000, tape: (20, 200), f: c12_no_key } },
            Part { name: "nested", kind: Kind::Random { quick: 40_000, thorough: 480_000, tape: (20, 160), f: c12_nested } },
            Part { name: "key on cleartext", kind: Kind::Random { quick: 60_000, thorough: 720_000, tape: (20, 160), f: c12_key_on_clear } },
        ],
    }
}
