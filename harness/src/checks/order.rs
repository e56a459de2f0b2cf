//! C41: responses sent most significant byte first.

use m_bus_parser::user_data::data_record::DataRecord;
use m_bus_parser::user_data::{parse_application_layer, parse_data_records_with_header, DataRecords, UserDataBlock};
use m_bus_parser::mbus_data::{parse_to_mermaid, MbusData};
use m_bus_parser::{serialize_mbus_data, WiredFrame, WirelessFrame};
use serde_json::Value;

use super::annot::annotated_json;
use super::lowlevel::low;
use crate::gen::{self, Hdr};
use crate::model::{self, Val};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::sut;
use crate::util::{hex, hex_sp};

/// The digits of a record, if its data are decimal digits.
fn digits(r: &model::Record) -> Option<std::ops::Range<usize>> {
    if r.special() {
        return None;
    }
    match r.coding {
        c if c.ends_with("digit BCD") => Some(0..r.data.len()),
        "Variable length" if matches!(r.data.first(), Some(0xC0..=0xC9 | 0xD0..=0xD9)) => Some(1..r.data.len()),
        _ => None,
    }
}

/// The same records with the bytes of all decimal values in the other order.
fn turned(block: &[u8]) -> (Vec<u8>, Vec<model::Record>, usize) {
    let mut out = block.to_vec();
    let parsed = model::parse(block);
    let mut n = 0;
    for r in &parsed.records {
        if let Some(d) = digits(r) {
            let at = r.offset + r.header.len();
            let part = &mut out[at + d.start..at + d.end];
            part.reverse();
            n += usize::from(part.len() > 1);
        }
    }
    (out, parsed.records, n)
}

/// A block in which decimal values are frequent.
fn block(s: &mut Source, budget: usize) -> Vec<u8> {
    let n = s.range(1, 8);
    let mut recs = vec![];
    let mut used = 0;
    for _ in 0..n {
        let r = if s.chance(1, 3) {
            gen::record(s, &gen::FULL)
        } else {
            let code = *s.pick(&[9u8, 10, 11, 12, 14, 13, 13]);
            let difes = gen::dif_chain(s, false);
            let (vif, vifes) = gen::vib(s, &gen::SHORT);
            let mut r = vec![code | (s.byte() & 7) << 4 | if difes.is_empty() { 0 } else { 0x80 }];
            r.extend(difes);
            r.push(vif);
            r.extend(vifes);
            if code == 13 {
                let len = s.range(0, 9);
                r.push(*s.pick(&[0xC0, 0xD0]) + len as u8);
                r.extend(gen::bcd(s, len));
            } else {
                r.extend(gen::data_for(s, code, &gen::SHORT));
            }
            r
        };
        if used + r.len() > budget {
            break;
        }
        used += r.len();
        recs.push(r);
    }
    gen::join(s, &recs, budget)
}

/// Values as the low-level calls read them, up to the first error.
fn values(records: DataRecords<'_>) -> Vec<String> {
    records.map(|r| r.map_or_else(|e| format!("{e:?}"), |r: DataRecord<'_>| format!("{:?}", r.data))).collect()
}

/// Takes the bytes that differ by design out of a document.
fn without(v: &mut Value, keys: &[&str]) {
    match v {
        Value::Object(m) => {
            for k in keys {
                m.remove(*k);
            }
            m.values_mut().for_each(|x| without(x, keys));
        }
        Value::Array(a) => a.iter_mut().for_each(|x| without(x, keys)),
        _ => {}
    }
}

fn differs(what: &str, got: &Value, want: &Value) -> CheckResult {
    match (got, want) {
        (Value::Object(a), Value::Object(b)) => {
            for k in a.keys().chain(b.keys()) {
                differs(&format!("{what}.{k}"), a.get(k).unwrap_or(&Value::Null), b.get(k).unwrap_or(&Value::Null))?;
            }
            Ok(())
        }
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                differs(&format!("{what}[{i}]"), x, y)?;
            }
            Ok(())
        }
        _ => {
            ensure_eq!(got, want, "{what}");
            Ok(())
        }
    }
}

fn c41(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let mode = *s.pick(&[0u8, 0, 0, 5, 7]);
    let key: [u8; 16] = s.bytes(16).try_into().unwrap();
    let link = gen::link(s);
    let ident = gen::ident(s);
    let mut head = gen::short(s);
    let room = link.room() - 13;
    let mut clear = block(s, if mode == 0 { room } else { room / 16 * 16 });
    if mode != 0 {
        while clear.len() % 16 != 0 || clear.is_empty() {
            clear.push(0x2F);
        }
        let (blocks, rest) = ((clear.len() / 16) as u8, head.conf);
        head.conf = [blocks << 4 | rest[0] & 0x0F, rest[1] & 0xE0 | mode];
    }
    let (msb_clear, records, n) = turned(&clear);
    let lock = |b: &[u8]| if mode == 0 { b.to_vec() } else { gen::encrypt(mode, &key, &ident, head.access, b) };
    let mut usual = Hdr::Long(ident.clone(), head.clone()).bytes();
    let mut turned_head = usual.clone();
    turned_head[0] = 0x76;
    turned_head[1..5].reverse();
    usual.extend(lock(&clear));
    let mut app = turned_head.clone();
    app.extend(lock(&msb_clear));
    if gen::ambiguous(&link, &usual) || gen::ambiguous(&link, &app) {
        return Ok(());
    }
    let (t, m) = (link.frame(&usual), link.frame(&app));
    let k = (mode != 0).then_some(key);
    let input = format!("[{}] key {:?}", hex_sp(&m), k.map(|k| hex(&k)));
    let at = |e: Fail| Fail::new(format!("{input}: {e}"));
    ctx.class(if link.is_wired() { "wired" } else { "wireless" });
    ctx.class(if mode == 0 { "in the clear" } else { "encrypted" });
    if n > 0 {
        ctx.class("with decimal values of several bytes");
        ctx.nontrivial(&m);
    }
    ctx.sample(|| input.clone());

    // The decoded output is that of the usual frame, but for the bytes.
    let decode = |b: &[u8]| sut::decode(b, k).map_err(|e| Fail::new(format!("{input}: refused as {}", e.code())));
    let (mut a, mut b) = (decode(&m)?, decode(&t)?);
    ensure_eq!(a["meter"]["identity"]["id"].as_str(), Some(ident.digits().as_str()), "identification number of {input}");
    let shown: Vec<String> = sut::records(&a).iter().map(|r| format!("{} {}", r["header_hex"].as_str().unwrap_or(""), r["data_hex"].as_str().unwrap_or(""))).collect();
    for (r, shown) in records.iter().zip(&shown) {
        let from = r.offset;
        let want = hex_sp(&msb_clear[from..from + r.header.len() + r.data.len()]);
        ensure_eq!(shown.trim(), want, "bytes of the record at {from} of {input}");
    }
    for (i, r) in records.iter().enumerate() {
        if let (Some(_), Val::Decimal(d)) = (digits(r), &r.value) {
            ensure_eq!(a["records"][i]["value"]["value"].as_str(), Some(d.as_str()), "value of record {i} of {input}");
        }
    }
    for v in [&mut a, &mut b] {
        without(v, &["raw", "data_hex", "encrypted_payload_hex", "decrypted_payload_hex"]);
    }
    differs("decoded", &a, &b).map_err(at)?;

    // So are the low-level readings, with the header at hand.
    let block = |app: &'static str, bytes: &[u8]| -> Result<(Vec<String>, Vec<String>), Fail> {
        let u = parse_application_layer(bytes).map_err(|e| Fail::new(format!("{app} of {input}: {e:?}")))?;
        let UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header: h, .. } = &u else {
            return Err(Fail::new(format!("{app} of {input}: not a long header")));
        };
        let clear = if bytes[0] == 0x76 { &msb_clear } else { &clear };
        let own = parse_data_records_with_header(clear, h);
        let iterated = values(own);
        ensure_eq!(values(DataRecords::from((clear.as_slice(), h))), iterated, "{app} of {input}: records made from data and header");
        Ok((iterated, u.data_records().map_or(vec![], values)))
    };
    ensure_eq!(block("turned", &app)?, block("usual", &usual)?, "low-level values of {input}");
    let of_frame = |bytes: &[u8]| -> Option<Vec<String>> {
        if WiredFrame::try_from(bytes).is_ok() {
            let d: MbusData<'_, WiredFrame<'_>> = MbusData::try_from(bytes).ok()?;
            return d.data_records.map(values);
        }
        let (_, normal) = low(bytes)?;
        let d: MbusData<'_, WirelessFrame<'_>> = MbusData::try_from(normal.as_slice()).ok()?;
        d.data_records.map(values)
    };
    if mode == 0 {
        ensure_eq!(of_frame(&m), of_frame(&t), "values of the records of the frame {input}");
    }

    // Annotation: other words only for the control information and the number.
    let (mut a, mut b) = (annotated_json(&m, k)?, annotated_json(&t, k)?);
    for v in [&mut a, &mut b] {
        without(v, &["bytes"]);
        for list in ["/segments", "/original/segments"] {
            for x in v.pointer_mut(list).and_then(Value::as_array_mut).into_iter().flatten() {
                if matches!(x["kind"].as_str(), Some("ci_field" | "identification_number" | "checksum" | "crc")) {
                    x["detail"] = Value::Null;
                }
            }
        }
    }
    differs("annotation", &a, &b).map_err(at)?;

    // And the legacy documents.
    let legacy = |b: &[u8], f: &str| serialize_mbus_data(&hex(b), f, k.as_ref());
    ensure_eq!(legacy(&m, "csv-wide"), legacy(&t, "csv-wide"), "legacy CSV of {input}");
    ensure_eq!(parse_to_mermaid(&hex(&m), k.as_ref()), parse_to_mermaid(&hex(&t), k.as_ref()), "legacy diagram of {input}");
    let document = |b: &[u8]| -> Result<Value, Fail> {
        let mut v: Value = serde_json::from_str(&legacy(b, "json-legacy")).map_err(|e| Fail::new(format!("legacy JSON of {input}: {e}")))?;
        without(&mut v, &["lsb_order", "variable_data_block", "raw_bytes", "data_hex", "encrypted_payload_hex"]);
        without(&mut v["frame"], &["data"]);
        Ok(v)
    };
    differs("legacy JSON", &document(&m)?, &document(&t)?).map_err(at)
}

pub fn c41_property() -> Property {
    Property {
        id: "C41",
        rule: "A frame with a long header and records is built twice: as usual with control information 72h, and with 76h, the bytes of the identification number and of every decimal (BCD) value in the other order; everything decoded from the two is compared, and the number and decimal values are compared with those computed from the bytes; non-trivial: distinct frames with at least one decimal value of two or more bytes.",
        both_builds: false,
        assumptions: &[
            "integers, floats, dates and texts are read as under 72h, as the parser does",
            "the initial vector of an encrypted response uses the identification number least significant byte first, as the parser does",
            "the rSCADA XML follows libmbus, which knows no other byte order, and is left to C16",
        ],
        parts: vec![Part { name: "most significant byte first", kind: Kind::Random { quick: 60_000, thorough: 1_200_000, tape: (40, 260), f: c41 } }],
    }
}
