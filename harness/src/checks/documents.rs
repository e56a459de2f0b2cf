//! C40: the legacy JSON and YAML documents and the legacy CSV in full.

use m_bus_core::{DeviceType, Function, IdentificationNumber, ManufacturerCode};
use m_bus_parser::manufacturers::lookup_manufacturer;
use m_bus_parser::serialize_mbus_data;
use m_bus_parser::user_data::data_information::{DataFieldCoding, DataType, SingleEveryOrInvalid};
use m_bus_parser::user_data::data_record::DataRecord;
use m_bus_parser::user_data::extended_link_layer::ExtendedLinkLayer;
use m_bus_parser::user_data::{parse_application_layer, DataRecords, LongTplHeader, ShortTplHeader, StatusField, UserDataBlock};
use m_bus_parser::{WiredFrame, WirelessFrame};
use serde_json::{json, Map, Value};

use super::lowlevel::{check_texts, decrypted, low, summary, yaml_to_json};
use super::output;
use super::total::real;
use crate::gen;
use crate::model;
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::util::{hex, hex_sp};

/// `Name`, `Name(number)` or `Name { field: bool, … }` as a document writes it.
fn variant(t: &str) -> Value {
    if let Some((name, rest)) = t.split_once('(') {
        let inner = rest.strip_suffix(')').unwrap_or(rest);
        let v = inner.parse::<u64>().map_or_else(|_| json!(inner), |n| json!(n));
        return json!({ name: v });
    }
    if let Some((name, rest)) = t.split_once(" { ") {
        let fields: Map<String, Value> = rest
            .trim_end_matches(" }")
            .split(", ")
            .filter_map(|f| f.split_once(": "))
            .map(|(k, v)| (k.to_string(), json!(v == "true")))
            .collect();
        return json!({ name: fields });
    }
    json!(t)
}

fn function(f: &Function) -> Value {
    match f {
        Function::SndNk { prm } => json!({"SndNk": {"prm": prm}}),
        Function::SndUd { fcb } => json!({"SndUd": {"fcb": fcb}}),
        Function::ReqUd1 { fcb } => json!({"ReqUd1": {"fcb": fcb}}),
        Function::ReqUd2 { fcb } => json!({"ReqUd2": {"fcb": fcb}}),
        Function::RspUd { acd, dfc } => json!({"RspUd": {"acd": acd, "dfc": dfc}}),
        f => json!(format!("{f:?}")),
    }
}

fn address(byte: u8) -> Value {
    match byte {
        0 => json!("Uninitalized"),
        253 => json!("Secondary"),
        254 => json!({"Broadcast": {"reply_required": true}}),
        255 => json!({"Broadcast": {"reply_required": false}}),
        b => json!({ "Primary": b }),
    }
}

fn function_text(f: &Function) -> String {
    match f {
        Function::SndNk { .. } => "SndNk".into(),
        Function::SndUd { fcb } => format!("SndUd (FCB: {fcb})"),
        Function::ReqUd1 { fcb } => format!("ReqUd1 (FCB: {fcb})"),
        Function::ReqUd2 { fcb } => format!("ReqUd2 (FCB: {fcb})"),
        Function::RspUd { acd, dfc } => format!("RspUd (ACD: {acd}, DFC: {dfc})"),
        f => format!("{f:?}"),
    }
}

fn address_text(byte: u8) -> String {
    match byte {
        0 => "Uninitalized".into(),
        253 => "Secondary".into(),
        254 => "Broadcast (Reply Required: true)".into(),
        255 => "Broadcast (Reply Required: false)".into(),
        b => format!("Primary ({b})"),
    }
}

fn id(n: &IdentificationNumber) -> Value {
    json!({"number": n.number})
}

fn maker(m: &ManufacturerCode) -> Value {
    json!({"code": m.code.map(String::from)})
}

fn device(d: DeviceType) -> Value {
    variant(&format!("{d:?}"))
}

fn status(s: StatusField) -> Value {
    const NAMES: [&str; 8] = [
        "COUNTER_BINARY_SIGNED",
        "COUNTER_FIXED_DATE",
        "POWER_LOW",
        "PERMANENT_ERROR",
        "TEMPORARY_ERROR",
        "MANUFACTURER_SPECIFIC_1",
        "MANUFACTURER_SPECIFIC_2",
        "MANUFACTURER_SPECIFIC_3",
    ];
    let set: Vec<&str> = NAMES.iter().enumerate().filter(|(i, _)| s.bits() >> i & 1 == 1).map(|(_, n)| *n).collect();
    json!(set.join(" | "))
}

fn short(h: &ShortTplHeader) -> Value {
    json!({"access_number": h.access_number, "status": status(h.status), "configuration_field": {"raw": h.configuration_field.raw()}})
}

/// The manufacturer of a code that is none is left out of the comparison.
fn long(h: &LongTplHeader) -> Value {
    json!({
        "identification_number": id(&h.identification_number),
        "manufacturer": h.manufacturer.as_ref().map_or(json!("?"), |m| json!({"Ok": maker(m)})),
        "version": h.version,
        "device_type": device(h.device_type),
        "short_tpl_header": short(&h.short_tpl_header),
        "lsb_order": h.lsb_order,
    })
}

fn ell(e: Option<&ExtendedLinkLayer>) -> Value {
    let Some(e) = e else { return Value::Null };
    json!({
        "communication_control": e.communication_control,
        "access_number": e.access_number,
        "receiver_address": e.receiver_address.as_ref().map(|r| json!({"manufacturer": r.manufacturer, "address": r.address})),
        "encryption": e.encryption.as_ref().map(|c| json!({"session_number": c.session_number, "payload_crc": c.payload_crc})),
    })
}

fn block(u: &UserDataBlock<'_>) -> Result<Value, Fail> {
    Ok(match u {
        UserDataBlock::ResetAtApplicationLevel { subcode } => json!({"ResetAtApplicationLevel": {"subcode": variant(&format!("{subcode:?}"))}}),
        UserDataBlock::FixedDataStructure { identification_number, access_number, status: s, device_type_and_unit, counter1, counter2 } => {
            let count = |t: String| json!({"count": t.parse::<u32>().unwrap_or(u32::MAX)});
            json!({"FixedDataStructure": {
                "identification_number": id(identification_number),
                "access_number": access_number,
                "status": status(*s),
                "device_type_and_unit": device_type_and_unit,
                "counter1": count(counter1.to_string()),
                "counter2": count(counter2.to_string()),
            }})
        }
        UserDataBlock::VariableDataStructureWithLongTplHeader { extended_link_layer, long_tpl_header, .. } => {
            json!({"VariableDataStructureWithLongTplHeader": {"extended_link_layer": ell(extended_link_layer.as_ref()), "long_tpl_header": long(long_tpl_header)}})
        }
        UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, .. } => {
            json!({"VariableDataStructureWithShortTplHeader": {"extended_link_layer": ell(extended_link_layer.as_ref()), "short_tpl_header": short(short_tpl_header)}})
        }
        UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer, .. } => {
            json!({"VariableDataStructureWithoutTplHeader": {"extended_link_layer": ell(extended_link_layer.as_ref())}})
        }
        _ => fail!("a kind of user data that is not listed: {u:?}"),
    })
}

fn part<T: std::fmt::Debug>(p: &SingleEveryOrInvalid<T>) -> Value {
    match p {
        SingleEveryOrInvalid::Single(v) => json!({"Single": variant(&format!("{v:?}")).as_str().map_or(Value::Null, |t| t.parse::<u64>().map_or_else(|_| json!(t), |n| json!(n)))}),
        SingleEveryOrInvalid::Every() => json!({"Every": []}),
        SingleEveryOrInvalid::Invalid() => json!({"Invalid": []}),
        p => json!(format!("{p:?}")),
    }
}

fn value(v: &DataType<'_>, data: &[u8]) -> Result<Value, Fail> {
    Ok(match v {
        DataType::Number(n) => json!({ "Number": n }),
        DataType::LossyNumber(n) => json!({ "LossyNumber": n }),
        DataType::Text(_) => json!({"Text": model::text(&data[1..])}),
        DataType::Date(a, b, c) => json!({"Date": [part(a), part(b), part(c)]}),
        DataType::Time(a, b, c) => json!({"Time": [part(a), part(b), part(c)]}),
        DataType::DateTime(a, b, c, d, e) => json!({"DateTime": [part(a), part(b), part(c), part(d), part(e)]}),
        DataType::DateTimeWithSeconds(a, b, c, d, e, f) => json!({"DateTimeWithSeconds": [part(a), part(b), part(c), part(d), part(e), part(f)]}),
        DataType::ManufacturerSpecific(b) => {
            ensure_eq!(hex_sp(b), hex_sp(data), "manufacturer data");
            json!({"ManufacturerSpecific": hex(data)})
        }
        v => fail!("a kind of value that is not listed: {v:?}"),
    })
}

fn record(r: &DataRecord<'_>) -> Result<Value, Fail> {
    let raw = &r.data_record_header.raw_data_record_header;
    let (dib, vib) = (&raw.data_information_block, raw.value_information_block.as_ref());
    let head = r.data_record_header.get_size();
    let coding = |c: DataFieldCoding| match c {
        DataFieldCoding::SpecialFunctions(s) => json!({"SpecialFunctions": format!("{s:?}")}),
        c => json!(format!("{c:?}")),
    };
    Ok(json!({
        "raw_bytes": hex(r.raw_bytes),
        "data": {"size": r.raw_bytes.len() - head, "value": match r.value() { Some(v) => value(v, &r.raw_bytes[head..])?, None => Value::Null }},
        "data_record_header": {
            "raw_data_record_header": {
                "data_information_block": {
                    "data_information_field": {"data": dib.data_information_field.data},
                    "data_information_field_extension": dib.data_information_field_extension.as_ref().map(|x| x.clone().map(|b| b.data).collect::<Vec<u8>>()),
                },
                "value_information_block": vib.map(|v| json!({
                    "value_information": {"data": v.value_information.data},
                    "value_information_extension": v.value_information_extension.as_ref().map(|x| x.iter().map(|b| json!({"data": b.data})).collect::<Vec<_>>()),
                    "plaintext_vife": v.plaintext_vife.as_ref().map(|t| t.iter().map(|c| c.to_string()).collect::<Vec<_>>()),
                })),
            },
            "processed_data_record_header": {
                "data_information": r.data_information().map(|d| json!({
                    "storage_number": d.storage_number,
                    "tariff": d.tariff,
                    "device": d.device,
                    "function_field": format!("{:?}", d.function_field),
                    "data_field_coding": coding(d.data_field_coding),
                    "data_information_extension": null,
                    "size": d.size,
                })),
                "value_information": r.value_information().map(|v| json!({
                    "decimal_offset_exponent": v.decimal_offset_exponent,
                    "decimal_scale_exponent": v.decimal_scale_exponent,
                    "labels": v.labels.iter().map(|l| format!("{l:?}")).collect::<Vec<_>>(),
                    "units": v.units.iter().map(|u| json!({"name": format!("{:?}", u.name), "exponent": u.exponent})).collect::<Vec<_>>(),
                })),
            },
        },
    }))
}

/// Equal, where numbers may differ in the last digits and what is not finite is null.
fn same(got: &Value, want: &Value, at: &str) -> CheckResult {
    match (got, want) {
        (_, Value::String(w)) if w == "?" && at.ends_with("manufacturer") => Ok(()),
        (Value::Number(g), Value::Number(w)) => {
            let close = g == w || g.as_f64().zip(w.as_f64()).is_some_and(|(g, w)| (g - w).abs() <= 4.0 * f64::EPSILON * w.abs());
            ensure!(close, "{at} is {g} instead of {w}");
            Ok(())
        }
        (Value::Array(g), Value::Array(w)) => {
            ensure_eq!(g.len(), w.len(), "entries of {at}");
            g.iter().zip(w).enumerate().try_for_each(|(i, (g, w))| same(g, w, &format!("{at}[{i}]")))
        }
        (Value::Object(g), Value::Object(w)) => {
            for k in g.keys() {
                ensure!(w.contains_key(k), "{at} has {k}");
            }
            for (k, w) in w {
                let Some(g) = g.get(k) else { fail!("{at} lacks {k}") };
                same(g, w, &format!("{at}.{k}"))?;
            }
            Ok(())
        }
        _ => {
            ensure!(got == want, "{at} is {got} instead of {want}");
            Ok(())
        }
    }
}

/// What the summary of a record says.
fn summed(r: &DataRecord<'_>) -> Map<String, Value> {
    let mut m = Map::new();
    let v = r.value_information();
    m.insert("display".into(), json!(format!("({}{}", r.data, v.map_or(")".to_string(), |v| v.to_string()))));
    m.insert("data_information".into(), json!(r.data_information().map_or("None".to_string(), |d| d.to_string())));
    m.insert("header_hex".into(), json!(r.data_record_header_hex()));
    m.insert("data_hex".into(), json!(r.data_hex()));
    if let Some(DataType::Number(n) | DataType::LossyNumber(n)) = r.value() {
        m.insert("value".into(), json!(n));
    }
    if let Some(v) = v {
        m.insert("exponent".into(), json!(v.decimal_scale_exponent));
        if !v.units.is_empty() {
            m.insert("unit".into(), json!(v.units.iter().map(|u| u.to_string()).collect::<String>()));
        }
        if !v.labels.is_empty() {
            m.insert("quantity".into(), json!(v.labels.iter().map(|l| format!("{l:?}")).collect::<Vec<_>>().join(", ")));
        }
    }
    m
}

/// Parts of a summary beside those of the headers.
const KEYS: [&str; 5] = ["manufacturer", "encrypted", "decrypted", "encrypted_payload_hex", "records"];

fn c40(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let spelling = s.below(4);
    let word = if s.chance(1, 12) { Some([s.edgy_byte(), s.edgy_byte()]) } else { None };
    let (mut bytes, key, kind) = match s.weighted(&[6, 4, 4, 1]) {
        0 => (gen::clear_frame(s, &gen::FULL, 8).bytes(), None, "records"),
        1 => (gen::any_frame(s, &gen::TEXTY, 5).bytes(), None, "any header"),
        2 => {
            let i = output::input(s);
            (i.bytes, i.key, i.kind)
        }
        _ => (s.pick(real()).clone(), None, "captured frame"),
    };
    // Any manufacturer word in the long header of a wired frame.
    if let (Some(w), Some(0x68), Some(0x72 | 0x76), 21..) = (word, bytes.first(), bytes.get(6), bytes.len()) {
        bytes[11..13].copy_from_slice(&w);
        let end = bytes.len() - 2;
        bytes[end] = bytes[4..end].iter().fold(0, |a, b| a.wrapping_add(*b));
        ctx.class("any manufacturer word");
    }
    let text = match spelling {
        0 => hex_sp(&bytes),
        1 => hex(&bytes).to_lowercase(),
        2 => bytes.iter().map(|b| format!("0x{b:02X}")).collect::<Vec<_>>().join(", "),
        _ => hex(&bytes),
    };
    let input = format!("{} key {:?}", hex(&bytes), key.map(|k| hex(&k)));
    let Some((l, normal)) = low(&bytes) else {
        ctx.class("not a frame");
        return Ok(());
    };
    ctx.class(kind);
    ctx.nontrivial(&(&bytes, &key));
    ctx.sample(|| input.clone());
    let wired = WiredFrame::try_from(bytes.as_slice()).ok();
    let frame = match &wired {
        Some(WiredFrame::SingleCharacter { .. }) => json!({"SingleCharacter": {"character": 0xE5}}),
        Some(WiredFrame::ShortFrame { function: f, .. }) => json!({"ShortFrame": {"function": function(f), "address": address(bytes[2])}}),
        Some(WiredFrame::LongFrame { function: f, .. }) => json!({"LongFrame": {"function": function(f), "address": address(bytes[5])}}),
        Some(WiredFrame::ControlFrame { function: f, .. }) => json!({"ControlFrame": {"function": function(f), "address": address(bytes[5])}}),
        Some(f) => fail!("a kind of frame that is not listed: {f:?}"),
        None => {
            let Ok(f) = WirelessFrame::try_from(normal.as_slice()) else { fail!("wireless frame read and refused") };
            let m = &f.manufacturer_id;
            json!({
                "control_field": normal[1],
                "function": f.function.as_ref().map(function),
                "data": hex(f.data),
                "manufacturer_id": {
                    "manufacturer_code": maker(&m.manufacturer_code),
                    "identification_number": id(&m.identification_number),
                    "device_type": device(m.device_type),
                    "version": normal[8],
                    "is_unique_globally": m.is_unique_globally,
                },
            })
        }
    };
    let u = if matches!(l.kind, "long" | "wireless") { parse_application_layer(&l.payload).ok() } else { None };
    let user = match &u {
        Some(u) => block(u)?,
        None => Value::Null,
    };
    let clear = u.as_ref().and_then(UserDataBlock::data_records);
    let held = match &u {
        Some(
            UserDataBlock::VariableDataStructureWithLongTplHeader { variable_data_block: b, .. }
            | UserDataBlock::VariableDataStructureWithShortTplHeader { variable_data_block: b, .. }
            | UserDataBlock::VariableDataStructureWithoutTplHeader { variable_data_block: b, .. },
        ) => Some(*b),
        _ => None,
    };
    let locked = held.is_some() && clear.is_none();
    let opened = match (&u, key) {
        (Some(u), Some(k)) if locked => decrypted(u, &l, k),
        _ => None,
    };
    let list = match (clear, &opened) {
        (Some(r), _) => Some(r),
        (None, Some(d)) => Some(DataRecords::from(d.as_slice())),
        _ => None,
    };
    let (mut records, mut bad) = (vec![], false);
    for r in list.iter().flat_map(|l| l.clone()) {
        match r {
            Ok(r) => records.push(r),
            Err(_) => {
                bad = true;
                break;
            }
        }
    }
    ctx.class(match (locked, opened.is_some(), list.is_some()) {
        (true, true, _) => "decrypted",
        (true, false, _) => "encrypted",
        (_, _, true) => "records",
        _ => "no record list",
    });

    let mut header = summary(&l, u.as_ref());
    if let Some(w) = &wired {
        let (f, a) = match w {
            WiredFrame::ShortFrame { function: f, .. } => (Some(f), bytes[2]),
            WiredFrame::LongFrame { function: f, .. } | WiredFrame::ControlFrame { function: f, .. } => (Some(f), bytes[5]),
            _ => (None, 0),
        };
        if let Some(f) = f {
            header.insert("function".into(), json!(function_text(f)));
            header.insert("address".into(), json!(address_text(a)));
        }
    }
    // The fields of a header that the extended link layer encrypts are not known.
    let unknown: &[&str] = match &u {
        Some(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer: Some(e), .. }) if e.encryption.is_some() => &["access_number", "status", "security_mode"],
        _ => &[],
    };
    // The byte order of 76h is that of C41.
    let usual = !matches!(&u, Some(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header: h, .. }) if h.lsb_order);
    for (r, m) in records.iter().zip(&model::parse(opened.as_deref().or(held).unwrap_or_default()).records).filter(|_| usual) {
        check_texts(r, m, ctx)?;
    }

    let j: Value = serde_json::from_str(&serialize_mbus_data(&text, "json-legacy", key.as_ref())).map_err(|e| Fail::new(format!("legacy JSON of {input} does not parse: {e}")))?;
    let y: serde_yaml::Value =
        serde_yaml::from_str(&serialize_mbus_data(&text, "yaml-legacy", key.as_ref())).map_err(|e| Fail::new(format!("legacy YAML of {input} does not parse: {e}")))?;
    let y = yaml_to_json(&y);
    for (name, doc) in [("JSON", &j), ("YAML", &y)] {
        let of = |part: &str| format!("legacy {name} of {input}: {part}");
        let keys: Vec<&str> = doc.as_object().map(|o| o.keys().map(String::as_str).collect()).unwrap_or_default();
        ensure!(keys.len() == 4 && ["frame", "user_data", "data_records", "summary"].iter().all(|k| keys.contains(k)), "{}", of(&format!("sections {keys:?}")));
        same(&doc["frame"], &frame, &of("frame"))?;
        same(&doc["user_data"], &user, &of("user_data"))?;
        if list.is_none() {
            ensure!(doc["data_records"].is_null(), "{}", of("data_records of a frame without readable records"));
        } else {
            let Some(got) = doc["data_records"].as_array() else { fail!("{}", of("data_records is no list")) };
            // What the list of a damaged block holds is not said.
            ensure!(bad || got.len() == records.len(), "{}", of(&format!("{} data_records instead of {}", got.len(), records.len())));
            for (i, (g, r)) in got.iter().zip(&records).enumerate() {
                same(g, &record(r)?, &of(&format!("data_records[{i}]")))?;
            }
        }
        let head = &doc["summary"];
        for k in head.as_object().into_iter().flat_map(Map::keys) {
            ensure!(header.contains_key(k) || KEYS.contains(&k.as_str()) || unknown.contains(&k.as_str()), "{}", of(&format!("summary has {k}")));
        }
        for (k, w) in header.iter().filter(|(k, _)| *k != "manufacturer" && !unknown.contains(&k.as_str())) {
            same(head.get(k).unwrap_or(&Value::Null), w, &of(&format!("summary.{k}")))?;
        }
        ensure!(head["manufacturer"]["code"] == header.get("manufacturer").cloned().unwrap_or_default() || header.get("manufacturer") == Some(&Value::Null), "{}", of("summary.manufacturer"));
        ensure!(head["encrypted"] == json!(locked) && head["decrypted"] == json!(opened.is_some()), "{}", of("summary.encrypted and .decrypted"));
        let want: Value = if locked && opened.is_none() { json!(hex(held.unwrap_or_default())) } else { Value::Null };
        ensure!(head["encrypted_payload_hex"] == want, "{}", of(&format!("encrypted payload {} instead of {want}", head["encrypted_payload_hex"])));
        if let Some(code) = head["manufacturer"]["code"].as_str() {
            let mut want = Map::from_iter([("code".to_string(), json!(code))]);
            if let Some(m) = lookup_manufacturer(code) {
                want.extend([("name".to_string(), json!(m.name)), ("website".to_string(), json!(m.website)), ("description".to_string(), json!(m.description))]);
            }
            same(&head["manufacturer"], &Value::Object(want), &of("directory entry"))?;
        }
        let got = head["records"].as_array().map(Vec::as_slice).unwrap_or_default();
        ensure!(got.len() == records.len(), "{}", of(&format!("{} records in the summary instead of {}", got.len(), records.len())));
        for (i, (g, r)) in got.iter().zip(&records).enumerate() {
            same(g, &Value::Object(summed(r)), &of(&format!("summary.records[{i}]")))?;
        }
    }
    let c = serialize_mbus_data(&text, "csv-wide", key.as_ref());
    let rows: Vec<csv::StringRecord> = csv::ReaderBuilder::new()
        .has_headers(false)
        .from_reader(c.as_bytes())
        .records()
        .collect::<Result<_, _>>()
        .map_err(|e| Fail::new(format!("legacy CSV of {input} does not parse: {e}")))?;
    ensure_eq!(rows.len(), 2, "rows of the legacy CSV of {input}");
    let mut names: Vec<String> =
        ["FrameType", "Function", "Address", "Identification Number", "Manufacturer", "Manufacturer Name", "Access Number", "Status", "Security Mode", "Version", "Device Type"].map(String::from).to_vec();
    let cell = |v: &Value| match v {
        Value::Null => String::new(),
        Value::String(t) => t.clone(),
        v => v.to_string(),
    };
    let m = &j["summary"];
    let mut row: Vec<String> = [
        &m["frame_type"],
        &m["function"],
        &m["address"],
        &m["identification_number"],
        &m["manufacturer"]["code"],
        &m["manufacturer"]["name"],
        &m["access_number"],
        &m["status"],
        &m["security_mode"],
        &m["version"],
        &m["device_type"],
    ]
    .map(cell)
    .to_vec();
    for (i, r) in records.iter().enumerate() {
        names.extend([format!("DataPoint{}_Value", i + 1), format!("DataPoint{}_Info", i + 1)]);
        let s = summed(r);
        row.extend([cell(&s["display"]), cell(&s["data_information"])]);
    }
    ensure!(rows[0].iter().eq(names.iter()), "columns of the legacy CSV of {input}: {:?}", rows[0]);
    ensure!(rows[1].iter().eq(row.iter()), "cells of the legacy CSV of {input}: {:?} instead of {row:?}", rows[1]);
    Ok(())
}

pub fn c40_property() -> Property {
    Property {
        id: "C40",
        rule: "counted non-trivial: distinct frames (with their key) whose legacy JSON, YAML and CSV were compared in full with the low-level decode",
        both_builds: false,
        assumptions: &[
            "numbers that are not finite have no JSON form: null in JSON, their YAML form in YAML",
            "what the full record list of a damaged record block holds is not said",
            "how an invalid manufacturer code of a long header is written is not said",
        ],
        parts: vec![Part { name: "documents", kind: Kind::Random { quick: 200_000, thorough: 3_000_000, tape: (20, 350), f: c40 } }],
    }
}
