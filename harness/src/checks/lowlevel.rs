//! C25 (low-level types agree with the canonical output, key store) and
//! C23 (legacy serialisation agrees with the low-level types).

use m_bus_core::decryption::{DecryptionError, EncryptedPayload, KeyContext, KeyProvider, StaticKeyProvider};
use m_bus_core::{DeviceType, ManufacturerCode, SecurityMode};
use m_bus_parser::mbus_data::MbusData;
use m_bus_parser::user_data::data_information::DataType;
use m_bus_parser::user_data::data_record::DataRecord;
use m_bus_parser::user_data::extended_link_layer::ExtendedLinkLayer;
use m_bus_parser::user_data::{parse_application_layer, DataRecords, ShortTplHeader, UserDataBlock};
use m_bus_parser::{decode_hex_bytes, render_hex, serialize_mbus_data, OutputFormat, RenderOptions, WiredFrame, WirelessFrame};
use serde_json::{json, Map, Value};
use wireless_mbus_link_layer::strip_format_a_crcs;

use super::output;
use super::total::{real, FORMATS};
use crate::gen::{self, Frame, Hdr, Link};
use crate::model::{self, Val};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::sut;
use crate::util::{hex, hex_sp};

// ---------------------------------------------------------------- low-level view

/// What the low-level types say about a frame.
pub struct Low {
    pub kind: &'static str,
    pub function: Option<String>,
    pub address: Option<String>,
    pub control: Option<u8>,
    /// (id, manufacturer, version, device text, device code) of the link.
    pub link: Option<(String, String, u8, String, u8)>,
    pub payload: Vec<u8>,
}

/// Reads the link layer as an embedded user does: wired first, then wireless
/// with the CRCs of Format A taken out.
pub fn low(bytes: &[u8]) -> Option<(Low, Vec<u8>)> {
    if let Ok(f) = WiredFrame::try_from(bytes) {
        let mut l = Low { kind: "", function: None, address: None, control: None, link: None, payload: vec![] };
        match f {
            WiredFrame::SingleCharacter { character } => {
                l.kind = "single_character";
                l.payload = vec![];
                if character != 0xE5 {
                    l.kind = "single character other than E5";
                }
            }
            WiredFrame::ShortFrame { function, address } => {
                l.kind = "short";
                (l.function, l.address) = (Some(function.to_string()), Some(address.to_string()));
            }
            WiredFrame::LongFrame { function, address, data } => {
                l.kind = "long";
                (l.function, l.address, l.payload) = (Some(function.to_string()), Some(address.to_string()), data.to_vec());
            }
            WiredFrame::ControlFrame { function, address, data } => {
                l.kind = "control";
                (l.function, l.address, l.payload) = (Some(function.to_string()), Some(address.to_string()), data.to_vec());
            }
            _ => l.kind = "unknown",
        }
        return Some((l, bytes.to_vec()));
    }
    let mut buf = vec![0u8; bytes.len().max(16)];
    let n: Vec<u8> = strip_format_a_crcs(bytes, &mut buf).map(<[u8]>::to_vec).unwrap_or_else(|| bytes.to_vec());
    let f = WirelessFrame::try_from(n.as_slice()).ok()?;
    let m = &f.manufacturer_id;
    let l = Low {
        kind: "wireless",
        function: f.function.map(|x| x.to_string()),
        address: None,
        control: Some(f.control_field),
        link: Some((m.identification_number.to_string(), m.manufacturer_code.to_string(), m.version, m.device_type.to_string(), m.device_type.into())),
        payload: f.data.to_vec(),
    };
    Some((l, n))
}

fn link_value(l: &(String, String, u8, String, u8)) -> Value {
    json!({"source": "link.wireless", "id": l.0, "manufacturer_code": l.1, "version": l.2, "device_type": l.3, "device_type_code": l.4})
}

fn short_into(v: &mut Map<String, Value>, source: &str, h: &ShortTplHeader) {
    v.insert("access_numbers".into(), json!([{"source": source, "value": h.access_number}]));
    v.insert("statuses".into(), json!([{"source": source, "raw": format!("{:02X}", h.status.bits()), "display": h.status.to_string()}]));
    v.insert("configuration".into(), json!({"source": source, "raw": format!("{:04X}", h.configuration_field.raw())}));
}

fn ell_into(v: &mut Map<String, Value>, e: &ExtendedLinkLayer) {
    let mut m = Map::new();
    m.insert("communication_control".into(), format!("{:02X}", e.communication_control).into());
    m.insert("access_number".into(), e.access_number.into());
    if let Some(r) = &e.receiver_address {
        m.insert("receiver_manufacturer".into(), format!("{:04X}", r.manufacturer).into());
        m.insert("receiver_address".into(), hex(&r.address).into());
    }
    if let Some(c) = &e.encryption {
        m.insert("session_number".into(), hex(&c.session_number).into());
        m.insert("payload_crc".into(), format!("{:04X}", c.payload_crc).into());
    }
    v.insert("ell".into(), m.into());
}

/// Meter and transport sections as the low-level user data says them.
fn sections(l: &Low, u: Option<&UserDataBlock<'_>>) -> (Value, Value) {
    let mut t = Map::new();
    let mut header = None;
    match u {
        Some(UserDataBlock::VariableDataStructureWithLongTplHeader { extended_link_layer, long_tpl_header: h, .. }) => {
            let mut i = json!({"source": "tpl.long", "id": h.identification_number.to_string(), "version": h.version,
                "device_type": h.device_type.to_string(), "device_type_code": u8::from(h.device_type)});
            if let Ok(m) = &h.manufacturer {
                i["manufacturer_code"] = m.to_string().into();
            }
            header = Some(i);
            short_into(&mut t, "tpl.long", &h.short_tpl_header);
            t.insert("header_kind".into(), "long_tpl".into());
            if let Some(e) = extended_link_layer {
                ell_into(&mut t, e);
            }
        }
        Some(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, .. }) => {
            let protected = extended_link_layer.as_ref().is_some_and(|e| e.encryption.is_some());
            if !protected {
                short_into(&mut t, "tpl.short", short_tpl_header);
                t.insert("header_kind".into(), "short_tpl".into());
            }
            if let Some(e) = extended_link_layer {
                ell_into(&mut t, e);
            }
        }
        Some(UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer, .. }) => {
            if let Some(e) = extended_link_layer {
                ell_into(&mut t, e);
                t.insert("access_numbers".into(), json!([{"source": "ell", "value": e.access_number}]));
            }
            t.insert("header_kind".into(), if extended_link_layer.is_some() { "ell" } else { "none" }.into());
        }
        Some(UserDataBlock::FixedDataStructure { identification_number, access_number, status, device_type_and_unit, .. }) => {
            header = Some(json!({"source": "application.fixed", "id": identification_number.to_string(), "device_type": format!("fixed type/unit 0x{device_type_and_unit:04X}")}));
            t.insert("access_numbers".into(), json!([{"source": "application.fixed", "value": access_number}]));
            t.insert("statuses".into(), json!([{"source": "application.fixed", "raw": format!("{:02X}", status.bits()), "display": status.to_string()}]));
            t.insert("header_kind".into(), "fixed".into());
        }
        Some(UserDataBlock::ResetAtApplicationLevel { .. }) => {
            t.insert("header_kind".into(), "application_reset".into());
        }
        _ => {}
    }
    let mut m = Map::new();
    match (header, l.link.as_ref().map(link_value)) {
        (Some(h), Some(k)) => {
            m.insert("identity".into(), h);
            m.insert("alternate_identities".into(), json!([k]));
        }
        (Some(x), None) | (None, Some(x)) => {
            m.insert("identity".into(), x);
        }
        _ => {}
    }
    (m.into(), t.into())
}

/// Fields of a section that both sides must agree on.
fn same_fields(what: &str, low: &Value, canonical: &Value, names: &[&str], input: &str) -> CheckResult {
    for n in names {
        ensure_eq!(low[*n], canonical[*n], "{what} {n} of the low-level types against the canonical output of {input}");
    }
    Ok(())
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

/// Compares one low-level record with its canonical counterpart.
fn same_record(r: &DataRecord<'_>, c: &Value, input: &str) -> CheckResult {
    let i = &c["index"];
    ensure_eq!(r.data_record_header_hex(), c["header_hex"].as_str().unwrap_or("?"), "header bytes of record {i} in {input}");
    ensure_eq!(r.data_hex(), c["data_hex"].as_str().unwrap_or("?"), "data bytes of record {i} in {input}");
    ensure_eq!(r.get_size(), r.raw_bytes().len(), "size of record {i} in {input}");
    let hexes = [c["header_hex"].as_str().unwrap_or(""), c["data_hex"].as_str().unwrap_or("")];
    let whole = hexes.iter().filter(|h| !h.is_empty()).copied().collect::<Vec<_>>().join(" ");
    ensure_eq!(hex_sp(r.raw_bytes()), whole, "bytes of record {i} in {input}");
    match r.data_information() {
        Some(d) => {
            ensure_eq!(json!(d.storage_number), c["storage_number"], "storage number of record {i} in {input}");
            ensure_eq!(json!(d.tariff), c["tariff"], "tariff of record {i} in {input}");
            ensure_eq!(json!(d.device), c["subunit"], "subunit of record {i} in {input}");
        }
        None => ensure!(c.get("storage_number").is_none_or(|x| *x == json!(0) || x.is_null()), "record {i} in {input}: the low-level record has no data information, the canonical one has storage {}", c["storage_number"]),
    }
    match (r.value(), c["value"]["kind"].as_str().unwrap_or("?")) {
        (Some(DataType::Number(n)) | Some(DataType::LossyNumber(n)), "decimal") => {
            let Some(v) = r.value_information() else { fail!("record {i} in {input}: number without value information") };
            let t = c["value"]["value"].as_str().unwrap_or("?");
            let Ok(x) = t.parse::<f64>() else { fail!("record {i} in {input}: canonical decimal {t:?} is not a number") };
            // Additive corrections (extensions 78h..7Bh) are added by the canonical output only.
            let additive = r.raw_bytes()[..r.data_record_header.get_size()].iter().skip(2).any(|b| matches!(b & 0x7F, 0x78..=0x7B));
            if v.decimal_offset_exponent == 0 && !additive {
                let mine = n * 10f64.powi(v.decimal_scale_exponent as i32);
                // The powers overflow and underflow outside this range.
                if x == 0.0 || (1e-200..1e200).contains(&x.abs()) {
                    ensure!(close(mine, x), "record {i} in {input}: low-level {n} x 10^{} against canonical {t}", v.decimal_scale_exponent);
                }
            }
        }
        (Some(DataType::Number(_)) | Some(DataType::LossyNumber(_)), "float" | "number" | "real" | "unknown" | "non_finite") => {}
        (Some(DataType::Number(n)) | Some(DataType::LossyNumber(n)), k) => fail!("record {i} in {input}: low-level number {n}, canonical kind {k}"),
        (Some(DataType::Text(t)), k) => {
            ensure_eq!(k, "text", "kind of record {i} in {input}");
            ensure_eq!(json!(t.to_string()), c["value"]["value"], "text of record {i} in {input}");
        }
        (Some(DataType::ManufacturerSpecific(_)), k) => ensure_eq!(k, "manufacturer_specific", "kind of record {i} in {input}"),
        (Some(_), k) => ensure!(!matches!(k, "decimal" | "text" | "none"), "record {i} in {input}: low-level {:?}, canonical kind {k}", r.value()),
        (None, k) => ensure!(matches!(k, "none" | "unknown"), "record {i} in {input}: no low-level value, canonical kind {k}"),
    }
    Ok(())
}

fn same_records(records: DataRecords<'_>, canonical: &[Value], damaged: bool, input: &str) -> CheckResult {
    let mut n = 0;
    let mut bad = false;
    for r in records {
        match r {
            Ok(r) => {
                ensure!(!bad, "records follow a record that failed in {input}");
                let Some(c) = canonical.get(n) else { fail!("low-level record {n} ({}) has no canonical counterpart in {input}", hex_sp(r.raw_bytes())) };
                same_record(&r, c, input)?;
                n += 1;
            }
            Err(_) => bad = true,
        }
    }
    ensure_eq!(n, canonical.len(), "number of low-level records of {input}");
    ensure_eq!(bad, damaged, "low-level record error of {input}");
    Ok(())
}

/// Raw numbers of the records against the reference model.
fn model_numbers(records: DataRecords<'_>, block: &[u8], input: &str) -> Result<usize, Fail> {
    let p = model::parse(block);
    let mut n = 0;
    let mut offset = 0;
    for (r, m) in records.zip(&p.records) {
        let Ok(r) = r else { fail!("low-level record at {} of {input} failed, the model reads it", m.offset) };
        ensure_eq!(r.raw_bytes(), m.bytes().as_slice(), "bytes of the record at {} of {input}", m.offset);
        ensure!(m.offset >= offset, "model order");
        offset = m.offset;
        let (Some(d), false) = (r.data_information(), m.special()) else { continue };
        if let Some(x) = m.storage {
            ensure_eq!(d.storage_number, x, "storage number of the record at {} of {input}", m.offset);
        }
        ensure_eq!((d.tariff, d.device), (m.tariff, m.subunit), "tariff and subunit of the record at {} of {input}", m.offset);
        if matches!(m.value, Val::Open) {
            continue;
        }
        if let (Some(t), Some(DataType::Number(x) | DataType::LossyNumber(x))) = (&m.significand, r.value()) {
            let want: f64 = t.parse().unwrap();
            ensure!(*x == want || (x - want).abs() <= 1e-12 * want.abs(), "raw number of the record at {} of {input}: {x}, encoded {t}", m.offset);
            n += 1;
        }
        if let (Val::Float(bits), Some(DataType::Number(x) | DataType::LossyNumber(x))) = (&m.value, r.value()) {
            let want = f64::from(f32::from_bits(*bits));
            ensure!(*x == want || (x.is_nan() && want.is_nan()), "raw number of the record at {} of {input}: {x}, encoded {want}", m.offset);
            n += 1;
        }
    }
    Ok(n)
}

struct Sample {
    bytes: Vec<u8>,
    frame: Option<Frame>,
    kind: &'static str,
}

fn sample(s: &mut Source) -> Sample {
    match s.weighted(&[8, 6, 3, 2]) {
        0 => {
            let f = gen::clear_frame(s, &gen::FULL, 8);
            Sample { bytes: f.bytes(), frame: Some(f), kind: "records" }
        }
        1 => {
            let f = gen::any_frame(s, &gen::FULL, 5);
            Sample { bytes: f.bytes(), frame: Some(f), kind: "any header" }
        }
        2 => {
            let i = output::input(s);
            Sample { bytes: i.bytes, frame: None, kind: i.kind }
        }
        _ => Sample { bytes: s.pick(real()).clone(), frame: None, kind: "captured frame" },
    }
}

fn c25_frames(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let x = sample(s);
    ctx.class(x.kind);
    compare(&x.bytes, x.frame.as_ref(), ctx)
}

fn compare(bytes: &[u8], frame: Option<&Frame>, ctx: &mut Ctx) -> CheckResult {
    let input = hex(bytes);
    let l = low(bytes);
    let c = match sut::decode(bytes, None) {
        Ok(c) => c,
        Err(e) => {
            ctx.class("refused");
            ensure!(e.code() != "frame.invalid" || l.is_none(), "the low-level types read {input}, the canonical decode refuses it: {e}");
            return Ok(());
        }
    };
    let Some((l, normal)) = l else { fail!("the canonical decode reads {input}, the low-level types do not") };
    ctx.nontrivial(&input);
    ctx.class(l.kind);
    ctx.sample(|| input.clone());
    let f = &c["frame"];
    ensure_eq!(f["kind"], json!(l.kind), "frame kind of {input}");
    let text = |t: &Option<String>| t.as_ref().map_or(Value::Null, |t| json!(t));
    // The two sides spell functions differently; both name one or neither does.
    ensure_eq!(f["function"].is_null(), l.function.is_none(), "function of {input} missing");
    ensure_eq!(f["address"], text(&l.address), "address of {input}");
    ensure_eq!(f["control_field"], l.control.map_or(Value::Null, |c| json!(format!("{c:02X}"))), "control field of {input}");
    ensure_eq!(c["protocol"], json!(if l.kind == "wireless" { "wireless" } else { "wired" }), "protocol of {input}");

    // A frame without user data has no application layer to read.
    let reads_user_data = matches!(l.kind, "long" | "wireless");
    let parsed = if reads_user_data { Some(parse_application_layer(&l.payload)) } else { None };
    let partial = c["diagnostics"].as_array().is_some_and(|d| d.iter().any(|x| x["code"] == "application.partial"));
    ensure_eq!(partial, matches!(parsed, Some(Err(_))), "whether the user data of {input} is refused");
    let u = parsed.and_then(Result::ok);
    let (meter, transport) = sections(&l, u.as_ref());
    same_fields("meter", &meter, &c["meter"], &["identity"], &input)?;
    // One frame has one alternate identity: the other header.
    if meter.get("alternate_identities").is_some() {
        ensure_eq!(meter["alternate_identities"], c["meter"]["alternate_identities"], "alternate identity of {input}");
    }
    let protected = matches!(&u, Some(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer: Some(e), .. }) if e.encryption.is_some());
    if u.is_some() {
        same_fields("transport", &transport, &c["transport"], if protected { &["ell"] } else { &["header_kind", "access_numbers", "statuses", "configuration", "ell"] }, &input)?;
    }

    // Records.
    let damaged = c["diagnostics"].as_array().is_some_and(|d| d.iter().any(|x| x["code"] == "application.record_partial"));
    let canonical = sut::records(&c);
    let encrypted = c["security"]["payload_protection"] == "encrypted";
    match u.as_ref().and_then(UserDataBlock::data_records) {
        Some(r) => {
            ensure!(!encrypted, "the low-level user data exposes records of the encrypted frame {input}");
            same_records(r, canonical, damaged, &input)?;
            ctx.class("records compared");
        }
        None => {
            // Only structures without records and encrypted ones expose none.
            let variable = matches!(
                u,
                Some(
                    UserDataBlock::VariableDataStructureWithLongTplHeader { .. }
                        | UserDataBlock::VariableDataStructureWithShortTplHeader { .. }
                        | UserDataBlock::VariableDataStructureWithoutTplHeader { .. }
                )
            );
            ensure!(canonical.is_empty() && (encrypted || !variable), "the low-level user data exposes no records of {input}, the canonical output has {}", canonical.len());
        }
    }
    let mbus_records = |r: Option<DataRecords<'_>>| -> CheckResult {
        match r {
            Some(r) if !encrypted => {
                let all: Vec<DataRecord<'_>> = r.clone().into();
                let good = r.clone().all(|x| x.is_ok());
                ensure_eq!(all.len(), if good { r.clone().count() } else { 0 }, "records of {input} collected");
                for (a, b) in all.iter().zip(r.clone().flatten()) {
                    ensure_eq!(a.raw_bytes(), b.raw_bytes(), "records of {input} collected");
                }
                same_records(r, canonical, damaged, &input)
            }
            Some(_) => Ok(()),
            None => {
                ensure!(canonical.is_empty(), "MbusData exposes no records of {input}, the canonical output has {}", canonical.len());
                Ok(())
            }
        }
    };
    if l.kind == "wireless" {
        let m = MbusData::<WirelessFrame>::try_from(normal.as_slice()).map_err(|e| Fail::new(format!("MbusData refuses {input}: {e}")))?;
        ensure_eq!(m.user_data, u, "user data of MbusData for {input}");
        ensure_eq!(m.application_error.is_some(), partial, "application error of MbusData for {input}");
        mbus_records(m.data_records)?;
    } else {
        let m = MbusData::<WiredFrame>::try_from(normal.as_slice()).map_err(|e| Fail::new(format!("MbusData refuses {input}: {e}")))?;
        ensure_eq!(m.user_data, u, "user data of MbusData for {input}");
        ensure_eq!(m.application_error.is_some(), partial, "application error of MbusData for {input}");
        mbus_records(m.data_records)?;
    }

    // Constructed frames: raw numbers, counters and lengths as encoded.
    let (Some(f), Some(u)) = (frame, &u) else { return Ok(()) };
    if f.ambiguous() {
        return Ok(());
    }
    if let (Link::Wired { c: 0x53, .. }, _) = (&f.link, ()) {
        return Ok(());
    }
    if let Hdr::Fixed { counters, status, .. } = &f.hdr {
        if let UserDataBlock::FixedDataStructure { counter1, counter2, .. } = u {
            if status & 1 == 0 {
                for (got, want) in [(counter1, counters[0]), (counter2, counters[1])] {
                    let digits: String = want.iter().rev().map(|b| format!("{b:02X}")).collect();
                    ensure_eq!(got.to_string(), digits, "counter of the fixed structure in {input}");
                }
                ctx.class("fixed counters compared");
            }
        }
    }
    if f.hdr.carries_records() {
        ensure_eq!(u.variable_data_len(), f.block.len(), "length of the data block of {input}");
        if let Some(r) = u.data_records() {
            let n = model_numbers(r, &f.block, &input)?;
            if n > 0 {
                ctx.class("raw numbers compared with the encoded ones");
            }
        }
    }
    Ok(())
}

/// Decrypting through the low-level types with a key store gives the records
/// of the canonical decode with that key.
fn c25_decrypt(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let ident = gen::ident(s);
    let mut sh = gen::short(s);
    let mode = *s.pick(&[5u8, 7]);
    let mut clear = gen::block(s, &gen::FULL, 5, 200);
    clear.resize(clear.len().div_ceil(16).max(1) * 16, 0x2F);
    sh.conf = [((clear.len() / 16).min(15) as u8) << 4, mode];
    let key: [u8; 16] = s.bytes(16).try_into().unwrap();
    let short = s.chance(1, 3);
    let others = s.below(4);
    let decoys: Vec<gen::Ident> = (0..others).map(|_| near(s, &ident)).filter(|d| (d.man, d.id) != (ident.man, ident.id)).collect();
    let at = s.below(decoys.len() + 1);
    let missing = s.chance(1, 6);
    let block = gen::encrypt(mode, &key, &ident, sh.access, &clear);
    let (link, hdr) = if short {
        (Link::Wireless { c: 0x44, ident: ident.clone(), layout: *s.pick(&gen::LAYOUTS) }, Hdr::Short(0x7A, sh))
    } else {
        (gen::link(s), Hdr::Long(ident.clone(), sh))
    };
    let f = Frame { link, hdr, block };
    if f.ambiguous() || matches!(f.link, Link::Wired { c: 0x53, .. }) {
        ctx.class("left out (ambiguous or control frame)");
        return Ok(());
    }
    let bytes = f.bytes();
    let input = format!("{} with key {}", hex(&bytes), hex(&key));
    ctx.class(if short { "short header" } else { "long header" });
    ctx.nontrivial(&bytes);
    let mut store = StaticKeyProvider::<6>::new();
    for (i, d) in decoys.iter().enumerate() {
        if i == at && !missing {
            add(&mut store, &ident, key)?;
        }
        add(&mut store, d, [i as u8; 16])?;
    }
    if at >= decoys.len() && !missing {
        add(&mut store, &ident, key)?;
    }
    let Some((l, _)) = low(&bytes) else { fail!("the low-level types refuse {input}") };
    let u = parse_application_layer(&l.payload).map_err(|e| Fail::new(format!("user data of {input}: {e}")))?;
    let mut out = vec![0u8; u.variable_data_len()];
    let got = if short {
        let man = ManufacturerCode::from_id(u16::from_le_bytes(ident.man)).map_err(|e| Fail::new(format!("manufacturer of {input}: {e}")))?;
        u.decrypt_variable_data_with_context(&store, man, ident.digits().parse().unwrap(), ident.version, DeviceType::from(ident.device), &mut out)
    } else {
        u.decrypt_variable_data(&store, &mut out)
    };
    if missing {
        ctx.class("key not registered");
        ensure_eq!(got, Err(DecryptionError::KeyNotFound), "decryption without a registered key of {input}");
        return Ok(());
    }
    let n = got.map_err(|e| Fail::new(format!("decryption of {input}: {e}")))?;
    ensure_eq!(out[..n], clear[..], "decrypted bytes of {input}");
    let c = sut::decode(&bytes, Some(key)).map_err(|e| Fail::new(format!("canonical decode of {input}: {e}")))?;
    let damaged = c["diagnostics"].as_array().is_some_and(|d| d.iter().any(|x| x["code"] == "application.record_partial"));
    same_records(DataRecords::from(&out[..n]), sut::records(&c), damaged, &input)
}

/// An identity that differs from the given one in a single bit or field.
fn near(s: &mut Source, i: &gen::Ident) -> gen::Ident {
    let mut d = i.clone();
    match s.below(4) {
        0 => {
            let k = s.below(4);
            d.id[k] = gen::bcd(s, 1)[0];
        }
        1 => d.man = gen::ident(s).man,
        2 => d.id = [i.id[1], i.id[0], i.id[2], i.id[3]],
        _ => d = gen::ident(s),
    }
    d
}

fn add<const N: usize>(store: &mut StaticKeyProvider<N>, i: &gen::Ident, key: [u8; 16]) -> CheckResult {
    store.add_key(u16::from_le_bytes(i.man), i.digits().parse().unwrap(), key).map_err(|e| Fail::new(format!("key of {} refused: {e}", i.digits())))
}

// ---------------------------------------------------------------- key store

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Op {
    Add(usize, u8),
    Get(usize, u8),
    Decrypt(usize),
}

fn store_history<const N: usize>(ids: &[(u16, u32)], ops: &[Op]) -> CheckResult {
    let shown = || format!("capacity {N}, identities {ids:04X?}, calls {ops:?}");
    let mut store = StaticKeyProvider::<N>::new();
    let mut model: Vec<((u16, u32), [u8; 16])> = vec![];
    let ctx_of = |i: usize, other: u8| {
        let (m, id) = ids[i];
        KeyContext {
            manufacturer: ManufacturerCode::from_id(m).expect("generated code is valid"),
            identification_number: id,
            version: other,
            device_type: DeviceType::from(other.wrapping_mul(7)),
            security_mode: if other & 1 == 0 { SecurityMode::AesCbc128IvNonZero } else { SecurityMode::AesCbc128IvZero },
            access_number: other ^ 0x55,
        }
    };
    for (step, op) in ops.iter().enumerate() {
        match *op {
            Op::Add(i, k) => {
                let (m, id) = ids[i];
                let key = [k ^ step as u8; 16];
                let got = store.add_key(m, id, key);
                if model.len() < N {
                    ensure!(got.is_ok(), "call {step} refused with {} of {N} keys registered: {got:?}; {}", model.len(), shown());
                    model.push((ids[i], key));
                } else {
                    ensure!(got.is_err(), "call {step} accepted a key beyond the capacity; {}", shown());
                }
            }
            Op::Get(i, other) => {
                let got = store.get_key(&ctx_of(i, other)).map(<[u8]>::to_vec);
                let keys: Vec<&[u8; 16]> = model.iter().filter(|(id, _)| *id == ids[i]).map(|(_, k)| k).collect();
                match (&got, keys.as_slice()) {
                    (Err(DecryptionError::KeyNotFound), []) => {}
                    (Ok(k), [_, ..]) if keys.iter().any(|x| x.as_slice() == k.as_slice()) => {}
                    _ => fail!("call {step} gives {got:02X?}, registered for this identity: {keys:02X?}; {}", shown()),
                }
            }
            Op::Decrypt(i) => {
                let keys: Vec<&[u8; 16]> = model.iter().filter(|(id, _)| *id == ids[i]).map(|(_, k)| k).collect();
                let context = KeyContext { security_mode: SecurityMode::AesCbc128IvZero, ..ctx_of(i, 2) };
                let clear = [0x2Fu8; 32];
                let data = keys.first().map_or(vec![0; 32], |k| crate::util::aes_cbc_encrypt(k, &[0; 16], &clear));
                let mut out = [0u8; 32];
                let got = EncryptedPayload::new(&data, context).decrypt_into(&store, &mut out);
                match keys.as_slice() {
                    [] => ensure_eq!(got, Err(DecryptionError::KeyNotFound), "call {step}, no key registered; {}", shown()),
                    [_] => ensure!(got == Ok(32) && out == clear, "call {step} gives {got:?} {out:02X?}; {}", shown()),
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

fn c25_store(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let n = s.range(1, 8);
    let count = s.range(1, 6);
    let mut ids: Vec<(u16, u32)> = vec![];
    for _ in 0..count {
        let fresh = (u16::from_le_bytes(gen::ident(s).man), if s.chance(1, 4) { s.raw() } else { s.raw() % 100_000_000 });
        let id = match (ids.last().copied(), s.below(5)) {
            (Some((m, i)), 1) => (m, i ^ (1 << s.below(32))),
            (Some((_, i)), 2) => (fresh.0, i),
            (Some((m, _)), 3) => (m, fresh.1),
            // Identities whose concatenations are close to each other.
            (Some((m, i)), 4) => {
                let shift = s.range(1, 16);
                let m2 = m.rotate_left(shift as u32) & 0x7FFF;
                (if gen::manufacturer_letters(m2).is_some() { m2 } else { fresh.0 }, i.rotate_left(shift as u32))
            }
            _ => fresh,
        };
        ids.push(id);
    }
    let len = s.range(1, 24);
    let ops: Vec<Op> = (0..len)
        .map(|_| {
            let i = s.below(count);
            match s.weighted(&[3, 4, 1]) {
                0 => Op::Add(i, s.byte()),
                1 => Op::Get(i, s.byte()),
                _ => Op::Decrypt(i),
            }
        })
        .collect();
    ctx.class(&format!("capacity {n}"));
    if ops.iter().filter(|o| matches!(o, Op::Add(..))).count() > n {
        ctx.class("more keys than the capacity");
    }
    ctx.nontrivial(&(n, &ids, &ops));
    ctx.sample(|| format!("capacity {n}, {ids:04X?}, {ops:?}"));
    match n {
        1 => store_history::<1>(&ids, &ops),
        2 => store_history::<2>(&ids, &ops),
        3 => store_history::<3>(&ids, &ops),
        4 => store_history::<4>(&ids, &ops),
        5 => store_history::<5>(&ids, &ops),
        6 => store_history::<6>(&ids, &ops),
        7 => store_history::<7>(&ids, &ops),
        _ => store_history::<8>(&ids, &ops),
    }
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        rule: "counted non-trivial: distinct frames that decode and whose low-level view was compared, distinct encrypted frames, distinct key store histories",
        both_builds: false,
        assumptions: &[
            "which of several keys registered for one identity is returned is not said; it must be one of them",
            "numbers of records with an additive correction are compared only unscaled, with the reference model",
        ],
        parts: vec![
            Part { name: "frames", kind: Kind::Random { quick: 600_000, thorough: 8_000_000, tape: (20, 400), f: c25_frames } },
            Part { name: "decryption", kind: Kind::Random { quick: 200_000, thorough: 3_000_000, tape: (20, 250), f: c25_decrypt } },
            Part { name: "key store", kind: Kind::Random { quick: 400_000, thorough: 5_000_000, tape: (10, 120), f: c25_store } },
        ],
    }
}

// ---------------------------------------------------------------- C23

const NAMES: &[(&str, OutputFormat)] = &[
    ("json", OutputFormat::Json),
    ("yaml", OutputFormat::Yaml),
    ("yml", OutputFormat::Yaml),
    ("table", OutputFormat::Table),
    ("table_format", OutputFormat::Table),
    ("csv", OutputFormat::Csv),
    ("mermaid", OutputFormat::Mermaid),
    ("xml", OutputFormat::Xml),
    ("annotated", OutputFormat::Annotated),
    ("hexview", OutputFormat::Annotated),
    ("annotated-text", OutputFormat::AnnotatedText),
];

fn c23_canonical(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let text;
    let mut key = None;
    match s.below(4) {
        0 => text = super::total::any_text(s),
        1 => {
            let b = s.pick(real());
            text = output::spell(s, b);
        }
        _ => {
            let i = output::input(s);
            key = i.key;
            text = output::spell(s, &i.bytes);
        }
    }
    if s.chance(1, 12) {
        key = Some([9; 16]);
    }
    let (name, format) = *s.pick(NAMES);
    let spelled = match s.below(6) {
        0 => name.to_uppercase(),
        1 => format!(" {name}\n"),
        _ => name.to_string(),
    };
    ctx.class(name);
    ctx.nontrivial(&(text.as_str(), name));
    ctx.sample(|| format!("{text:?} as {spelled:?}"));
    let got = serialize_mbus_data(&text, &spelled, key.as_ref());
    match render_hex(&text, format, &RenderOptions { decode: sut::options(key, true), table_width: Some(100) }) {
        Ok(want) => ensure_eq!(got, want, "{spelled:?} of {text:?}"),
        Err(e) => {
            ctx.class("error");
            ensure!(got.contains(e.code()), "{spelled:?} of {text:?}: {got:?} does not name {}", e.code());
            ensure!(got.trim_end_matches('\n').lines().count() == 1, "{spelled:?} of {text:?}: {got:?} is not one line");
            ensure!(got.starts_with("Error"), "{spelled:?} of {text:?}: {got:?} is no error text");
        }
    }
    Ok(())
}


fn c23_unknown(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let name = super::total::any_format(s);
    let t = name.trim().to_lowercase();
    if NAMES.iter().any(|(n, _)| *n == t) || super::total::LEGACY.contains(&t.as_str()) || FORMATS.iter().any(|f| f.as_str() == t) {
        ctx.class("known name");
        return Ok(());
    }
    let text = super::total::any_text(s);
    ctx.nontrivial(&(name.as_str(), text.as_str()));
    let got = serialize_mbus_data(&text, &name, None);
    ensure!(got.contains("format.unsupported"), "format {name:?} gives {got:?}");
    Ok(())
}

/// Summary fields that the low-level types imply.
pub fn summary(l: &Low, u: Option<&UserDataBlock<'_>>) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert(
        "frame_type".into(),
        match l.kind {
            "long" => "LongFrame",
            "short" => "ShortFrame",
            "control" => "ControlFrame",
            "single_character" => "SingleCharacter",
            _ => "Wireless",
        }
        .into(),
    );
    let mut set = |k: &str, v: Value| m.insert(k.into(), v);
    if let Some(f) = &l.function {
        set("function", f.clone().into());
    }
    if let Some(a) = &l.address {
        set("address", a.clone().into());
    }
    if let Some((id, man, version, device, _)) = &l.link {
        set("identification_number", id.clone().into());
        set("manufacturer", man.clone().into());
        set("version", (*version).into());
        set("device_type", device.clone().into());
    }
    match u {
        Some(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header: h, .. }) => {
            set("identification_number", h.identification_number.to_string().into());
            set("manufacturer", h.manufacturer.as_ref().map_or(Value::Null, |m| m.to_string().into()));
            set("version", h.version.into());
            set("device_type", h.device_type.to_string().into());
            set("access_number", h.short_tpl_header.access_number.into());
            set("status", h.short_tpl_header.status.to_string().into());
            set("security_mode", h.short_tpl_header.configuration_field.security_mode().to_string().into());
        }
        Some(UserDataBlock::VariableDataStructureWithShortTplHeader { short_tpl_header: h, extended_link_layer, .. }) => {
            // The fields of a header that the extended link layer encrypts are not known.
            if extended_link_layer.as_ref().is_none_or(|e| e.encryption.is_none()) {
                set("access_number", h.access_number.into());
                set("status", h.status.to_string().into());
                set("security_mode", h.configuration_field.security_mode().to_string().into());
            }
        }
        Some(UserDataBlock::FixedDataStructure { identification_number, access_number, status, .. }) => {
            set("identification_number", identification_number.to_string().into());
            set("access_number", (*access_number).into());
            set("status", status.to_string().into());
        }
        _ => {}
    }
    m
}

struct Rec {
    header: String,
    data: String,
    number: Option<f64>,
    exponent: Option<i64>,
}

fn recs(records: DataRecords<'_>) -> (Vec<Rec>, bool) {
    let mut out = vec![];
    for r in records {
        let Ok(r) = r else { return (out, true) };
        out.push(Rec {
            header: r.data_record_header_hex(),
            data: r.data_hex(),
            number: match r.value() {
                Some(DataType::Number(n) | DataType::LossyNumber(n)) => Some(*n),
                _ => None,
            },
            exponent: r.value_information().map(|v| v.decimal_scale_exponent as i64),
        });
    }
    (out, false)
}

fn near_equal(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 4.0 * f64::EPSILON * a.abs() || (a.is_nan() && b.is_nan())
}

const SUMMARY: [&str; 9] = ["frame_type", "function", "address", "identification_number", "access_number", "status", "security_mode", "version", "device_type"];

fn check_summary(what: &str, got: &Value, want: &Map<String, Value>, records: &[Rec], known: &[&str], input: &str) -> CheckResult {
    for k in known {
        ensure_eq!(got[*k], *want.get(*k).unwrap_or(&Value::Null), "{what} {k} of {input}");
    }
    match want.get("manufacturer") {
        Some(Value::String(m)) => ensure_eq!(got["manufacturer"]["code"], json!(m), "{what} manufacturer of {input}"),
        Some(_) => {}
        None => ensure!(got.get("manufacturer").is_none_or(Value::is_null), "{what} names a manufacturer for {input}"),
    }
    let got_records = got["records"].as_array().map(Vec::as_slice).unwrap_or(&[]);
    ensure_eq!(got_records.len(), records.len(), "number of {what} records of {input}");
    for (i, (g, w)) in got_records.iter().zip(records).enumerate() {
        ensure_eq!(g["header_hex"], json!(w.header), "{what} header of record {i} of {input}");
        ensure_eq!(g["data_hex"], json!(w.data), "{what} data of record {i} of {input}");
        match w.number {
            Some(n) if n.is_finite() => ensure!(g["value"].as_f64().is_some_and(|x| near_equal(x, n)), "{what} value of record {i} of {input}: {} for {n}", g["value"]),
            Some(_) => {}
            None => ensure!(g.get("value").is_none_or(Value::is_null), "{what} record {i} of {input} has the number {}, its data is none", g["value"]),
        }
        if let Some(e) = w.exponent {
            ensure_eq!(g["exponent"], json!(e), "{what} exponent of record {i} of {input}");
        }
    }
    Ok(())
}

pub fn yaml_to_json(v: &serde_yaml::Value) -> Value {
    use serde_yaml::Value as Y;
    match v {
        Y::Null => Value::Null,
        Y::Bool(b) => json!(b),
        Y::Number(n) => n.as_u64().map(|x| json!(x)).or_else(|| n.as_i64().map(|x| json!(x))).unwrap_or_else(|| json!(n.as_f64())),
        Y::String(t) => json!(t),
        Y::Sequence(a) => a.iter().map(yaml_to_json).collect(),
        Y::Mapping(m) => Value::Object(m.iter().map(|(k, v)| (k.as_str().map_or_else(|| format!("{k:?}"), str::to_string), yaml_to_json(v))).collect()),
        Y::Tagged(t) => json!({t.tag.to_string().trim_start_matches('!'): yaml_to_json(&t.value)}),
    }
}

fn c23_legacy(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (bytes, key, kind) = match s.weighted(&[6, 4, 4, 2]) {
        0 => (gen::clear_frame(s, &gen::FULL, 8).bytes(), None, "records"),
        1 => (gen::any_frame(s, &gen::TEXTY, 5).bytes(), None, "any header"),
        2 => {
            let i = output::input(s);
            (i.bytes, i.key, i.kind)
        }
        _ => (s.pick(real()).clone(), None, "captured frame"),
    };
    legacy(&bytes, key, kind, s.below(4), ctx)
}

fn legacy(bytes: &[u8], key: Option<[u8; 16]>, kind: &str, spelling: usize, ctx: &mut Ctx) -> CheckResult {
    // Spellings that the legacy reader documents by its tests.
    let text = match spelling {
        0 => hex_sp(bytes),
        1 => hex(bytes).to_lowercase(),
        2 => bytes.iter().map(|b| format!("0x{b:02X}")).collect::<Vec<_>>().join(", "),
        _ => hex(bytes),
    };
    let input = format!("{} key {:?}", hex(bytes), key.map(|k| hex(&k)));
    let j = serialize_mbus_data(&text, "json-legacy", key.as_ref());
    let y = serialize_mbus_data(&text, "yaml-legacy", key.as_ref());
    let c = serialize_mbus_data(&text, "csv-wide", key.as_ref());
    let parsed: Value = serde_json::from_str(&j).map_err(|e| Fail::new(format!("legacy JSON of {input} does not parse: {e}")))?;
    let yaml: serde_yaml::Value = serde_yaml::from_str(&y).map_err(|e| Fail::new(format!("legacy YAML of {input} does not parse: {e}; {y}")))?;
    let yaml = yaml_to_json(&yaml);
    let rows: Vec<Vec<String>> = csv::ReaderBuilder::new()
        .has_headers(false)
        .flexible(true)
        .from_reader(c.as_bytes())
        .records()
        .map(|r| r.map(|x| x.iter().map(str::to_string).collect()))
        .collect::<Result<_, _>>()
        .map_err(|e| Fail::new(format!("legacy CSV of {input} does not parse: {e}")))?;
    ctx.class(kind);
    let Some((l, _)) = low(bytes) else {
        ctx.class("not a frame");
        ensure!(parsed.get("summary").is_none(), "legacy JSON of {input}, which is no frame: {parsed}");
        ensure!(yaml.get("summary").is_none(), "legacy YAML of {input}, which is no frame: {yaml}");
        ensure!(rows.first().is_some_and(|r| r.first().map(String::as_str) == Some("Error")), "legacy CSV of {input}, which is no frame: {c:?}");
        return Ok(());
    };
    ctx.nontrivial(&bytes);
    ctx.sample(|| input.clone());
    let u = if matches!(l.kind, "long" | "wireless") { parse_application_layer(&l.payload).ok() } else { None };
    let want = summary(&l, u.as_ref());
    let ell = matches!(&u, Some(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer: Some(e), .. }) if e.encryption.is_some());
    let clear = u.as_ref().and_then(UserDataBlock::data_records);
    let encrypted = clear.is_none()
        && matches!(u, Some(UserDataBlock::VariableDataStructureWithLongTplHeader { .. } | UserDataBlock::VariableDataStructureWithShortTplHeader { .. } | UserDataBlock::VariableDataStructureWithoutTplHeader { .. }));
    // Records behind a decryption are those of the canonical decode with the key.
    let (records, bad) = match (clear, key) {
        (Some(r), _) => recs(r),
        (None, Some(k)) if encrypted => {
            let Some(u) = &u else { unreachable!() };
            match decrypted(u, &l, k) {
                Some(d) => recs(DataRecords::from(d.as_slice())),
                None => (vec![], false),
            }
        }
        _ => (vec![], false),
    };
    let said = parsed["summary"]["decrypted"] == json!(true);
    let could = encrypted && key.is_some_and(|k| u.as_ref().is_some_and(|u| decrypted(u, &l, k).is_some()));
    ensure_eq!(said, could, "legacy JSON saying it decrypted {input}");
    ensure_eq!(parsed["summary"]["encrypted"], json!(encrypted), "legacy JSON saying {input} is encrypted");
    if encrypted {
        ctx.class(if said { "decrypted" } else { "encrypted" });
    }
    let records: &[Rec] = if encrypted && !said { &[] } else { &records };
    let known: Vec<&str> = SUMMARY.iter().copied().filter(|k| !ell || !matches!(*k, "access_number" | "status" | "security_mode")).collect();
    check_summary("legacy JSON", &parsed["summary"], &want, records, &known, &input)?;
    check_summary("legacy YAML", &yaml["summary"], &want, records, &known, &input)?;
    // The full record lists hold all records when none is damaged.
    if !bad && !(encrypted && !said) {
        let n = |v: &Value| v["data_records"].as_array().map_or(0, Vec::len);
        ensure_eq!(n(&parsed), records.len(), "length of data_records in the legacy JSON of {input}");
        ensure_eq!(n(&yaml), records.len(), "length of data_records in the legacy YAML of {input}");
        ctx.class("full record lists compared");
    }
    ensure_eq!(rows.len(), 2, "rows of the legacy CSV of {input}");
    ensure_eq!(rows[0].len(), rows[1].len(), "columns of the legacy CSV of {input}");
    let cell = |name: &str| rows[0].iter().position(|h| h == name).map(|i| rows[1][i].as_str());
    for (k, column) in [
        ("frame_type", "FrameType"),
        ("function", "Function"),
        ("address", "Address"),
        ("identification_number", "Identification Number"),
        ("manufacturer", "Manufacturer"),
        ("access_number", "Access Number"),
        ("status", "Status"),
        ("security_mode", "Security Mode"),
        ("version", "Version"),
        ("device_type", "Device Type"),
    ] {
        if ell && matches!(k, "access_number" | "status" | "security_mode") {
            continue;
        }
        let w = match want.get(k) {
            Some(Value::String(t)) => t.clone(),
            Some(Value::Null) => continue,
            Some(x) => x.to_string(),
            None => String::new(),
        };
        ensure_eq!(cell(column), Some(w.as_str()), "legacy CSV {column} of {input}");
    }
    let points = rows[0].iter().filter(|h| h.starts_with("DataPoint") && h.ends_with("_Value")).count();
    ensure_eq!(points, records.len(), "data points in the legacy CSV of {input}");
    for (i, r) in records.iter().enumerate() {
        let v = cell(&format!("DataPoint{}_Value", i + 1)).unwrap_or("");
        if let Some(n) = r.number {
            // "(" number, then the scale and unit, then ")".
            let v1 = v.strip_prefix('(').unwrap_or(v);
            let sign = usize::from(v1.starts_with('-'));
            let end = v1[sign..].find(|c: char| !c.is_ascii_digit() && c != '.').map_or(v1.len(), |e| e + sign);
            let t = &v1[..end];
            if n.is_finite() {
                ensure!(t.parse::<f64>().is_ok_and(|x| near_equal(x, n)), "legacy CSV value {} of {input}: {v:?} for {n}", i + 1);
            }
        }
    }
    if !records.is_empty() {
        ctx.class("records compared");
    }
    Ok(())
}

struct OneKey([u8; 16]);
impl KeyProvider for OneKey {
    fn get_key(&self, _: &KeyContext) -> Result<&[u8], DecryptionError> {
        Ok(&self.0)
    }
}

pub fn decrypted(u: &UserDataBlock<'_>, l: &Low, key: [u8; 16]) -> Option<Vec<u8>> {
    let mut out = vec![0u8; u.variable_data_len()];
    let p = OneKey(key);
    let n = match (u, &l.link) {
        (UserDataBlock::VariableDataStructureWithShortTplHeader { .. }, Some((id, man, version, _, code))) => {
            let c: Vec<char> = man.chars().collect();
            let m = ManufacturerCode { code: [c[0], c[1], c[2]] };
            u.decrypt_variable_data_with_context(&p, m, id.parse().ok()?, *version, DeviceType::from(*code), &mut out)
        }
        _ => u.decrypt_variable_data(&p, &mut out),
    };
    out.truncate(n.ok()?);
    Some(out)
}

/// Texts that are not frames give parseable documents too.
fn c23_garbage(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let t = super::total::any_text(s);
    ctx.class(if decode_hex_bytes(&t).is_ok() { "hexadecimal" } else { "not hexadecimal" });
    ctx.nontrivial(&t);
    let j = serialize_mbus_data(&t, "json-legacy", None);
    ensure!(serde_json::from_str::<Value>(&j).is_ok(), "legacy JSON of {t:?} does not parse: {j}");
    let y = serialize_mbus_data(&t, "yaml-legacy", None);
    ensure!(serde_yaml::from_str::<serde_yaml::Value>(&y).is_ok(), "legacy YAML of {t:?} does not parse: {y}");
    let c = serialize_mbus_data(&t, "csv-wide", None);
    let n = csv::ReaderBuilder::new().has_headers(false).from_reader(c.as_bytes()).records().filter(Result::is_ok).count();
    ensure_eq!(n, 2, "rows of the legacy CSV of {t:?}: {c:?}");
    Ok(())
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        rule: "counted non-trivial: distinct (text, format name) pairs and distinct frames whose legacy documents were parsed and compared with the low-level decode",
        both_builds: false,
        assumptions: &[
            "the legacy reader of hexadecimal text is more tolerant than the canonical one; only texts spelling whole bytes are compared as frames",
            "what the full record list holds after a damaged record is not said",
            "numbers that are not finite have no JSON form and are not compared",
        ],
        parts: vec![
            Part { name: "canonical names", kind: Kind::Random { quick: 80_000, thorough: 1_500_000, tape: (20, 300), f: c23_canonical } },
            Part { name: "unknown names", kind: Kind::Random { quick: 10_000, thorough: 100_000, tape: (10, 100), f: c23_unknown } },
            Part { name: "legacy documents", kind: Kind::Random { quick: 60_000, thorough: 1_000_000, tape: (20, 350), f: c23_legacy } },
            Part { name: "legacy documents of texts", kind: Kind::Random { quick: 30_000, thorough: 400_000, tape: (10, 150), f: c23_garbage } },
        ],
    }
}

// ---------------------------------------------------------------- C31

fn coding_text(coding: &str) -> Option<&'static str> {
    Some(match coding {
        "No data" => "No Data",
        "8-bit integer" => "8-bit Integer",
        "16-bit integer" => "16-bit Integer",
        "24-bit integer" => "24-bit Integer",
        "32-bit integer" => "32-bit Integer",
        "32-bit real" => "32-bit Real",
        "48-bit integer" => "48-bit Integer",
        "64-bit integer" => "64-bit Integer",
        "Selection for readout" => "Selection for Readout",
        "2-digit BCD" => "BCD 2-digit",
        "4-digit BCD" => "BCD 4-digit",
        "6-digit BCD" => "BCD 6-digit",
        "8-digit BCD" => "BCD 8-digit",
        "12-digit BCD" => "BCD 12-digit",
        "Variable length" => "Variable Length",
        "Date (type G)" => "Date Type G",
        "Date and time (type F)" => "Date Time Type F",
        "Date and time (type I)" => "Date Time Type I",
        "Time (type J)" => "Date Time Type J",
        _ => return None,
    })
}

/// Letters and digits of a quantity name, in lower case.
fn letters(t: &str) -> String {
    t.chars().filter(char::is_ascii_alphanumeric).map(|c| c.to_ascii_lowercase()).collect()
}

/// Whether the identifier shown for a label spells the quantity.
fn spells(shown: &str, quantity: &str) -> bool {
    match quantity {
        "Time point (date)" => shown == "Date",
        "Time point (time)" => shown == "Time",
        "Time point (date and time)" => matches!(shown, "DateTime" | "DateTimeWithSeconds"),
        "Data container for wireless M-Bus protocol" => shown == "DataContainerForWmbusProtocol",
        _ => letters(shown) == letters(quantity),
    }
}

/// The value information text `[+offset])[escale][[units]][(labels)]` against the model.
fn check_value_text(info: &crate::vif::Info, text: &str, at: &str) -> CheckResult {
    let mut rest = text;
    if let Some(o) = info.offset.filter(|o| *o != 0) {
        let Some(r) = rest.strip_prefix(&format!("+{o}")) else { fail!("[{at}]: {text:?} does not start with the offset exponent {o}") };
        rest = r;
    }
    let Some(r) = rest.strip_prefix(')') else { fail!("[{at}]: {text:?}: no ')' after the value and offset") };
    rest = r;
    if info.scale != 0 {
        let Some(r) = rest.strip_prefix(&format!("e{}", info.scale)) else { fail!("[{at}]: {text:?} does not show the scale {}", info.scale) };
        rest = r;
    }
    if !info.units.is_empty() {
        let want = format!("[{}]", crate::vif::plain_text(&info.units));
        let Some(r) = rest.strip_prefix(&want) else { fail!("[{at}]: {text:?} does not show the units {want} after the scale") };
        rest = r;
    }
    if info.labels.is_empty() {
        ensure_eq!(rest, "", "[{at}]: {text:?}: end of the text");
        return Ok(());
    }
    let Some(names) = rest.strip_prefix('(').and_then(|r| r.strip_suffix(')')) else { fail!("[{at}]: {text:?} does not show the quantities {:?} in parentheses", info.labels) };
    let names: Vec<&str> = names.split(", ").collect();
    ensure!(
        names.len() == info.labels.len() && names.iter().zip(&info.labels).all(|(a, b)| spells(a, b)),
        "[{at}]: {text:?} shows the quantities {names:?}, encoded are {:?}",
        info.labels
    );
    Ok(())
}

fn c31_records(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let block = gen::block(s, &gen::FULL, 6, 240);
    ctx.sample(|| hex_sp(&block));
    let p = model::parse(&block);
    for (r, m) in m_bus_parser::user_data::parse_data_records(&block).zip(&p.records) {
        let Ok(r) = r else { fail!("[{}]: refused", hex_sp(&m.bytes())) };
        check_texts(&r, m, ctx)?;
        ctx.nontrivial(&(m.bytes(), r.data.to_string()));
    }
    Ok(())
}

/// The texts of a record against the model.
pub fn check_texts(r: &m_bus_parser::user_data::data_record::DataRecord<'_>, m: &model::Record, ctx: &mut Ctx) -> CheckResult {
    let at = hex_sp(&m.bytes());
    ensure_eq!(r.raw_bytes(), m.bytes().as_slice(), "bytes of the record at {}", m.offset);
    let shown = r.data.to_string();
    if m.special() {
        // The bytes of manufacturer data, in order.
        let numbers: Vec<&str> = shown.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
        let want: Vec<String> = m.data.iter().map(u8::to_string).collect();
        ensure_eq!(numbers, want, "[{at}]: {shown:?}");
        ensure_eq!(shown.starts_with("Manufacturer Specific"), m.dif != 0x7F, "[{at}]: {shown:?}");
        ctx.class("special record text");
        return Ok(());
    }
    if matches!(m.value, model::Val::None) && r.data.value.is_none() {
        ensure_eq!(shown, "No Data", "[{at}]: text without a value");
        ctx.class("text without a value");
    }
    if super::annot::check_shown(m, &shown)? {
        ctx.class("value text");
    }
    let Some(d) = r.data_information() else { fail!("[{at}]: no data information") };
    if let (Some(n), Some(c)) = (m.storage, coding_text(m.coding)) {
        let function = ["Inst", "Max", "Min", "Value During Error State"][usize::from(m.dif >> 4 & 3)];
        ensure_eq!(d.to_string(), format!("{n},{function},{c}"), "[{at}]: data information text");
        ctx.class("data information text");
    }
    if let (Some(i), Some(v)) = (m.info.as_ref().filter(|i| !i.open), r.value_information()) {
        check_value_text(i, &v.to_string(), &at)?;
        ctx.class("value information text");
        if i.units.iter().any(|u| u.exp < 0) {
            ctx.class("unit with a negative exponent");
        }
    }
    Ok(())
}

/// The exponent of a unit as superscript digits, larger ones behind a caret.
fn exponent_text(e: i32) -> String {
    const DIGITS: [char; 10] = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹'];
    match e {
        1 => String::new(),
        -19..=19 => {
            let digits = e.abs().to_string().chars().map(|c| DIGITS[c as usize - '0' as usize]).collect::<String>();
            format!("{}{digits}", if e < 0 { "⁻" } else { "" })
        }
        _ => format!("^{e}"),
    }
}

fn c31_units(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    use m_bus_parser::user_data::value_information::{Unit, UnitName as U, ValueInformation, ValueInformationBlock};
    // Names that no code of the tables below leads to.
    for (name, text) in [(U::HCA, "HCA"), (U::Reserved, "Reserved"), (U::WithoutUnits, "-"), (U::AmericanGallon, "UsGal")] {
        ensure_eq!(name.to_string(), text, "text of unit {name:?}");
        ensure_eq!(Unit { name, exponent: -1 }.to_string(), format!("{text}⁻¹"), "text of unit {name:?} with an exponent");
    }
    for n in 0..3 * 128usize {
        if n % shards != shard {
            continue;
        }
        let c = (n % 128) as u8;
        let code = [vec![c], vec![0xFD, c], vec![0xFB, c]][n / 128].clone();
        let Some(v) = ValueInformationBlock::try_from(code.as_slice()).ok().and_then(|b| ValueInformation::try_from(&b).ok()) else { continue };
        for u in &v.units {
            let name = Unit { name: u.name, exponent: 1 }.to_string();
            for e in -140..=140 {
                ctx.evaluations += 1;
                ctx.nontrivial(&(name.clone(), e));
                ensure_eq!(Unit { name: u.name, exponent: e }.to_string(), format!("{name}{}", exponent_text(e)), "unit of [{}] with exponent {e}", hex_sp(&code));
            }
        }
    }
    Ok(())
}

fn c31_codes(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    use m_bus_core::{ConfigurationField, Function};
    use m_bus_parser::user_data::{ApplicationResetSubcode, StatusField};
    for w in 0..=0xFFFFu16 {
        if usize::from(w) % shards != shard {
            continue;
        }
        ctx.evaluations += 1;
        ctx.nontrivial(&w);
        let c = ConfigurationField::from(w).to_string();
        ensure_eq!(c, format!("Configuration Field: 0x{w:04X} (Security mode: {})", crate::expect::mode_name((w >> 8) as u8 & 0x1F)), "text of configuration word {w:04X}");
    }
    const RESET: [&str; 16] = [
        "All", "User data", "Simple billing", "Enhanced billing", "Multi-tariff billing", "Instantaneous values", "Load management values", "Reserved",
        "Installation startup", "Testing", "Calibration", "Configuration updates", "Manufacturing", "Development", "Self-test", "Reserved",
    ];
    for b in 0..=255u8 {
        if usize::from(b) % shards != shard {
            continue;
        }
        ctx.evaluations += 1;
        ctx.nontrivial(&(1u8, b));
        ensure_eq!(StatusField::from_bits_retain(b).to_string(), crate::expect::status_name(b), "text of status {b:02X}");
        ensure_eq!(ApplicationResetSubcode::from(b).to_string(), RESET[usize::from(b & 0x0F)], "text of reset subcode {b:02X}");
        let frame = [0x10, 0x40, b, 0x40u8.wrapping_add(b), 0x16];
        match WiredFrame::try_from(frame.as_slice()) {
            Ok(WiredFrame::ShortFrame { address, .. }) => ensure_eq!(address.to_string(), crate::expect::address_name(b), "text of address {b:02X}"),
            other => fail!("short frame [{}] read as {other:?}", hex_sp(&frame)),
        }
        if let (Ok(f), Some(w)) = (Function::try_from(b), crate::expect::function_name(b)) {
            // The function's identifier spells its name; flags follow it. SND_NKE shows no flag.
            let (name, flags) = w.split_once(' ').map_or((w, None), |(n, f)| (n, Some(f)));
            let t = f.to_string();
            let (shown, shown_flags) = t.split_once(' ').map_or((t.as_str(), None), |(n, f)| (n, Some(f)));
            if name == "SND_NKE" {
                ensure!(letters(shown).starts_with("sndnk"), "text of function {b:02X}: {t:?}");
            } else {
                ensure_eq!((letters(shown), shown_flags), (letters(name), flags), "text of function {b:02X}");
            }
        }
    }
    Ok(())
}

fn c31_numbers(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    use m_bus_core::IdentificationNumber;
    use m_bus_parser::user_data::Counter;
    let id: [u8; 4] = gen::bcd(s, 4).try_into().unwrap();
    let digits: String = id.iter().rev().map(|b| format!("{b:02X}")).collect();
    ctx.sample(|| digits.clone());
    ctx.nontrivial(&id);
    ensure_eq!(IdentificationNumber::from_bcd_hex_digits(id).map(|x| x.to_string()).ok(), Some(digits.clone()), "text of identification number [{}]", hex_sp(&id));
    ensure_eq!(Counter::from_bcd_hex_digits(id).map(|x| x.to_string()).ok(), Some(digits), "text of counter [{}]", hex_sp(&id));
    Ok(())
}

/// An error's text names its kind and the values it carries, however it is wrapped.
fn c31_errors(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    use m_bus_core::decryption::DecryptionError as D;
    use m_bus_core::{ApplicationLayerError as A, FrameError as F, SecurityMode};
    use m_bus_parser::MbusError;
    use wireless_mbus_link_layer::FrameError as W;
    let (b, c, w, v) = (s.edgy_byte(), s.edgy_byte(), s.raw() as u16, s.raw() as u16);
    let (n, k) = if s.chance(1, 2) { (usize::from(b), usize::from(c)) } else { (s.raw() as usize, s.raw() as usize) };
    let digits: [u8; 4] = s.bytes(4).try_into().unwrap();
    let number = s.raw();
    ctx.nontrivial(&(b, c, w, v, n, k, digits));
    ctx.sample(|| format!("values {b} {c} {w} {v} {n} {k} {digits:?} {number}"));
    let frame = [
        (F::EmptyData, "Data is empty".to_string()),
        (F::InvalidStartByte, "Invalid start byte".into()),
        (F::InvalidStopByte, "Invalid stop byte".into()),
        (F::LengthShort, "Length mismatch".into()),
        (F::LengthShorterThanSix { length: n }, format!("Length is shorter than six: {n}")),
        (F::WrongChecksum { expected: b, actual: c }, format!("Wrong checksum, expected: {b}, actual: {c}")),
        (F::InvalidControlInformation { byte: b }, format!("Invalid control information: {b}")),
        (F::InvalidFunction { byte: b }, format!("Invalid function: {b}")),
        (F::WrongLengthIndication, "Wrong length indication".into()),
        (F::WrongLength { expected: n, actual: k }, format!("Wrong length, expected: {n}, actual: {k}")),
        (F::WrongCrc { expected: w, actual: v }, format!("Wrong CRC, expected: {w}, actual: {v}")),
    ];
    for (e, text) in frame {
        ensure_eq!(e.to_string(), text, "text of {e:?}");
        let wrapped = MbusError::from(e);
        ensure!(wrapped == MbusError::FrameError(e), "{e:?} wrapped as {wrapped:?}");
        ensure_eq!(wrapped.to_string(), text, "text of {wrapped:?}");
    }
    let application = [
        (A::MissingControlInformation, "Missing control information".to_string()),
        (A::InvalidControlInformation { byte: b }, format!("Invalid control information: {b}")),
        (A::InvalidManufacturerCode { code: w }, format!("Invalid manufacturer code: {w}")),
        (A::IdentificationNumberError { digits, number }, format!("Invalid identification number: {digits:?}, number: {number}")),
        (A::InsufficientData, "Insufficient data".into()),
        (A::Unimplemented { feature: "a feature" }, "Unimplemented feature: a feature".into()),
    ];
    for (e, text) in application {
        ensure_eq!(e.to_string(), text, "text of {e:?}");
        let wrapped = MbusError::from(e);
        ensure!(wrapped == MbusError::ApplicationLayerError(e), "{e:?} wrapped as {wrapped:?}");
        ensure_eq!(wrapped.to_string(), text, "text of {wrapped:?}");
    }
    for e in [W::EmptyData, W::TooShort, W::WrongLength { expected: n, actual: k }] {
        let wrapped = MbusError::from(e);
        ensure!(wrapped == MbusError::WirelessFrameError(e), "{e:?} wrapped as {wrapped:?}");
        let text = wrapped.to_string();
        let carried: Vec<String> = match e {
            W::WrongLength { .. } => vec![n.to_string(), k.to_string()],
            _ => vec![],
        };
        let shown: Vec<&str> = text.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).collect();
        ensure!(shown == carried, "text of {e:?}: {text}");
    }
    let mode = SecurityMode::from_bits(b);
    let decryption = [
        (D::UnsupportedMode(mode), format!("Unsupported security mode: {mode:?}")),
        (D::KeyNotFound, "Decryption key not found".into()),
        (D::DecryptionFailed, "Decryption operation failed".into()),
        (D::InvalidKeyLength, "Invalid key length".into()),
        (D::InvalidDataLength, "Invalid data length".into()),
        (D::NotEncrypted, "Data is not encrypted".into()),
        (D::UnknownEncryptionState, "Unknown encryption state for this data block type".into()),
    ];
    for (e, text) in decryption {
        ensure_eq!(e.to_string(), text, "text of {e:?}");
    }
    Ok(())
}

pub fn c31() -> Property {
    Property {
        id: "C31",
        rule: "counted non-trivial: distinct records whose value, data information or value information text was compared with the model; every enumerated code; every decimal number; every distinct set of values carried by errors",
        both_builds: true,
        assumptions: &[
            "the text forms are those the library prints today: value, then '+offset exponent' if not zero, ')', scale exponent, units, quantities",
            "an offset of 10^0 is not shown",
            "records the model leaves open are not compared",
        ],
        parts: vec![
            Part { name: "records", kind: Kind::Random { quick: 1_500_000, thorough: 30_000_000, tape: (10, 220), f: c31_records } },
            Part { name: "codes", kind: Kind::Exhaustive { f: c31_codes } },
            Part { name: "units", kind: Kind::Exhaustive { f: c31_units } },
            Part { name: "numbers", kind: Kind::Random { quick: 20_000, thorough: 400_000, tape: (4, 20), f: c31_numbers } },
            Part { name: "errors", kind: Kind::Random { quick: 20_000, thorough: 400_000, tape: (8, 20), f: c31_errors } },
        ],
    }
}
