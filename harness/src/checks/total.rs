//! C01: no input makes a public call panic.

use std::str::FromStr;
use std::sync::OnceLock;

use m_bus_core::decryption::{DecryptionError, KeyContext, KeyProvider, StaticKeyProvider};
use m_bus_core::{ConfigurationField, DeviceType, Function, IdentificationNumber, ManufacturerCode, SecurityMode};
use m_bus_parser::annotate::{annotate_and_render, annotate_frame, render_annotations};
use m_bus_parser::mbus_data::{parse_to_csv, parse_to_json, parse_to_mermaid, MbusData};
use m_bus_parser::user_data::data_information::{DataInformation, DataInformationBlock};
use m_bus_parser::user_data::data_record::{DataRecord, DataRecordHeader, ProcessedDataRecordHeader, RawDataRecordHeader};
use m_bus_parser::user_data::extended_link_layer::{EllFormat, ExtendedLinkLayer};
use m_bus_parser::user_data::value_information::{ValueInformation, ValueInformationBlock};
use m_bus_parser::user_data::{parse_application_layer, parse_data_records, parse_data_records_with_header, ApplicationResetSubcode, Counter, DataRecords, LongTplHeader, UserDataBlock};
use m_bus_parser::{
    decode_bytes, decode_data_records, decode_data_records_hex, decode_hex, decode_hex_bytes, render_bytes, render_hex, serialize_mbus_data, ManufacturerId, OutputFormat, RenderOptions, WiredFrame, WirelessFrame,
};
use wireless_mbus_link_layer::{strip_format_a_crcs, trailing_frame_crc_start};

use super::output;
use crate::gen::{self, Link};
use crate::runner::{guarded, CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::sut;
use crate::util::{crc16, hex, unhex, wired_long};

pub const FORMATS: [OutputFormat; 8] = [
    OutputFormat::Json,
    OutputFormat::Table,
    OutputFormat::Yaml,
    OutputFormat::Csv,
    OutputFormat::Mermaid,
    OutputFormat::Xml,
    OutputFormat::Annotated,
    OutputFormat::AnnotatedText,
];

pub const LEGACY: [&str; 5] = ["json-legacy", "yaml-legacy", "csv-wide", "annotated-legacy", "hexview-legacy"];

/// Frames captured from real meters (from the project's own test data), used
/// as starting points of mutations.
pub fn real() -> &'static [Vec<u8>] {
    static REAL: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    REAL.get_or_init(|| include_str!("../real.txt").lines().filter(|l| !l.trim().is_empty()).map(unhex).collect())
}

fn run<T>(what: &str, input: &dyn Fn() -> String, f: impl FnOnce() -> T) -> CheckResult {
    call(what, input, f).map(|_| ())
}

fn call<T>(what: &str, input: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guarded(f).map_err(|p| {
        if p.contains("harness/src/") || p.contains(" at src/") {
            eprintln!("harness error: {p}");
            std::process::exit(3);
        }
        Fail::new(format!("{what} {p}; input {}", input()))
    })
}

struct AnyKey(Vec<u8>);
impl KeyProvider for AnyKey {
    fn get_key(&self, _: &KeyContext) -> Result<&[u8], DecryptionError> {
        Ok(&self.0)
    }
}

fn show(b: &[u8]) -> String {
    hex(b)
}

/// Record iteration ends after at most as many items as there are bytes.
fn bounded(what: &str, len: usize, b: &[u8], records: DataRecords<'_>) -> CheckResult {
    let n = call(what, &|| show(b), || records.take(len + 1).count())?;
    crate::ensure!(n <= len, "{what} yields more than {len} items from {len} bytes; input {}", show(b));
    Ok(())
}

/// Everything that can be asked of one record.
fn record(r: &DataRecord<'_>) -> usize {
    let mut n = format!("{r:?}").len() + r.data_record_header_hex().len() + r.data_hex().len() + r.raw_bytes().len() + r.get_size();
    n += format!("{}", r.data).len();
    if let Some(d) = r.data_information() {
        n += format!("{d}").len() + format!("{}", d.data_field_coding).len() + format!("{}", d.function_field).len();
    }
    if let Some(v) = r.value_information() {
        n += format!("{v}").len();
        for u in &v.units {
            n += format!("{u}").len();
        }
    }
    n += r.value().map_or(0, |v| format!("{v:?}").len());
    n + serde_json::to_string(r).map_or(0, |t| t.len())
}

fn low_level(b: &[u8], key: &[u8], room: usize) -> CheckResult {
    let inp = || show(b);
    // Bounded iteration comes first: everything after it collects records.
    bounded("DataRecords", b.len(), b, DataRecords::from(b))?;
    bounded("parse_data_records", b.len(), b, parse_data_records(b))?;
    let app = call("parse_application_layer", &inp, || parse_application_layer(b).ok())?;
    if let Some(u) = &app {
        if let Some(r) = call("UserDataBlock::data_records", &inp, || u.data_records())? {
            bounded("UserDataBlock::data_records", b.len(), b, r)?;
        }
        run("UserDataBlock accessors", &inp, || {
            let _ = format!("{u:?}");
            let _ = serde_json::to_string(u);
            (u.is_encrypted(), u.variable_data_len())
        })?;
        run("UserDataBlock decryption", &inp, || {
            let p = AnyKey(key.to_vec());
            let mut out = vec![0u8; room];
            let a = u.decrypt_variable_data(&p, &mut out);
            let m = ManufacturerCode::from_id(0x2D2C).unwrap();
            let b = u.decrypt_variable_data_with_context(&p, m, 12345678, 1, DeviceType::WaterMeter, &mut out);
            (a.map_err(|e| e.to_string()), b.map_err(|e| e.to_string()))
        })?;
    }
    if let Some(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header: h, .. }) = &app {
        records_with(b, h)?;
    }
    run("records", &inp, || DataRecords::from(b).map(|r| r.map_or(0, |r| record(&r))).sum::<usize>())?;
    run("record headers", &inp, || {
        let _ = RawDataRecordHeader::try_from(b).map(|h| (ProcessedDataRecordHeader::try_from(&h).is_ok(), format!("{h:?}")));
        let _ = DataRecordHeader::try_from(b).map(|h| h.get_size());
        let _ = DataRecord::try_from(b).map(|r| record(&r));
        let _ = DataInformationBlock::try_from(b).map(|d| (d.get_size(), DataInformation::try_from(&d).map(|x| format!("{x}"))));
        let _ = ValueInformationBlock::try_from(b).map(|v| (v.get_size(), ValueInformation::try_from(&v).map(|x| format!("{x} {x:?}"))));
    })?;
    run("extended link layer", &inp, || {
        for f in [EllFormat::FormatI, EllFormat::FormatII, EllFormat::FormatIII] {
            let _ = ExtendedLinkLayer::parse(b, f);
        }
    })?;
    run("link layers", &inp, || {
        let _ = WiredFrame::try_from(b).map(|f| format!("{f:?}")).map_err(|e| e.to_string());
        let _ = WirelessFrame::try_from(b).map(|f| format!("{f:?}"));
        let _ = ManufacturerId::try_from(b).map(|m| format!("{m:?} {}", m.identification_number));
        let mut out = vec![0u8; room];
        let _ = strip_format_a_crcs(b, &mut out).map(<[u8]>::len);
        let mut out = vec![0u8; b.len()];
        let _ = strip_format_a_crcs(b, &mut out).map(<[u8]>::len);
        let _ = trailing_frame_crc_start(b);
    })?;
    run("MbusData", &inp, || {
        let _ = MbusData::<WiredFrame>::try_from(b).map(|d| (serde_json::to_string(&d).is_ok(), format!("{d:?}"))).map_err(|e| e.to_string());
        let _ = MbusData::<WirelessFrame>::try_from(b).map(|d| (serde_json::to_string(&d).is_ok(), format!("{d:?}"))).map_err(|e| e.to_string());
    })?;
    Ok(())
}

fn records_with(b: &[u8], h: &LongTplHeader) -> CheckResult {
    bounded("parse_data_records_with_header", b.len(), b, parse_data_records_with_header(b, h))?;
    run("records with header", &|| show(b), || parse_data_records_with_header(b, h).map(|r| r.map_or(0, |r| record(&r))).sum::<usize>())?;
    Ok(())
}

fn canonical(b: &[u8], key: Option<[u8; 16]>, width: Option<usize>, enrich: bool) -> CheckResult {
    let inp = || format!("{} key {:?} width {width:?}", show(b), key.map(|k| hex(&k)));
    run("annotate_frame", &inp, || annotate_frame(b).map(|s| render_annotations(&s, b).len()).ok())?;
    run("annotate_and_render", &inp, || annotate_and_render(b).is_ok())?;
    for k in [None, key] {
        run("decode_bytes", &inp, || decode_bytes(b, &sut::options(k, enrich)).map(|d| serde_json::to_string(&d).map_or(0, |t| t.len())).map_err(|e| (e.to_string(), e.code(), e.layer(), e.byte_offset())))?;
    }
    run("decode_data_records", &inp, || decode_data_records(b).map(|r| r.len()).map_err(|e| e.to_string()))?;
    for f in FORMATS {
        run(&format!("render_bytes as {f}"), &inp, || {
            render_bytes(b, f, &RenderOptions { decode: sut::options(key, enrich), table_width: width }).map_or_else(|e| e.to_string().len(), |t| t.len())
        })?;
    }
    Ok(())
}

fn texts(t: &str, format: &str, key: Option<[u8; 16]>, width: Option<usize>) -> CheckResult {
    let inp = || format!("{t:?} format {format:?} key {:?} width {width:?}", key.map(|k| hex(&k)));
    run("decode_hex_bytes", &inp, || decode_hex_bytes(t).map_err(|e| e.to_string()).is_ok())?;
    run("decode_hex", &inp, || decode_hex(t, &sut::options(key, true)).map_err(|e| e.to_string()).is_ok())?;
    run("decode_data_records_hex", &inp, || decode_data_records_hex(t).map_err(|e| e.to_string()).is_ok())?;
    run("serialize_mbus_data", &inp, || serialize_mbus_data(t, format, key.as_ref()).len())?;
    if let Ok(f) = call("OutputFormat::from_str", &inp, || OutputFormat::from_str(format).map_err(|e| e.to_string()))? {
        run(&format!("render_hex as {f}"), &inp, || render_hex(t, f, &RenderOptions { decode: sut::options(key, true), table_width: width }).is_ok())?;
    }
    Ok(())
}

fn legacy(t: &str, key: Option<[u8; 16]>) -> CheckResult {
    let inp = || format!("{t:?} key {:?}", key.map(|k| hex(&k)));
    for n in LEGACY {
        run(&format!("serialize_mbus_data as {n}"), &inp, || serialize_mbus_data(t, n, key.as_ref()).len())?;
    }
    run("parse_to_json", &inp, || parse_to_json(t, key.as_ref()).len())?;
    run("parse_to_csv", &inp, || parse_to_csv(t, key.as_ref()).len())?;
    run("parse_to_mermaid", &inp, || parse_to_mermaid(t, key.as_ref()).len())?;
    Ok(())
}

pub fn width(s: &mut Source) -> Option<usize> {
    match s.below(8) {
        0..=1 => None,
        2 => Some(s.below(12)),
        3 => Some(*s.pick(&[0, 1, 31, 32, 33, 4096])),
        4..=6 => Some(s.range(10, 160)),
        _ => Some(s.range(160, 2000)),
    }
}

pub fn key(s: &mut Source) -> Option<[u8; 16]> {
    match s.below(4) {
        0 => None,
        1 => Some([0; 16]),
        2 => Some([0xFF; 16]),
        _ => Some(s.bytes(16).try_into().unwrap()),
    }
}

/// Makes the link layer of a changed frame valid again.
fn repair(b: &mut Vec<u8>, kind: usize) {
    match kind {
        0 if b.len() >= 6 && b.len() <= 261 && b[0] == 0x68 => {
            let n = b.len();
            let l = (n - 6) as u8;
            b[1] = l;
            b[2] = l;
            b[3] = 0x68;
            b[n - 2] = b[4..n - 2].iter().fold(0u8, |a, x| a.wrapping_add(*x));
            b[n - 1] = 0x16;
        }
        1 if b.len() >= 10 && b.len() <= 256 => b[0] = (b.len() - 1) as u8,
        2 if b.len() >= 13 => {
            // Format A: first block and the remaining blocks.
            let mut clear: Vec<u8> = b.clone();
            clear.truncate(240);
            clear[0] = (clear.len() - 1) as u8;
            let mut out = vec![];
            let mut rest = &clear[..];
            let mut size = 10;
            while !rest.is_empty() {
                let n = size.min(rest.len());
                out.extend_from_slice(&rest[..n]);
                out.extend_from_slice(&crc16(&rest[..n]).to_be_bytes());
                rest = &rest[n..];
                size = 16;
            }
            *b = out;
        }
        _ => {}
    }
}

struct Mutation {
    kind: usize,
    place: usize,
    byte: u8,
    count: usize,
}

fn mutations(s: &mut Source) -> Vec<Mutation> {
    let n = s.range(1, 4);
    (0..n).map(|_| Mutation { kind: s.below(6), place: s.raw() as usize, byte: s.edgy_byte(), count: s.range(1, 12) }).collect()
}

fn mutate(b: &mut Vec<u8>, m: &Mutation, other: &[u8]) {
    let at = m.place % (b.len() + 1);
    match m.kind {
        0 if at < b.len() => b[at] = m.byte,
        1 if at < b.len() => b[at] ^= 1 << (m.byte & 7),
        2 => b.truncate(at),
        3 => {
            let end = (at + m.count).min(b.len());
            b.drain(at..end);
        }
        4 => {
            for _ in 0..m.count {
                b.insert(at, m.byte);
            }
        }
        _ if !other.is_empty() => {
            let from = m.byte as usize % other.len();
            let part: Vec<u8> = other[from..(from + m.count * 4).min(other.len())].to_vec();
            b.splice(at..at, part);
        }
        _ => {}
    }
    b.truncate(1024);
}

/// Chains of header bytes that reach the limits of the record parser.
fn hostile(s: &mut Source) -> Vec<u8> {
    let mut b = vec![];
    let n = s.range(1, 30);
    for _ in 0..n {
        match s.below(12) {
            0 => b.push(s.byte()),
            1 => b.push(s.edgy_byte()),
            2 => {
                let (x, k) = (0x80 | s.byte(), s.range(1, 16));
                b.extend(std::iter::repeat_n(x, k));
            }
            3 => b.push(*s.pick(&[0x0D, 0x8D, 0x2F, 0x0F, 0x1F, 0x7F, 0x3F, 0x4F, 0x6F, 0x5F])),
            4 => b.push(*s.pick(&[0xFB, 0xFD, 0xEF, 0xFE, 0xFF, 0x7C, 0xFC, 0x7E, 0x7F, 0x6C, 0x6D, 0xED, 0xEC])),
            5 => {
                b.push(*s.pick(&[0x7C, 0xFC]));
                let l = s.edgy_byte();
                b.push(l);
                let k = s.below(14);
                b.extend(s.bytes(k));
            }
            6 => {
                b.extend([0x0D, *s.pick(&[0x13, 0xFD, 0x78, 0x6D])]);
                b.push(s.byte());
                let k = s.below(20);
                b.extend(s.bytes(k));
            }
            7 => {
                let dif = s.below(16) as u8 | (s.below(16) as u8) << 4;
                b.push(dif);
                let vif = *s.pick(&[0x6C, 0x6D, 0x13, 0x5B, 0x22, 0x78]);
                b.push(vif);
                let k = s.below(9);
                b.extend(s.bytes(k));
            }
            8 => {
                let k = s.below(30);
                b.extend(s.bytes(k));
            }
            9 => b.extend([0xFF; 11]),
            10 => b.extend([0x00; 9]),
            _ => {
                let r = gen::record(s, &gen::FULL);
                b.extend(r);
            }
        }
    }
    b.truncate(1000);
    b
}

const CIS: &[u8] = &[
    0x72, 0x7A, 0x78, 0x73, 0x76, 0x77, 0x7B, 0x79, 0x8A, 0x8B, 0x8C, 0x8D, 0x8E, 0x8F, 0x50, 0x51, 0x52, 0x55, 0x5A, 0x5B, 0x60, 0x6A, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F, 0x70, 0x71, 0x74, 0x75, 0x80, 0x81, 0x90, 0xA0, 0xA1, 0xA7, 0xAF, 0xB1, 0xB8, 0xBE, 0xC0, 0xC5, 0x00, 0xFF,
];

fn header_bytes(s: &mut Source) -> Vec<u8> {
    let mut h = vec![];
    if s.chance(1, 6) {
        // Nested extended link layers.
        for _ in 0..s.range(1, 6) {
            h.push(*s.pick(&[0x8C, 0x8D, 0x8E]));
            let k = *s.pick(&[2usize, 8, 16, 1, 0]);
            h.extend(s.bytes(k));
        }
    }
    h.push(if s.chance(1, 5) { s.byte() } else { *s.pick(CIS) });
    match s.below(5) {
        0 => {
            let i = gen::ident(s);
            h.extend(i.id.iter().chain(&i.man));
            h.extend([i.version, i.device]);
        }
        1 => {
            let k = s.below(14);
            h.extend(s.bytes(k));
        }
        _ => {}
    }
    let conf = *s.pick(&[0u8, 5, 7, 4, 10, 13, 1, 31]);
    if s.chance(3, 4) {
        h.extend([s.byte(), s.edgy_byte(), s.byte(), conf]);
    }
    h
}

fn c01_bytes(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let k = key(s);
    let w = width(s);
    let enrich = s.chance(1, 2);
    let room = match s.below(3) {
        0 => s.below(64),
        1 => 1024,
        _ => s.range(64, 300),
    };
    let keylen = *s.pick(&[16usize, 16, 16, 0, 15, 17, 32]);
    let class = s.weighted(&[2, 5, 5, 4, 3]);
    let muts = mutations(s);
    let fix = s.below(12);
    let name = ["random bytes", "mutated structured frame", "mutated captured frame", "hostile payload in a valid frame", "hostile record block"][class];
    let b = match class {
        0 => {
            let n = if s.chance(1, 3) { s.range(0, 1024) } else { s.below(80) };
            let mut b = s.bytes(n);
            if s.chance(1, 2) {
                let first = *s.pick(&[0x68, 0x10, 0xE5, 0x72, 0x44, 0x2F]);
                if let Some(x) = b.first_mut() {
                    *x = first;
                }
                repair(&mut b, fix % 3);
            }
            b
        }
        1 | 2 => {
            let (mut b, other) = if class == 1 {
                let i = output::input(s);
                (i.bytes, gen::block(s, &gen::FULL, 3, 100))
            } else {
                let r = real();
                (s.pick(r).clone(), s.pick(r).clone())
            };
            let wired = b.first() == Some(&0x68);
            for m in &muts {
                mutate(&mut b, m, &other);
            }
            repair(&mut b, if wired { fix / 11 * 9 } else { [1, 2, 9][(fix + 1) / 6] });
            b
        }
        3 => {
            let mut app = header_bytes(s);
            app.extend(hostile(s));
            match s.below(4) {
                0 => {
                    app.truncate(252);
                    wired_long(*s.pick(gen::WIRED_C), s.byte(), &app)
                }
                1 => {
                    let l = Link::Wireless { c: *s.pick(gen::WIRELESS_C), ident: gen::ident(s), layout: *s.pick(&gen::LAYOUTS) };
                    app.truncate(l.room());
                    l.frame(&app)
                }
                2 => {
                    let l = gen::link(s);
                    app.truncate(l.room());
                    let mut b = l.frame(&app);
                    mutate(&mut b, &muts[0], &[]);
                    b
                }
                _ => app,
            }
        }
        _ => hostile(s),
    };
    ctx.class(name);
    if b.len() > 256 {
        ctx.class("longer than 256 bytes");
    }
    let decoded = guarded(|| decode_bytes(&b, &sut::options(k, false)).is_ok()).unwrap_or(true);
    ctx.class(if decoded { "decodes" } else { "refused" });
    ctx.nontrivial(&b);
    ctx.sample(|| hex(&b));
    low_level(&b, &vec![0x5A; keylen], room)?;
    canonical(&b, k, w, enrich)?;
    if b.len() <= 400 {
        legacy(&hex(&b), k)?;
    }
    Ok(())
}

const PIECES: &[&str] = &[
    "68", "10", "E5", "0x", "0X", "x", "72", "16", " ", "", ":", "-", ",", "\n", "\t", "\u{feff}", "é", "日本", "🦀", "\u{0}", "g", "G", "+", "_", "0", "f", "%", "\"", "<", "#", "\\", "\u{301}", "\u{a0}", "2F", "0F", "٣", "ＡＢ",
];

/// Texts: spellings of frames with damage, and arbitrary texts.
pub fn any_text(s: &mut Source) -> String {
    match s.below(5) {
        0 => {
            let i = output::input(s);
            output::hex_text(s, &i.bytes)
        }
        1 => {
            let n = s.below(40);
            (0..n).map(|_| *s.pick(PIECES)).collect()
        }
        2 => {
            let n = s.below(40);
            (0..n).filter_map(|_| char::from_u32(s.raw() % 0x11_0000)).collect()
        }
        3 => {
            let i = output::input(s);
            let mut c: Vec<char> = output::spell(s, &i.bytes).chars().collect();
            for _ in 0..s.range(1, 4) {
                let at = s.below(c.len() + 1);
                let piece = s.pick(PIECES);
                c.splice(at..at, piece.chars());
            }
            c.into_iter().collect()
        }
        _ => {
            let i = output::input(s);
            output::spell(s, &i.bytes)
        }
    }
}

pub fn any_format(s: &mut Source) -> String {
    match s.below(5) {
        4 => {
            // A name with something around or inside it.
            let (n, c) = (s.pick(&FORMATS).to_string(), *s.pick(&["\"", "'", "`", ".", ",", ";", ":", "/", "-", "_", "(", "[", "<", "{", "*", "\0", "\u{FEFF}", "\u{200B}", "s", "x", "0"]));
            match s.below(4) {
                0 => format!("{c}{n}"),
                1 => format!("{n}{c}"),
                2 => format!("{c}{n}{c}"),
                _ => {
                    let at = s.range(1, n.len() - 1);
                    format!("{}{c}{}", &n[..at], &n[at..])
                }
            }
        }
        0 => s.pick(&FORMATS).to_string(),
        1 => s.pick(&LEGACY).to_string(),
        2 => s.pick(&["yml", "hexview", "table_format", " JSON ", "Yaml\n", "ANNOTATED-TEXT", "", "toml", "jsonl", "json-legacy ", "CSV-WIDE", "xml\u{0}", "日本", "İ", "annotated_text", "mermaid "]).to_string(),
        _ => {
            let n = s.below(8);
            (0..n).filter_map(|_| char::from_u32(s.raw() % 0x300)).collect()
        }
    }
}

fn c01_texts(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let k = key(s);
    let w = width(s);
    let f = any_format(s);
    let t = any_text(s);
    ctx.class(if guarded(|| decode_hex_bytes(&t).is_ok()).unwrap_or(true) { "hexadecimal" } else { "not hexadecimal" });
    ctx.nontrivial(&(t.as_str(), f.as_str()));
    ctx.sample(|| format!("{t:?} as {f:?}"));
    texts(&t, &f, k, w)?;
    legacy(&t, k)
}

/// Inputs far longer than any frame, built from one repeated piece.
fn c01_long(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let piece = match s.below(8) {
        0 => vec![0x8C, s.byte(), s.byte()],
        1 => vec![0x2F],
        2 => gen::a_header(s).bytes(),
        3 => {
            let n = s.range(1, 12);
            s.bytes(n)
        }
        4 => vec![*s.pick(&[0x0F, 0x1F, 0x3F, 0x7F, 0x80, 0xFF, 0x68, 0x10, 0x0D, 0xE5])],
        5 => s.pick(real()).clone(),
        _ => gen::record(s, &gen::FULL),
    };
    let start = if s.chance(1, 2) { gen::a_header(s).bytes() } else { vec![] };
    let size = 1usize << s.range(8, 17);
    let size = size + s.below(size / 2);
    let k = key(s);
    let mut b = start.clone();
    while b.len() < size && !piece.is_empty() {
        b.extend(&piece);
    }
    let what = format!("{} bytes of {} repeated after {}", b.len(), show(&piece), show(&start));
    ctx.sample(|| what.clone());
    ctx.nontrivial(&b);
    ctx.class(if b.len() > 65535 { "more than 65535 bytes" } else { "less" });
    // On a stack of the size that threads usually have.
    std::thread::scope(|scope| {
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(scope, || long_calls(&b, k, &what)).expect("spawn");
        t.join().unwrap_or_else(|_| Err(Fail::new("worker ended")))
    })
}

fn long_calls(b: &[u8], k: Option<[u8; 16]>, what: &str) -> CheckResult {
    let inp = || what.to_string();
    let n = call("DataRecords", &inp, || DataRecords::from(b).take(b.len() + 1).count())?;
    crate::ensure!(n <= b.len(), "DataRecords yields more than {} items from {what}", b.len());
    run("decode_data_records", &inp, || decode_data_records(b).map(|r| r.len()).map_err(|e| e.to_string()))?;
    run("parse_application_layer", &inp, || {
        parse_application_layer(b).map(|u| (u.is_encrypted(), u.variable_data_len(), u.data_records().map(|r| r.take(b.len()).count()))).map_err(|e| e.to_string())
    })?;
    run("annotate_frame", &inp, || annotate_frame(b).map(|s| s.len()).ok())?;
    run("decode_bytes", &inp, || decode_bytes(b, &sut::options(k, true)).map(|_| ()).map_err(|e| e.to_string()))?;
    for f in FORMATS {
        run(&format!("render_bytes as {f}"), &inp, || render_bytes(b, f, &RenderOptions { decode: sut::options(k, true), table_width: None }).map_or_else(|e| e.to_string().len(), |t| t.len()))?;
    }
    run("link layers", &inp, || {
        let mut out = vec![0u8; b.len()];
        let _ = (WiredFrame::try_from(b).is_ok(), WirelessFrame::try_from(b).is_ok(), trailing_frame_crc_start(b), strip_format_a_crcs(b, &mut out).map(<[u8]>::len));
    })?;
    let t = hex(b);
    run("decode_hex", &inp, || decode_hex(&t, &sut::options(k, true)).map(|_| ()).map_err(|e| e.to_string()))?;
    run("decode_data_records_hex", &inp, || decode_data_records_hex(&t).map(|r| r.len()).map_err(|e| e.to_string()))?;
    for n in LEGACY {
        run(&format!("serialize_mbus_data as {n}"), &inp, || serialize_mbus_data(&t, n, k.as_ref()).len())?;
    }
    Ok(())
}

/// Every one-, two- and (sharded) three-byte record block and application
/// payload, and all values of the small codecs.
fn c01_small(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    let step = if ctx.tier_thorough { 1 } else { 23 };
    let mut one = |b: &[u8]| -> CheckResult {
        ctx.evaluations += 1;
        bounded("DataRecords", b.len(), b, DataRecords::from(b))?;
        run("records", &|| show(b), || DataRecords::from(b).map(|r| r.map_or(0, |r| r.get_size())).sum::<usize>())?;
        run("decode_data_records", &|| show(b), || decode_data_records(b).map(|r| r.len()).map_err(|e| e.to_string()))?;
        run("parse_application_layer", &|| show(b), || parse_application_layer(b).is_ok())?;
        if b.len() <= 2 {
            let f = wired_long(8, 1, b);
            canonical(&f, None, None, false)?;
            low_level(b, &[1; 16], 16)?;
            legacy(&hex(&f), Some([1; 16]))?;
        }
        Ok(())
    };
    one(&[])?;
    for a in (shard..256).step_by(shards) {
        one(&[a as u8])?;
        for b in 0..256usize {
            one(&[a as u8, b as u8])?;
            for c in (((a + b) % step)..256).step_by(step) {
                one(&[a as u8, b as u8, c as u8])?;
                // A record with room for its data.
                let mut r = vec![a as u8, b as u8, c as u8];
                r.extend([0x11, 0x92, 0x53, 0x74, 0x35, 0x16, 0x57, 0x18, 0x99, 0x0A]);
                one(&r)?;
            }
        }
    }
    let inp = || String::from("code space");
    for w in (shard..65536).step_by(shards) {
        run("small codecs", &inp, || {
            let w = w as u16;
            let _ = ManufacturerCode::from_id(w).map(|m| (m.to_id(), m.to_string())).map_err(|e| e.to_string());
            let [l, h] = w.to_le_bytes();
            let c = ConfigurationField::from_bytes(l, h);
            let _ = (c.raw(), c.security_mode().to_string(), c.mode_specific_lower(), c.mode_specific_upper(), c.to_string(), format!("{c:?}"));
            let _ = IdentificationNumber::from_bcd_hex_digits([l, h, h, l]).map(|i| i.to_string());
            let _ = Counter::from_bcd_hex_digits([h, l, l, h]).map(|i| i.to_string());
            let _ = Function::try_from(l).map(|f| f.to_string()).map_err(|e| e.to_string());
            let _ = SecurityMode::from_bits(l).to_bits();
            let d = DeviceType::from(l);
            let _ = (d.to_string(), u8::from(d));
            let _ = ApplicationResetSubcode::from(l).to_string();
        })?;
        ctx.evaluations += 1;
        ctx.nontrivial(&w);
    }
    Ok(())
}

/// The key store under any sequence of calls.
fn c01_store(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let n = s.below(12);
    let ops: Vec<(u16, u32)> = (0..n).map(|_| (s.raw() as u16, s.raw())).collect();
    ctx.nontrivial(&ops);
    run("StaticKeyProvider", &|| format!("{ops:?}"), || {
        let mut a = StaticKeyProvider::<0>::new();
        let mut b = StaticKeyProvider::<3>::new();
        for (m, i) in &ops {
            let _ = a.add_key(*m, *i, [1; 16]);
            let _ = b.add_key(*m, *i, [2; 16]);
            if let Ok(code) = ManufacturerCode::from_id(*m) {
                let c = KeyContext { manufacturer: code, identification_number: *i, version: 1, device_type: DeviceType::from(*i as u8), security_mode: SecurityMode::from_bits(*m as u8), access_number: 3 };
                let _ = (a.get_key(&c).is_ok(), b.get_key(&c).is_ok());
                let data = i.to_le_bytes().repeat(*m as usize % 20);
                let mut out = vec![0u8; (*i as usize) % 90];
                let _ = m_bus_core::decryption::EncryptedPayload::new(&data, c).decrypt_into(&b, &mut out).map_err(|e| e.to_string());
            }
        }
    })?;
    Ok(())
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "every case calls all public decoding, rendering, annotating, low-level and record-iterating functions under a panic-catching caller with overflow checks on; counted non-trivial: distinct inputs (byte strings; text and format pairs; codes; key store histories)",
        both_builds: true,
        assumptions: &[
            "byte strings of any structure are at most 1024 bytes long, repeated ones at most 200000",
            "table widths are at most 4096 columns: the table is padded to the width asked for, so memory grows with it",
            "a call that takes more than 100 s is taken for one that does not return",
        ],
        parts: vec![
            Part { name: "byte strings", kind: Kind::Random { quick: 160_000, thorough: 3_000_000, tape: (20, 400), f: c01_bytes } },
            Part { name: "texts", kind: Kind::Random { quick: 100_000, thorough: 2_000_000, tape: (10, 200), f: c01_texts } },
            Part { name: "small blocks and codes", kind: Kind::Exhaustive { f: c01_small } },
            Part { name: "long inputs", kind: Kind::Random { quick: 600, thorough: 8_000, tape: (8, 60), f: c01_long } },
            Part { name: "key store", kind: Kind::Random { quick: 5_000, thorough: 100_000, tape: (4, 40), f: c01_store } },
        ],
    }
}
