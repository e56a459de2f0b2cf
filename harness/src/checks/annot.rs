//! Byte annotations: C17 and C29.

use m_bus_parser::{annotate, OutputFormat};
use serde_json::Value;

use crate::expect;
use crate::gen::{self, Frame, Hdr, Layout, Link};
use crate::model::{self, Comp, End, Val};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::sut;
use crate::util::hex_sp;

/// Role of one byte: kind, record and layer. `None` where nothing is said.
type Role = Option<(&'static str, Option<usize>, &'static str)>;

const FRAME: &str = "frame";
const HEAD: &str = "app_header";
const REC: &str = "record_field";

fn put(out: &mut Vec<Role>, n: usize, kind: &'static str, group: Option<usize>, layer: &'static str) {
    out.extend(std::iter::repeat_n(Some((kind, group, layer)), n));
}

fn record_roles(out: &mut Vec<Role>, block: &[u8]) {
    let base = out.len();
    let p = model::parse(block);
    for (n, r) in p.records.iter().enumerate() {
        let fillers = base + r.offset - out.len();
        put(out, fillers, "idle_filler", None, REC);
        let g = Some(n);
        if r.special() {
            let kind = if r.dif == 0x7F { "unknown" } else { "manufacturer_specific" };
            put(out, r.header.len() + r.data.len(), kind, g, REC);
            continue;
        }
        put(out, 1, "dif", g, REC);
        put(out, r.difes.len(), "dife", g, REC);
        put(out, 1, "vif", g, REC);
        if let (Some(t), true) = (&r.plain, model::plain_first()) {
            put(out, t.len() + 1, "plaintext_vif", g, REC);
        }
        put(out, r.vifes.len(), "vife", g, REC);
        if let (Some(t), false) = (&r.plain, model::plain_first()) {
            put(out, t.len() + 1, "plaintext_vif", g, REC);
        }
        put(out, r.data.len(), "data_payload", g, REC);
    }
    let all = base + block.len();
    match p.end {
        End::Complete => {
            let n = all - out.len();
            put(out, n, "idle_filler", None, REC);
        }
        End::Bad(o) => {
            let n = base + o - out.len();
            put(out, n, "idle_filler", None, REC);
            put(out, block.len() - o, "unknown", None, REC);
        }
        End::Open(_) => out.resize(all, None),
    }
}

fn short_roles(o: &mut Vec<Role>) {
    put(o, 1, "ci_field", None, HEAD);
    put(o, 1, "access_number", None, HEAD);
    put(o, 1, "status", None, HEAD);
    put(o, 2, "configuration_field", None, HEAD);
}

fn app_roles(f: &Frame, clear: Option<&[u8]>) -> Vec<Role> {
    let mut o = Vec::new();
    let control = matches!(f.link, Link::Wired { c: 0x53, .. });
    match &f.hdr {
        _ if control => {
            put(&mut o, f.app().len(), "unknown", None, HEAD);
            return o;
        }
        Hdr::Long(..) => {
            put(&mut o, 1, "ci_field", None, HEAD);
            put(&mut o, 4, "identification_number", None, HEAD);
            put(&mut o, 2, "manufacturer_code", None, HEAD);
            put(&mut o, 1, "version", None, HEAD);
            put(&mut o, 1, "device_type", None, HEAD);
            put(&mut o, 1, "access_number", None, HEAD);
            put(&mut o, 1, "status", None, HEAD);
            put(&mut o, 2, "configuration_field", None, HEAD);
        }
        Hdr::Short(..) => short_roles(&mut o),
        Hdr::Config(..) => {
            short_roles(&mut o);
            o.insert(1, Some(("encryption_config_byte", None, HEAD)));
        }
        Hdr::None => put(&mut o, 1, "ci_field", None, HEAD),
        Hdr::Ell1(_, _, inner) => {
            put(&mut o, 1, "ci_field", None, HEAD);
            put(&mut o, 2, "extended_link_layer", None, HEAD);
            match inner {
                Some(_) => short_roles(&mut o),
                None => put(&mut o, 1, "ci_field", None, HEAD),
            }
        }
        Hdr::Ell2(..) | Hdr::Ell3(..) => {
            let n = f.hdr.bytes().len();
            put(&mut o, 1, "ci_field", None, HEAD);
            put(&mut o, n - 1, "extended_link_layer", None, HEAD);
        }
        Hdr::Fixed { .. } | Hdr::Reset(_) => {
            put(&mut o, f.app().len(), "unknown", None, HEAD);
            return o;
        }
    }
    assert_eq!(o.len(), f.hdr.bytes().len(), "{:?}", f.hdr);
    match clear {
        Some(c) => record_roles(&mut o, c),
        None if expect::declares_encryption(&f.hdr) || !f.hdr.carries_records() => put(&mut o, f.block.len(), "encrypted_payload", None, REC),
        None => record_roles(&mut o, &f.block),
    }
    o
}

fn roles(f: &Frame, clear: Option<&[u8]>) -> Vec<Role> {
    let app = app_roles(f, clear);
    let mut o = Vec::new();
    match &f.link {
        Link::Wired { .. } => {
            put(&mut o, 1, "start_byte", None, FRAME);
            put(&mut o, 2, "length", None, FRAME);
            put(&mut o, 1, "start_byte", None, FRAME);
            put(&mut o, 1, "c_field", None, FRAME);
            put(&mut o, 1, "a_field", None, FRAME);
            o.extend(app);
            put(&mut o, 1, "checksum", None, FRAME);
            put(&mut o, 1, "stop_byte", None, FRAME);
        }
        Link::Wireless { layout, .. } => {
            put(&mut o, 1, "l_field", None, FRAME);
            put(&mut o, 1, "c_field", None, FRAME);
            put(&mut o, 2, "manufacturer_code", None, FRAME);
            put(&mut o, 4, "identification_number", None, FRAME);
            put(&mut o, 1, "version", None, FRAME);
            put(&mut o, 1, "device_type", None, FRAME);
            match layout {
                Layout::Plain => o.extend(app),
                Layout::Trailing => {
                    o.extend(app);
                    put(&mut o, 2, "crc", None, FRAME);
                }
                Layout::FormatA => {
                    put(&mut o, 2, "crc", None, FRAME);
                    for c in app.chunks(16) {
                        o.extend_from_slice(c);
                        put(&mut o, 2, "crc", None, FRAME);
                    }
                }
            }
        }
    }
    o
}

/// Segments cover `bytes` once, in order.
pub fn tiles(segments: &[Value], n: usize) -> CheckResult {
    let mut at = 0;
    for s in segments {
        let (a, b) = (s["start"].as_u64(), s["end"].as_u64());
        ensure!(a == Some(at) && b > a, "segment {s} where byte {at} is next");
        at = b.unwrap();
    }
    ensure_eq!(at, n as u64, "end of the last segment");
    Ok(())
}

fn check_roles(want: &[Role], segments: &[Value]) -> CheckResult {
    tiles(segments, want.len())?;
    for s in segments {
        for i in s["start"].as_u64().unwrap() as usize..s["end"].as_u64().unwrap() as usize {
            let Some((kind, group, layer)) = want[i] else { continue };
            ensure!(
                s["kind"] == kind && s["group"].as_u64().map(|g| g as usize) == group && s["layer"] == layer,
                "byte {i} is {kind} {group:?} {layer}, segment {s}"
            );
        }
    }
    // Neighbouring fields of one kind are still told apart.
    for w in segments.windows(2) {
        let same = w[0]["kind"] == w[1]["kind"] && w[0]["group"] == w[1]["group"] && w[0]["layer"] == w[1]["layer"];
        ensure!(!same || w[0]["kind"] == "idle_filler" || w[0]["kind"] == "unknown", "one field in two segments {} {}", w[0], w[1]);
    }
    Ok(())
}

fn kind_label(kind: &str) -> String {
    match kind {
        "dif" | "dife" | "vif" | "vife" | "crc" => kind.to_uppercase(),
        "ci_field" => "CI Field".into(),
        "plaintext_vif" => "Plaintext VIF".into(),
        "data_payload" => "Data".into(),
        _ => kind
            .split('_')
            .map(|w| w[..1].to_uppercase() + &w[1..])
            .collect::<Vec<_>>()
            .join(" "),
    }
}

/// The bytes are dumped, and every segment has its row with its bytes, kind and
/// detail, under the heading of its record.
pub fn check_text(segments: &[Value], bytes: &[u8], text: &str) -> CheckResult {
    let mut dump = text.lines();
    for (n, c) in bytes.chunks(16).enumerate() {
        let place = format!("{:04X}", n * 16);
        let Some(row) = dump.by_ref().find_map(|l| l.trim_start().strip_prefix(&place)) else { fail!("no dump line {place}\n{text}") };
        let mut words = row.split_ascii_whitespace();
        for b in c {
            ensure_eq!(words.next(), Some(format!("{b:02X}").as_str()), "dump line {place}\n{text}");
        }
        let shown: String = c.iter().map(|b| if b.is_ascii_graphic() || *b == b' ' { char::from(*b) } else { '·' }).collect();
        ensure!(row.ends_with(&shown), "characters of dump line {place}: {row:?}, bytes {shown:?}");
    }
    let mut rest = text;
    let mut record = None;
    let mut layer = "";
    for s in segments {
        let (a, b) = (s["start"].as_u64().unwrap() as usize, s["end"].as_u64().unwrap() as usize);
        let place = if b - a == 1 { format!("[{a:02X}]") } else { format!("[{a:02X}..{b:02X}]") };
        let mut data = hex_sp(&bytes[a..b.min(a + 8)]);
        if b - a > 8 {
            data.push_str(" ...");
        }
        let label = kind_label(s["kind"].as_str().unwrap());
        let detail = s["detail"].as_str().unwrap();
        loop {
            ensure!(!rest.is_empty(), "no row for segment {s}\n{text}");
            let (l, after) = rest.split_once('\n').unwrap_or((rest, ""));
            let whole = rest;
            rest = after;
            if let Some(n) = l.strip_prefix("│  ── Record ").and_then(|r| r.strip_suffix(" ──")) {
                record = n.parse::<u64>().ok();
            }
            if let Some(n) = l.strip_prefix("┌─ ") {
                layer = n.trim_end_matches('─').trim_end();
                record = None;
            }
            let mut row = Some(whole);
            for part in ["│", &place, &data, &label] {
                row = row.and_then(|r| r.strip_prefix(part)).map(|r| r.trim_start_matches(' '));
            }
            // The detail may begin with spaces and contain line ends.
            let Some(row) = row else { continue };
            let Some(after) = row.strip_prefix(detail.trim_start_matches(' ')).and_then(|r| r.strip_prefix('\n')) else {
                fail!("row {l:?} does not end in the detail of {s}\n{text}")
            };
            rest = after;
            break;
        }
        let part = match s["layer"].as_str().unwrap_or("") {
            "frame" => "Frame",
            "app_header" => "Application Header",
            "record_field" => "Data Records",
            o => fail!("layer {o:?} of segment {s}"),
        };
        ensure_eq!(layer, part, "layer above segment {s}\n{text}");
        if let Some(g) = s["group"].as_u64() {
            ensure_eq!(record, Some(g), "heading above segment {s}\n{text}");
        }
    }
    Ok(())
}

pub fn segments(bytes: &[u8]) -> Result<Vec<Value>, Fail> {
    let s = annotate::annotate_frame(bytes).map_err(|e| Fail::new(format!("not annotated: {e}")))?;
    Ok(s.iter().map(|x| serde_json::to_value(x).expect("serialises")).collect())
}

pub fn annotated_json(bytes: &[u8], key: Option<[u8; 16]>) -> Result<Value, Fail> {
    let t = sut::render(bytes, OutputFormat::Annotated, key, None).map_err(|e| Fail::new(format!("not annotated: {e}")))?;
    serde_json::from_str(&t).map_err(|e| Fail::new(format!("annotated JSON: {e}")))
}

fn check_outputs(bytes: &[u8], segs: &[Value]) -> CheckResult {
    let v = annotated_json(bytes, None)?;
    ensure_eq!(v["bytes"], Value::from(bytes.to_vec()), "bytes of the annotated JSON");
    ensure_eq!(v["segments"], Value::from(segs.to_vec()), "segments of the annotated JSON");
    ensure_eq!(v["decrypted"], false, "decrypted");
    let t = sut::render(bytes, OutputFormat::AnnotatedText, None, None).map_err(|e| Fail::new(format!("no annotated text: {e}")))?;
    check_text(segs, bytes, &t)
}

/// The bytes of each group are those of the decoded record of that number.
fn same_records(bytes: &[u8], segs: &[Value]) -> CheckResult {
    let Ok(v) = sut::decode(bytes, None) else {
        return Ok(());
    };
    // A header that is not read may still have its bytes explained.
    let unread = |d: &Value| d["layer"] == "application" && d["code"] != "application.record_partial";
    if v["diagnostics"].as_array().is_some_and(|d| d.iter().any(unread)) {
        return Ok(());
    }
    let mut groups: Vec<String> = vec![];
    for s in segs {
        let Some(g) = s["group"].as_u64().map(|g| g as usize) else {
            continue;
        };
        ensure!(g == groups.len() || g + 1 == groups.len(), "record {g} follows {} others", groups.len());
        groups.resize(g + 1, String::new());
        let at = |name: &str| s[name].as_u64().unwrap() as usize;
        for b in &bytes[at("start")..at("end")] {
            groups[g] += &format!("{b:02X}");
        }
    }
    let records = sut::records(&v);
    ensure_eq!(groups.len(), records.len(), "number of records");
    for (g, r) in groups.iter().zip(records) {
        let want: String = ["header_hex", "data_hex"].iter().filter_map(|k| r[*k].as_str()).flat_map(|t| t.split(' ')).collect();
        ensure_eq!(*g, want, "bytes of record {}", r["index"]);
    }
    Ok(())
}

fn c17_frame(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let damage = s.chance(1, 4).then(|| (s.below(3), s.raw() as usize, s.byte()));
    let with_text = s.chance(1, 4);
    let opts = if s.chance(1, 4) { gen::TEXTY } else { gen::FULL };
    let unusual = s.chance(1, 6).then(|| gen::a_header(s));
    let mut f = if s.chance(2, 3) { gen::clear_frame(s, &opts, 8) } else { gen::any_frame(s, &opts, 6) };
    if let (Some(h), true) = (unusual, f.hdr.carries_records()) {
        let conf = f.hdr.conf();
        f.hdr = h;
        f.hdr.set_conf(conf.unwrap_or([1, 0]));
        f.block.truncate(f.link.room() - f.hdr.bytes().len());
    }
    if let (Some((kind, place, byte)), false) = (damage, f.block.is_empty()) {
        let i = place % f.block.len();
        match kind {
            0 => f.block.truncate(i),
            1 => f.block[i] = byte,
            _ => {
                f.block.remove(i);
            }
        }
    }
    let bytes = f.bytes();
    ctx.sample(|| hex_sp(&bytes));
    if f.ambiguous() {
        ctx.class("ambiguous CRC");
        return Ok(());
    }
    let at = |e: Fail| Fail::new(format!("[{}]: {e}", hex_sp(&bytes)));
    let segs = segments(&bytes).map_err(at)?;
    check_roles(&roles(&f, None), &segs).map_err(at)?;
    // Groups count the decoded records.
    if f.hdr.carries_records() && !expect::declares_encryption(&f.hdr) && !matches!(model::parse(&f.block).end, End::Open(_)) {
        if let Ok(v) = sut::decode(&bytes, None) {
            let n = sut::records(&v).len() as u64;
            let groups = segs.iter().filter_map(|s| s["group"].as_u64()).max().map_or(0, |g| g + 1);
            if !matches!(f.link, Link::Wired { c: 0x53, .. }) {
                ensure_eq!(groups, n, "[{}]: number of records", hex_sp(&bytes));
            }
        }
    }
    if !matches!(f.link, Link::Wired { c: 0x53, .. }) {
        same_records(&bytes, &segs).map_err(at)?;
    }
    if with_text {
        check_outputs(&bytes, &segs).map_err(at)?;
    }
    ctx.class(f.hdr.name());
    ctx.class(match &f.link {
        Link::Wired { .. } => "wired",
        Link::Wireless { layout: Layout::Plain, .. } => "wireless, plain",
        Link::Wireless { layout: Layout::Trailing, .. } => "wireless, trailing CRC",
        Link::Wireless { layout: Layout::FormatA, .. } => "wireless, Format A",
    });
    ctx.nontrivial(&bytes);
    Ok(())
}

/// A frame encrypted with the returned key, and its clear block.
pub fn protected(s: &mut Source) -> (Frame, [u8; 16], Vec<u8>) {
    let ident = gen::ident(s);
    let mut sh = gen::short(s);
    let mode = *s.pick(&[5u8, 7]);
    let long = s.chance(1, 2);
    let link = if long { gen::link(s) } else { Link::Wireless { c: 0x44, ident: ident.clone(), layout: *s.pick(&gen::LAYOUTS) } };
    let mut clear = gen::block(s, &gen::FULL, 5, 208);
    clear.resize(clear.len().div_ceil(16).max(1) * 16, 0x2F);
    sh.conf = [((clear.len() / 16).min(15) as u8) << 4, mode];
    let k: [u8; 16] = s.bytes(16).try_into().unwrap();
    let block = gen::encrypt(mode, &k, &ident, sh.access, &clear);
    let hdr = if long { Hdr::Long(ident, sh) } else { Hdr::Short(0x7A, sh) };
    (Frame { link, hdr, block }, k, clear)
}

fn c17_decrypted(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (f, k, clear) = protected(s);
    let bytes = f.bytes();
    ctx.sample(|| hex_sp(&bytes));
    if f.ambiguous() {
        return Ok(());
    }
    let at = |e: Fail| Fail::new(format!("[{}]: {e}", hex_sp(&bytes)));
    let v = annotated_json(&bytes, Some(k)).map_err(at)?;
    ensure_eq!(v["decrypted"], true, "[{}]", hex_sp(&bytes));
    ensure_eq!(v["original"]["bytes"], Value::from(bytes.clone()), "original bytes");
    let orig = v["original"]["segments"].as_array().cloned().unwrap_or_default();
    check_roles(&roles(&f, None), &orig).map_err(at)?;
    // The shown frame is the same frame with the clear block, without wireless CRCs.
    let shown = Frame { link: f.link.with_layout(Layout::Plain), hdr: f.hdr.clone(), block: clear.clone() };
    if shown.ambiguous() {
        return Ok(());
    }
    ensure_eq!(v["bytes"], Value::from(shown.bytes()), "[{}]: shown bytes", hex_sp(&bytes));
    let segs = v["segments"].as_array().cloned().unwrap_or_default();
    check_roles(&roles(&shown, Some(&clear)), &segs).map_err(at)?;
    ctx.class(if f.link.is_wired() { "wired" } else { "wireless" });
    ctx.nontrivial(&bytes);
    Ok(())
}

/// Anything accepted is tiled, whatever its payload.
fn c17_any(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let kind = s.below(4);
    let (place, byte) = (s.raw() as usize, s.byte());
    let mut b = match kind {
        0 => {
            let c = *s.pick(&[0x40u8, 0x5A, 0x5B, 0x7A, 0x7B]);
            let a = s.byte();
            if s.chance(1, 10) { vec![0xE5] } else { vec![0x10, c, a, c.wrapping_add(a), 0x16] }
        }
        1 => {
            // Headers of every kind, cut anywhere.
            let link = gen::link(s);
            let ci = if s.chance(1, 2) { *s.pick(&[0x72u8, 0x76, 0x7A, 0x78, 0x73, 0x50, 0x8C, 0x8D, 0x8E, 0x8F, 0xA0, 0xA1, 0xAF]) } else { byte };
            let mut app = vec![ci];
            let n = s.below(30);
            app.extend(s.bytes(n));
            app.truncate(link.room());
            link.frame(&app)
        }
        2 => {
            let mut b = gen::any_frame(s, &gen::FULL, 4).bytes();
            let i = place % b.len();
            b[i] = byte;
            b
        }
        _ => {
            let n = s.below(60);
            s.bytes(n)
        }
    };
    if kind == 2 && byte & 1 == 0 {
        b.truncate(place % b.len());
    }
    ctx.sample(|| hex_sp(&b));
    let accepted = match sut::decode(&b, None) {
        Ok(_) => true,
        Err(e) => !matches!(e.code(), "input.empty" | "frame.invalid"),
    };
    if !accepted {
        ctx.class("refused");
        return Ok(());
    }
    let at = |e: Fail| Fail::new(format!("[{}]: {e}", hex_sp(&b)));
    let segs = segments(&b).map_err(at)?;
    tiles(&segs, b.len()).map_err(at)?;
    check_outputs(&b, &segs).map_err(at)?;
    let control = b[0] == 0x68 && b.get(3..5) == Some(&[0x68, 0x53]);
    if !control {
        same_records(&b, &segs).map_err(at)?;
    }
    if kind == 0 && b.len() == 5 {
        let kinds: Vec<_> = segs.iter().map(|s| s["kind"].as_str().unwrap()).collect();
        ensure_eq!(kinds, ["start_byte", "c_field", "a_field", "checksum", "stop_byte"], "[{}]", hex_sp(&b));
    }
    ctx.class(["short frame", "any payload", "damaged frame", "random bytes"][kind]);
    ctx.nontrivial(&b);
    Ok(())
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "Frames of every kind in every CRC layout, some with damaged or encrypted blocks; the role, record and layer of each byte from the reference model is compared with the segment covering it; decrypted views are compared likewise; any other accepted byte string must be tiled and shown. Non-trivial: the segments of an accepted frame were compared.",
        both_builds: true,
        assumptions: &[
            "fixed-structure, reset and control frame payloads are one unknown field",
            "bytes of a block after the first record that does not decode are unknown and belong to no record",
            "the decrypted view is the frame with the clear block, without wireless CRCs",
        ],
        parts: vec![
            Part { name: "frames", kind: Kind::Random { quick: 720_000, thorough: 8_640_000, tape: (16, 260), f: c17_frame } },
            Part { name: "decrypted", kind: Kind::Random { quick: 120_000, thorough: 1_440_000, tape: (40, 260), f: c17_decrypted } },
            Part { name: "any", kind: Kind::Random { quick: 240_000, thorough: 2_880_000, tape: (8, 80), f: c17_any } },
        ],
    }
}

// ---------------------------------------------------------------- details

/// Whether the text quotes the hex digits as a word of their own.
fn quotes_hex(text: &str, digits: &str) -> bool {
    let t = text.to_uppercase();
    t.match_indices(digits).any(|(i, _)| {
        let before = t[..i].chars().next_back();
        let after = t[i + digits.len()..].chars().next();
        let own = |c: Option<char>| c.is_none_or(|c| !c.is_ascii_alphanumeric());
        (own(before) || t[..i].ends_with("0X")) && own(after)
    })
}

/// Whether the text quotes the number in decimal.
fn quotes_number(text: &str, n: usize) -> bool {
    text.split(|c: char| !c.is_ascii_alphanumeric()).any(|w| w == n.to_string())
}

const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

fn comp_text(c: &Comp, month: bool) -> String {
    match c {
        Comp::Every => "Every".into(),
        Comp::Invalid => "Invalid".into(),
        Comp::Single(n) if month => MONTHS[usize::from(*n) - 1].into(),
        Comp::Single(n) => n.to_string(),
    }
}

/// The displayed raw value of a record against the encoded one. `false` where
/// nothing is said about it.
pub fn check_shown(m: &model::Record, text: &str) -> Result<bool, Fail> {
    let at = hex_sp(&m.bytes());
    let number = |want: f64| -> CheckResult {
        let Ok(x) = text.parse::<f64>() else { fail!("[{at}]: {text:?} shown for the number {want}") };
        ensure!(x == want || (x.is_nan() && want.is_nan()) || (x - want).abs() <= 1e-12 * want.abs(), "[{at}]: {text:?} shown for the number {want}");
        Ok(())
    };
    let words = |want: Vec<String>| -> CheckResult {
        let got: Vec<&str> = text.split(['/', ' ', ':', '-', 'T']).collect();
        ensure_eq!(got, want, "[{at}]: {text:?} shown");
        Ok(())
    };
    let (c, month) = (|x: &Comp| comp_text(x, false), |x: &Comp| comp_text(x, true));
    match &m.value {
        Val::Float(b) => number(f64::from(f32::from_bits(*b)))?,
        Val::Text(t) => ensure_eq!(text, t, "[{at}]: shown text"),
        Val::Date { day, month: mo, year } => words(vec![c(day), month(mo), c(year)])?,
        Val::Time { hour, minute, second } => words(vec![c(hour), c(minute), c(second)])?,
        Val::DateTime { day, month: mo, year, hour, minute, second } => {
            let s = second.as_ref().map_or("00".into(), c);
            words(vec![c(day), month(mo), c(year), c(hour), c(minute), s])?
        }
        _ => match &m.significand {
            Some(n) => number(n.parse().unwrap())?,
            None => return Ok(false),
        },
    }
    Ok(true)
}

/// Joins the parts of a field that a block CRC cuts in two.
fn fields(segments: &[Value], bytes: &[u8]) -> Vec<(Value, Vec<u8>)> {
    let mut out: Vec<(Value, Vec<u8>)> = vec![];
    let mut crc: Option<(u64, u64, u64)> = None;
    for s in segments {
        let (a, b) = (s["start"].as_u64().unwrap(), s["end"].as_u64().unwrap());
        let data = &bytes[a as usize..b as usize];
        if s["kind"] == "crc" {
            out.push((s.clone(), data.to_vec()));
            crc = Some((a, b, 0));
            continue;
        }
        if let (Some((from, to, _)), true) = (crc.take(), s["kind"] != "idle_filler") {
            let n = out.len();
            if to == a && n >= 2 {
                let (p, have) = &mut out[n - 2];
                let same = |k: &str| p[k] == s[k];
                if p["end"] == from && same("kind") && same("group") && same("detail") && same("layer") {
                    have.extend_from_slice(data);
                    p["end"] = b.into();
                    let c = out.pop().unwrap();
                    out.insert(n - 2, c);
                    continue;
                }
            }
        }
        out.push((s.clone(), data.to_vec()));
    }
    out
}

/// The header kind that a control information byte announces.
fn names_ci(t: &str, ci: u8) -> bool {
    let words: Vec<&str> = t.split(|c: char| !c.is_alphanumeric()).collect();
    let want = match ci {
        0x72 => "Long",
        0x7A | 0xA0..=0xAF => "Short",
        0x78 => "no",
        0x8C => "I",
        0x8D => "II",
        0x8E => "III",
        _ => return true,
    };
    words.contains(&want)
}

/// Every detail quotes the bytes of its field.
fn check_details(f: &Frame, clear: Option<&[u8]>, segments: &[Value], bytes: &[u8]) -> Result<usize, Fail> {
    let block = clear.unwrap_or(&f.block);
    let p = model::parse(block);
    let shown = f.hdr.carries_records() && (clear.is_some() || !expect::declares_encryption(&f.hdr));
    let mut n = 0;
    for (s, d) in fields(segments, bytes) {
        let t = s["detail"].as_str().unwrap();
        let kind = s["kind"].as_str().unwrap();
        let record = s["group"].as_u64().filter(|_| shown).and_then(|g| p.records.get(g as usize));
        let whole: String = d.iter().map(|b| format!("{b:02X}")).collect();
        let ok = match kind {
            "c_field" if f.link.is_wired() => expect::function_name(d[0]).is_none_or(|w| t.contains(w)),
            "a_field" => t.contains(&expect::address_name(d[0])),
            "start_byte" | "stop_byte" | "checksum" | "c_field" | "crc" | "identification_number" | "manufacturer_code" | "device_type" | "status"
            | "configuration_field" | "encryption_config_byte" | "dif" | "vif" | "idle_filler" => quotes_hex(t, &whole),
            "ci_field" => quotes_hex(t, &whole) && names_ci(t, d[0]),
            "length" | "l_field" | "version" | "access_number" => quotes_number(t, usize::from(d[0])),
            "dife" | "vife" => quotes_number(t, d.len()),
            "manufacturer_specific" => quotes_hex(t, &whole[..2]) && quotes_number(t, d.len()) && (d[0] == 0x1F) == t.contains("More"),
            "unknown" if record.is_some_and(|r| r.special()) => quotes_hex(t, &whole),
            "unknown" if matches!(f.hdr, Hdr::Fixed { .. } | Hdr::Reset(_)) && s["layer"] == HEAD && !matches!(f.link, Link::Wired { c: 0x53, .. }) => quotes_hex(t, &whole[..2]),
            "plaintext_vif" => {
                let text: String = d[1..].iter().map(|b| char::from(*b)).collect();
                record.is_none() || t.contains(&format!("\"{text}\""))
            }
            "data_payload" => {
                if let Some(r) = record {
                    check_shown(r, t)?;
                }
                true
            }
            _ => continue,
        };
        ensure!(ok, "detail of {s} does not quote {}", hex_sp(&d));
        n += 1;
    }
    Ok(n)
}

fn c29_frame(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let with_text = s.chance(1, 3);
    let opts = if s.chance(1, 3) { gen::TEXTY } else { gen::FULL };
    let unusual = s.chance(1, 6).then(|| gen::a_header(s));
    let mut f = if s.chance(2, 3) { gen::clear_frame(s, &opts, 8) } else { gen::any_frame(s, &opts, 6) };
    if let (Some(h), true) = (unusual, f.hdr.carries_records()) {
        let conf = f.hdr.conf();
        f.hdr = h;
        f.hdr.set_conf(conf.unwrap_or([1, 0]));
        f.block.truncate(f.link.room() - f.hdr.bytes().len());
    }
    let bytes = f.bytes();
    ctx.sample(|| hex_sp(&bytes));
    if f.ambiguous() {
        ctx.class("ambiguous CRC");
        return Ok(());
    }
    let at = |e: Fail| Fail::new(format!("[{}]: {e}", hex_sp(&bytes)));
    let segs = segments(&bytes).map_err(at)?;
    tiles(&segs, bytes.len()).map_err(at)?;
    check_details(&f, None, &segs, &bytes).map_err(at)?;
    if with_text {
        let t = sut::render(&bytes, OutputFormat::AnnotatedText, None, None).map_err(|e| Fail::new(format!("no annotated text: {e}")))?;
        check_text(&segs, &bytes, &t).map_err(at)?;
        ctx.class("text compared");
    }
    for s in &segs {
        ctx.class(s["kind"].as_str().unwrap());
    }
    ctx.nontrivial(&bytes);
    Ok(())
}

fn c29_decrypted(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (f, k, clear) = protected(s);
    let bytes = f.bytes();
    ctx.sample(|| hex_sp(&bytes));
    let shown = Frame { link: f.link.with_layout(Layout::Plain), hdr: f.hdr.clone(), block: clear.clone() };
    if f.ambiguous() || shown.ambiguous() {
        return Ok(());
    }
    let at = |e: Fail| Fail::new(format!("[{}]: {e}", hex_sp(&bytes)));
    let v = annotated_json(&bytes, Some(k)).map_err(at)?;
    let segs = v["segments"].as_array().cloned().unwrap_or_default();
    let b = shown.bytes();
    ensure_eq!(v["bytes"], Value::from(b.clone()), "[{}]: shown bytes", hex_sp(&bytes));
    check_details(&shown, Some(&clear), &segs, &b).map_err(at)?;
    let orig = v["original"]["segments"].as_array().cloned().unwrap_or_default();
    check_details(&f, None, &orig, &bytes).map_err(at)?;
    ctx.class(if f.link.is_wired() { "wired" } else { "wireless" });
    ctx.nontrivial(&bytes);
    Ok(())
}

/// Short and single character frames.
fn c29_short(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let c = *s.pick(&[0x40u8, 0x5A, 0x5B, 0x7A, 0x7B]);
    let a = s.byte();
    let b = if s.chance(1, 40) { vec![0xE5] } else { vec![0x10, c, a, c.wrapping_add(a), 0x16] };
    ctx.sample(|| hex_sp(&b));
    let at = |e: Fail| Fail::new(format!("[{}]: {e}", hex_sp(&b)));
    let segs = segments(&b).map_err(at)?;
    tiles(&segs, b.len()).map_err(at)?;
    let f = Frame { link: Link::Wired { c, a }, hdr: Hdr::None, block: vec![] };
    check_details(&f, None, &segs, &b).map_err(at)?;
    let t = sut::render(&b, OutputFormat::AnnotatedText, None, None).map_err(|e| Fail::new(format!("no annotated text: {e}")))?;
    check_text(&segs, &b, &t).map_err(at)?;
    ctx.nontrivial(&b);
    Ok(())
}

pub fn c29() -> Property {
    Property {
        id: "C29",
        rule: "Frames of every kind in every CRC layout, decrypted views, and short frames; the detail of each segment must quote the byte values, counts or decoded raw value of the segment's own bytes, and the annotated text must dump every byte and show every segment with its bytes and detail. Non-trivial: the details of an accepted frame were compared.",
        both_builds: true,
        assumptions: &[
            "a field that a block CRC cuts in two has one detail for the whole field",
            "fields of several bytes are quoted in the order of transmission",
            "details of encrypted, extended link layer and undecodable bytes are not compared",
        ],
        parts: vec![
            Part { name: "frames", kind: Kind::Random { quick: 480_000, thorough: 5_760_000, tape: (16, 260), f: c29_frame } },
            Part { name: "decrypted", kind: Kind::Random { quick: 100_000, thorough: 1_200_000, tape: (40, 260), f: c29_decrypted } },
            Part { name: "short", kind: Kind::Random { quick: 10_000, thorough: 40_000, tape: (4, 8), f: c29_short } },
        ],
    }
}
