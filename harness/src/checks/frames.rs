//! Link and transport layer: C02, C03, C04, C26, C32.

use m_bus_parser::{Address, Function, WiredFrame, WirelessFrame};
use serde_json::{json, Value};

use super::records::decode_ok;
use crate::expect;
use crate::gen::{self, Frame, Hdr, Layout, Link};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::sut;
use crate::util::{crc16, hex, hex_sp, wired_long};

// ------------------------------------------------------------------ C02

/// What a byte string means as a wired frame.
#[derive(Debug, PartialEq)]
enum Wired {
    Single,
    Short(u8, u8),
    Long(u8, u8, Vec<u8>),
    Rejected,
}

fn wired_meaning(f: &[u8]) -> Wired {
    if !gen::wired_well_formed(f) {
        return Wired::Rejected;
    }
    match f[0] {
        0xE5 => Wired::Single,
        0x10 if expect::function_name(f[1]).is_some() => Wired::Short(f[1], f[2]),
        0x68 if expect::function_name(f[4]).is_some() => Wired::Long(f[4], f[5], f[6..f.len() - 2].to_vec()),
        _ => Wired::Rejected,
    }
}

fn core_function(c: u8) -> Function {
    match c {
        0x40 => Function::SndNk { prm: false },
        0x44 => Function::SndNr,
        0x53 | 0x73 => Function::SndUd { fcb: c & 0x20 != 0 },
        0x5A | 0x7A => Function::ReqUd1 { fcb: c & 0x20 != 0 },
        0x5B | 0x7B => Function::ReqUd2 { fcb: c & 0x20 != 0 },
        _ => Function::RspUd { acd: c & 0x20 != 0, dfc: c & 0x10 != 0 },
    }
}

fn core_address(a: u8) -> Address {
    match a {
        0 => Address::Uninitalized,
        253 => Address::Secondary,
        254 => Address::Broadcast { reply_required: true },
        255 => Address::Broadcast { reply_required: false },
        n => Address::Primary(n),
    }
}

fn c02_compare(f: &[u8]) -> CheckResult {
    let want = wired_meaning(f);
    let low = WiredFrame::try_from(f);
    let canonical = sut::decode(f, None);
    match &want {
        Wired::Rejected => {
            if let Ok(x) = &low {
                fail!("accepted as a wired frame: {x:?}");
            }
            match &canonical {
                Ok(v) => ensure!(v["protocol"] != "wired", "decoded as a wired frame"),
                Err(e) => ensure!(matches!(e.code(), "frame.invalid" | "input.empty"), "error code {}", e.code()),
            }
        }
        _ => {
            let low = match low {
                Ok(l) => l,
                Err(e) => fail!("well-formed wired frame refused: {e:?}"),
            };
            let v = match canonical {
                Ok(v) => v,
                Err(e) => fail!("well-formed wired frame refused: {} {e}", e.code()),
            };
            ensure_eq!(v["protocol"], "wired", "protocol");
            let mut frame = json!({});
            match &want {
                Wired::Single => {
                    ensure_eq!(low, WiredFrame::SingleCharacter { character: 0xE5 }, "low-level frame");
                    frame["kind"] = "single_character".into();
                }
                Wired::Short(c, a) => {
                    ensure_eq!(low, WiredFrame::ShortFrame { function: core_function(*c), address: core_address(*a) }, "low-level frame");
                    frame = json!({"kind": "short", "function": expect::function_name(*c), "address": expect::address_name(*a)});
                }
                Wired::Long(c, a, data) => {
                    let (function, address) = (core_function(*c), core_address(*a));
                    let expected = if *c == 0x53 {
                        WiredFrame::ControlFrame { function, address, data }
                    } else {
                        WiredFrame::LongFrame { function, address, data }
                    };
                    ensure_eq!(low, expected, "low-level frame");
                    frame = expect::frame_section(&Link::Wired { c: *c, a: *a });
                    if *c != 0x53 && !data.is_empty() {
                        ensure_eq!(v["raw"]["payload_hex"].as_str().unwrap_or(""), hex(data), "user data");
                    }
                }
                Wired::Rejected => {}
            }
            ensure_eq!(v["frame"], frame, "frame section");
            ensure_eq!(v["raw"]["original_frame_hex"].as_str().unwrap_or("?"), hex(f), "frame bytes");
            ensure_eq!(v["raw"]["byte_length"], json!(f.len()), "frame length");
        }
    }
    Ok(())
}

fn c02_check(f: &[u8], ctx: &mut Ctx) -> CheckResult {
    ctx.class(match wired_meaning(f) {
        Wired::Single => "single character",
        Wired::Short(..) => "short frame",
        Wired::Long(0x53, ..) => "control frame",
        Wired::Long(..) => "long frame",
        Wired::Rejected => "rejected",
    });
    c02_compare(f).map_err(|e| Fail::new(format!("[{}]: {}", hex_sp(f), e.message)))
}

fn valid_wired(s: &mut Source) -> Vec<u8> {
    let c = if s.chance(1, 8) { s.byte() } else { *s.pick(gen::WIRED_C) };
    let c = if s.chance(1, 8) { 0x53 } else { c };
    let a = s.edgy_byte();
    match s.weighted(&[6, 3, 1]) {
        0 => {
            let n = match s.below(4) {
                0 => s.below(4),
                1 => s.range(250, 253),
                _ => s.below(254),
            };
            wired_long(c, a, &s.bytes(n))
        }
        1 => vec![0x10, c, a, c.wrapping_add(a), 0x16],
        _ => vec![0xE5],
    }
}

fn fix_sum(f: &mut [u8]) {
    let n = f.len();
    if n >= 3 {
        let from = if f[0] == 0x68 { 4.min(n - 2) } else { 1.min(n - 2) };
        f[n - 2] = f[from..n - 2].iter().fold(0u8, |s, b| s.wrapping_add(*b));
    }
}

fn c02_random(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let mut f = valid_wired(s);
    let n = s.below(4);
    if s.chance(1, 12) && f.len() > 6 {
        // More user data than a length byte can tell.
        let extra = *s.pick(&[256usize, 256, 512, 255, 257]);
        let at = f.len() - 2;
        f.splice(at..at, (0..extra).map(|i| i as u8));
        fix_sum(&mut f);
    }
    for _ in 0..n {
        if f.is_empty() {
            break;
        }
        let i = match s.below(3) {
            0 => s.below(f.len()),
            1 => s.below(f.len().min(6)),
            _ => f.len() - 1 - s.below(f.len().min(3)),
        };
        match s.below(9) {
            0 => f[i] = s.byte(),
            1 => f[i] ^= 1 << s.below(8),
            2 => {
                f.remove(i);
            }
            3 => f.insert(i, s.edgy_byte()),
            4 => f.push(s.edgy_byte()),
            5 => f.truncate(i),
            6 => fix_sum(&mut f),
            7 => {
                // Announced lengths off by a little, both or one.
                if f.len() > 3 {
                    let d = *s.pick(&[1u8, 2, 255, 254, 128]);
                    f[1] = f[1].wrapping_add(d);
                    if s.chance(1, 2) {
                        f[2] = f[2].wrapping_add(d);
                    }
                }
            }
            _ => {
                // Swapping two data bytes keeps the checksum.
                let j = s.below(f.len());
                f.swap(i, j);
            }
        }
    }
    ctx.sample(|| hex_sp(&f));
    c02_check(&f, ctx)?;
    if n > 0 || f.len() > 6 {
        ctx.nontrivial(&f);
    }
    Ok(())
}

fn c02_exhaustive(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    for c in 0..=255u8 {
        if usize::from(c) % shards != shard {
            continue;
        }
        for a in 0..=255u8 {
            for f in [
                wired_long(c, a, &[0x78]),
                wired_long(c, a, &[]),
                vec![0x10, c, a, c.wrapping_add(a), 0x16],
                vec![c, a],
                vec![0x10, c, a, c, 0x16],
                vec![0x68, c, a, 0x68, 0x08, 0x01, 0x78, 0x81, 0x16],
                vec![0x68, 3, 3, 0x68, 0x08, 0x01, 0x78, c, a],
            ] {
                ctx.evaluations += 1;
                ctx.nontrivial(&f);
                c02_check(&f, ctx)?;
            }
        }
        ctx.evaluations += 1;
        c02_check(&[c], ctx)?;
        // Every user data length, right and with each single rule broken.
        for n in 0..=253usize {
            if n % 32 != usize::from(c) % 32 {
                continue;
            }
            let data: Vec<u8> = (0..n).map(|i| (i * 7 + usize::from(c)) as u8).collect();
            let good = wired_long(0x08, c, &data);
            let mut cases = vec![good.clone()];
            for i in [0, 1, 2, 3, 4, good.len() - 2, good.len() - 1] {
                let mut b = good.clone();
                b[i] ^= 0x01;
                cases.push(b);
            }
            let mut b = good.clone();
            b.pop();
            cases.push(b);
            let mut b = good.clone();
            b.push(0x16);
            cases.push(b);
            let mut b = good.clone();
            b.insert(0, 0x68);
            cases.push(b);
            // Consistent but for a length that differs by 256.
            let mut b = good.clone();
            let at = b.len() - 2;
            b.splice(at..at, [0u8; 256]);
            fix_sum(&mut b);
            cases.push(b);
            for f in cases {
                ctx.evaluations += 1;
                ctx.nontrivial(&f);
                c02_check(&f, ctx)?;
            }
        }
    }
    Ok(())
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "All C and A bytes in every frame kind (enumerated), all user data lengths with each rule broken once, and random frames with up to three edits; the oracle is the acceptance predicate of the statement; non-trivial: an edited or data-carrying frame.",
        both_builds: false,
        assumptions: &["known functions are 40, 44, 53, 73, 5A, 7A, 5B, 7B, 08, 18, 28, 38 (hex)", "bytes rejected as wired may still be a wireless frame"],
        parts: vec![
            Part { name: "enumerated", kind: Kind::Exhaustive { f: c02_exhaustive } },
            Part { name: "edited frames", kind: Kind::Random { quick: 1_200_000, thorough: 14_400_000, tape: (8, 90), f: c02_random } },
        ],
    }
}

// ------------------------------------------------------------------ C03

/// Parts of the decode that must not depend on the CRC layout.
fn layout_free(v: &Value) -> Value {
    json!({"decode_state": v["decode_state"], "protocol": v["protocol"], "frame": v["frame"], "meter": v["meter"], "transport": v["transport"],
        "security": v["security"], "records": v["records"], "payload": v["raw"]["payload_hex"], "diagnostics": v["diagnostics"]})
}

fn c03_random(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let ident = gen::ident(s);
    let c = if s.chance(1, 3) { s.byte() } else { *s.pick(gen::WIRELESS_C) };
    let mut f = gen::any_frame(s, &gen::FULL, 10);
    f.link = Link::Wireless { c, ident: ident.clone(), layout: Layout::Trailing };
    let mut app = f.app();
    if s.chance(1, 4) {
        // Arbitrary payloads of every length.
        let n = s.range(1, 244);
        app = s.bytes(n);
    }
    app.truncate(f.link.room());
    let mut first: Option<(Value, Vec<u8>)> = None;
    for layout in gen::LAYOUTS {
        let link = f.link.with_layout(layout);
        if gen::ambiguous(&link, &app) {
            return Ok(());
        }
        let bytes = link.frame(&app);
        let v = decode_ok(&bytes)?;
        let r = c03_one(&v, &bytes, &link, &app, layout);
        r.map_err(|e| Fail::new(format!("{layout:?} [{}]: {}", hex_sp(&bytes), e.message)))?;
        let norm = layout_free(&v);
        match &first {
            None => first = Some((norm, bytes)),
            Some((n, b)) => ensure_eq!(norm, *n, "{layout:?} [{}] against [{}]", hex_sp(&bytes), hex_sp(b)),
        }
    }
    let blocks = app.len().div_ceil(16);
    ctx.class(&format!("{blocks:02} data blocks"));
    ctx.sample(|| hex_sp(&app));
    ctx.nontrivial(&(app, c, ident.id, ident.man));
    Ok(())
}

fn c03_one(v: &Value, bytes: &[u8], link: &Link, app: &[u8], layout: Layout) -> CheckResult {
    ensure_eq!(v["protocol"], "wireless", "protocol");
    ensure_eq!(v["frame"], expect::frame_section(link), "frame section");
    let Link::Wireless { ident, c, .. } = link else { unreachable!() };
    let want = expect::link_identity(ident, app.first().copied());
    let ids: Vec<&Value> = std::iter::once(&v["meter"]["identity"])
        .chain(v["meter"]["alternate_identities"].as_array().into_iter().flatten())
        .filter(|i| i["source"] == "link.wireless")
        .collect();
    ensure_eq!(ids.len(), 1, "number of link identities");
    ensure_eq!(*ids[0], want, "link identity");
    ensure_eq!(v["raw"]["payload_hex"].as_str().unwrap_or("?"), hex(app), "payload");
    ensure_eq!(v["raw"]["original_frame_hex"].as_str().unwrap_or("?"), hex(bytes), "original bytes");
    ensure_eq!(v["raw"]["format_a_crc_stripped"], json!(layout == Layout::FormatA), "Format A flag");
    ensure_eq!(v["raw"]["byte_length"], json!(bytes.len()), "byte length");
    let normalized = match layout {
        Layout::FormatA => link.with_layout(Layout::Plain).frame(app),
        _ => bytes.to_vec(),
    };
    ensure_eq!(v["raw"]["normalized_frame_hex"].as_str().unwrap_or("?"), hex(&normalized), "normalised frame");
    // Low-level frame.
    let w = match WirelessFrame::try_from(normalized.as_slice()) {
        Ok(w) => w,
        Err(e) => fail!("low-level frame refused: {e:?}"),
    };
    ensure_eq!(w.control_field, *c, "low-level control field");
    ensure_eq!(w.data, app, "low-level payload");
    ensure_eq!(w.manufacturer_id.manufacturer_code.to_string(), ident.letters().unwrap_or_default(), "low-level manufacturer");
    ensure_eq!(format!("{:08}", w.manufacturer_id.identification_number.number), ident.digits(), "low-level id");
    ensure_eq!(w.manufacturer_id.version, ident.version, "low-level version");
    if layout == Layout::FormatA {
        let mut buf = [0u8; 600];
        let Some(stripped) = wireless_mbus_link_layer::strip_format_a_crcs(bytes, &mut buf) else { fail!("Format A frame not recognised") };
        ensure_eq!(hex(stripped), hex(&normalized), "stripped frame");
    }
    Ok(())
}

fn c03_rejects(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let ident = gen::ident(s);
    let layout = *s.pick(&gen::LAYOUTS);
    let link = Link::Wireless { c: 0x44, ident, layout };
    let n = s.range(1, 200);
    let mut app = s.bytes(n);
    app[0] = 0x7A;
    let mut f = link.frame(&app);
    let kind = if layout == Layout::FormatA {
        // Break the header CRC or the bytes under it.
        let i = s.below(12);
        f[i] ^= 1 << s.below(8);
        if i == 0 && usize::from(f[0]) + 1 == f.len() {
            return Ok(());
        }
        "Format A header CRC"
    } else {
        match s.below(4) {
            0 => f[0] = f[0].wrapping_add(1 + (s.raw() % 255) as u8),
            3 => {
                // A length that does not count a CRC which fits.
                f.truncate(10 + app.len());
                let more = *s.pick(&[0u8, 1, 3]);
                f[0] = (f.len() as u8 - 1).wrapping_add(more);
                let c = crc16(&f).to_be_bytes();
                f.extend(c);
            }
            1 => {
                for _ in 0..s.range(1, 5) {
                    f.push(s.byte());
                }
            }
            _ => {
                let k = s.range(1, 5.min(n));
                f.truncate(f.len() - k);
            }
        }
        "length"
    };
    // Coincidences: still a frame of some other kind.
    let header_crc = f.len() >= 12 && crc16(&f[..10]).to_be_bytes() == f[10..12];
    if gen::wired_well_formed(&f) || header_crc || usize::from(f[0]) + 1 == f.len() {
        return Ok(());
    }
    ctx.sample(|| hex_sp(&f));
    ctx.class(kind);
    ctx.nontrivial(&f);
    match sut::decode(&f, None) {
        Err(e) => ensure_eq!(e.code(), "frame.invalid", "error code for [{}]", hex_sp(&f)),
        Ok(_) => fail!("[{}] with a wrong {kind} was accepted", hex_sp(&f)),
    }
    ensure!(WirelessFrame::try_from(f.as_slice()).is_err(), "[{}] accepted by the low-level parse", hex_sp(&f));
    Ok(())
}

/// Every payload length in every layout, with fixed contents.
fn c03_lengths(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    for n in 1..=244usize {
        if n % shards != shard {
            continue;
        }
        for variant in 0..4u8 {
            let app: Vec<u8> = std::iter::once(0x7A).chain((1..n).map(|i| (i as u8).wrapping_mul(variant * 2 + 3).wrapping_add(variant))).collect();
            let ident = gen::Ident { id: [0x78, 0x56, 0x34, 0x12], man: gen::man_code("KAM"), version: variant, device: 7 };
            let mut first = None;
            for layout in gen::LAYOUTS {
                let link = Link::Wireless { c: 0x44, ident: ident.clone(), layout };
                if gen::ambiguous(&link, &app) {
                    continue;
                }
                let bytes = link.frame(&app);
                ctx.evaluations += 1;
                ctx.nontrivial(&bytes);
                let v = decode_ok(&bytes)?;
                c03_one(&v, &bytes, &link, &app, layout).map_err(|e| Fail::new(format!("{layout:?} [{}]: {}", hex_sp(&bytes), e.message)))?;
                let norm = layout_free(&v);
                if let Some(f) = &first {
                    ensure_eq!(norm, *f, "{layout:?} of {n} bytes");
                }
                first = Some(norm);
            }
        }
    }
    Ok(())
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "Link headers and payloads are generated (records under every header kind, or arbitrary bytes) and written in the three CRC layouts; the three decodes are compared with each other and with the encoded fields; non-trivial: distinct (payload, header) pairs, and distinct rejected frames.",
        both_builds: false,
        assumptions: &[
            "frames that fit two readings by CRC coincidence (probability about 2^-16) are skipped",
            "wrong CRCs of later Format A blocks are left open: the repository's tests pin that such a remainder is copied",
            "under control information A0h..AFh the upper half of the link's device byte is the device type",
        ],
        parts: vec![
            Part { name: "layouts", kind: Kind::Random { quick: 240_000, thorough: 2_880_000, tape: (20, 200), f: c03_random } },
            Part { name: "rejected", kind: Kind::Random { quick: 200_000, thorough: 2_400_000, tape: (10, 80), f: c03_rejects } },
            Part { name: "all lengths", kind: Kind::Exhaustive { f: c03_lengths } },
        ],
    }
}

// ------------------------------------------------------------------ C04

fn any_header(s: &mut Source) -> Hdr {
    let mut f = gen::any_frame(s, &gen::SHORT, 0);
    if s.chance(1, 8) {
        f.hdr = gen::a_header(s);
    }
    f.hdr
}

fn c04_fields(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let mut hdr = any_header(s);
    // Any device type and version, sometimes a manufacturer that is no letters.
    if let Hdr::Long(i, _) = &mut hdr {
        if s.chance(1, 6) {
            i.man = [s.byte(), s.byte()];
        }
    }
    let mut link = gen::link(s);
    if let (Hdr::Long(i, _), Link::Wireless { ident, .. }) = (&hdr, &mut link) {
        // Two identities that agree but for a field.
        if s.chance(1, 3) {
            let own = std::mem::replace(ident, i.clone());
            match s.below(4) {
                0 => ident.id = own.id,
                1 => ident.man = own.man,
                2 => ident.version = own.version,
                _ => ident.device = own.device,
            }
            if ident.letters().is_none() {
                ident.man = own.man;
            }
            ctx.class(if ident == i { "same identity twice" } else { "identities differ in one field" });
        }
    }
    let block = if hdr.carries_records() || expect::declares_encryption(&hdr) { gen::block(s, &gen::SHORT, 3, 60) } else { vec![] };
    let f = Frame { link, hdr, block };
    if f.ambiguous() {
        return Ok(());
    }
    let bytes = f.bytes();
    ctx.sample(|| format!("{}: {}", f.hdr.name(), hex_sp(&bytes)));
    ctx.class(&format!("{} {}", if f.link.is_wired() { "wired" } else { "wireless" }, f.hdr.name()));
    ctx.nontrivial(&bytes);
    let v = decode_ok(&bytes)?;
    c04_compare(&f, &v).map_err(|e| Fail::new(format!("{} in [{}]: {}", f.hdr.name(), hex_sp(&bytes), e.message)))
}

fn c04_compare(f: &Frame, v: &Value) -> CheckResult {
    ensure_eq!(v["transport"], expect::transport_section(&f.hdr), "transport section");
    ensure_eq!(v["meter"], expect::meter_section(&f.link, &f.hdr), "meter section");
    ensure_eq!(v["frame"], expect::frame_section(&f.link), "frame section");
    // Security section as declared by the configuration word.
    let s = &v["security"];
    match f.hdr.conf() {
        Some(c) => {
            let mode = c[1] & 0x1F;
            ensure_eq!(s["mode_code"], json!(mode), "security mode");
            ensure_eq!(s["mode"].as_str().unwrap_or("?"), expect::mode_name(mode), "security mode name");
        }
        None => ensure!(s["mode_code"].is_null(), "security mode {} without configuration word", s["mode_code"]),
    }
    ensure_eq!(s["payload_protection"], if expect::declares_encryption(&f.hdr) { "encrypted" } else { "cleartext" }, "payload protection");
    Ok(())
}

fn c04_cut(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let hdr = any_header(s);
    let link = gen::link(s);
    let full = hdr.bytes();
    if full.len() < 2 {
        return Ok(());
    }
    let cut = s.range(1, full.len() - 1);
    let app = &full[..cut];
    // ELL I around nothing at all is cut as well; a cut that leaves another complete header is not.
    if gen::ambiguous(&link, app) {
        return Ok(());
    }
    let bytes = link.frame(app);
    ctx.sample(|| hex_sp(&bytes));
    ctx.class(hdr.name());
    ctx.nontrivial(&bytes);
    let v = decode_ok(&bytes)?;
    let r = (|| -> CheckResult {
        ensure_eq!(v["decode_state"], "partial", "decode state");
        let warned = v["diagnostics"].as_array().is_some_and(|d| d.iter().any(|x| x["code"] == "application.partial"));
        ensure!(warned, "no application diagnostic");
        ensure_eq!(v["transport"], json!({}), "transport section");
        let mut want = expect::meter_section(&link, &Hdr::None);
        if let Link::Wireless { ident, .. } = &link {
            want["identity"] = expect::link_identity(ident, Some(app[0]));
        }
        ensure_eq!(v["meter"], want, "meter section");
        ensure!(sut::records(&v).is_empty(), "records reported");
        Ok(())
    })();
    r.map_err(|e| Fail::new(format!("{} cut to {cut} bytes in [{}]: {}", hdr.name(), hex_sp(&bytes), e.message)))
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "Every header kind with random field values on wired and wireless links, and every cut inside a header; expected sections are built from the encoded fields; non-trivial: every distinct frame.",
        both_builds: false,
        assumptions: &["under control information A0h..AFh the upper half of the link's device byte is the device type", "long headers whose identification number is not decimal are left open"],
        parts: vec![
            Part { name: "fields", kind: Kind::Random { quick: 600_000, thorough: 7_200_000, tape: (10, 80), f: c04_fields } },
            Part { name: "cut headers", kind: Kind::Random { quick: 300_000, thorough: 3_600_000, tape: (10, 60), f: c04_cut } },
        ],
    }
}

// ------------------------------------------------------------------ C26

fn c26_tables(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    use m_bus_core::{ConfigurationField, DeviceType, ManufacturerCode, SecurityMode};
    for id in 0..=0xFFFFu16 {
        if usize::from(id) % shards != shard {
            continue;
        }
        ctx.evaluations += 1;
        let letters = gen::manufacturer_letters(id);
        match (ManufacturerCode::from_id(id), &letters) {
            (Ok(m), Some(l)) => {
                ctx.nontrivial(&id);
                ensure_eq!(m.to_string(), *l, "letters of manufacturer word {id:04X}");
                ensure_eq!(m.code.iter().collect::<String>(), *l, "letters of manufacturer word {id:04X}");
                ensure_eq!(m.to_id(), id, "word of manufacturer {l}");
            }
            (Err(_), None) => {}
            (got, want) => fail!("manufacturer word {id:04X}: got {got:?}, expected {want:?}"),
        }
        let c = ConfigurationField::from_bytes(id as u8, (id >> 8) as u8);
        ensure_eq!(c.raw(), id, "configuration word {id:04X}");
        ensure_eq!((u16::from(c), u16::from(ConfigurationField::from(id))), (id, id), "configuration word {id:04X} converted");
        ensure_eq!(c.security_mode().to_bits(), (id >> 8) as u8 & 0x1F, "mode of configuration word {id:04X}");
        ensure_eq!(c.mode_specific_lower(), id as u8, "lower part of configuration word {id:04X}");
        ensure_eq!(c.mode_specific_upper(), (id >> 13) as u8, "upper part of configuration word {id:04X}");
    }
    for b in 0..=255u8 {
        if usize::from(b) % shards != shard {
            continue;
        }
        ctx.evaluations += 1;
        ctx.nontrivial(&(1u8, b));
        let d = DeviceType::from(b);
        ensure_eq!(u8::from(d), b, "device type {b:02X} and back");
        ensure_eq!(d.to_string(), expect::device_name(b), "name of device type {b:02X}");
        let m = SecurityMode::from_bits(b & 0x1F);
        ensure_eq!(m.to_bits(), b & 0x1F, "security mode {b} and back");
        ensure_eq!(m.to_string(), expect::mode_name(b & 0x1F), "name of security mode {b}");
        match (Function::try_from(b), expect::function_name(b)) {
            (Ok(f), Some(_)) => ensure_eq!(f, core_function(b), "function {b:02X}"),
            (Err(_), None) => {}
            (got, want) => fail!("function {b:02X}: got {got:?}, expected {want:?}"),
        }
        // Through the decoder: device type of a link and of a long header.
        let ident = gen::Ident { id: [1, 2, 3, 4], man: gen::man_code("ABC"), version: b, device: b };
        let h = gen::ShortH { access: b, status: b, conf: [b, b & 0xE0] };
        for link in [Link::Wired { c: 8, a: b }, Link::Wireless { c: 0x44, ident: ident.clone(), layout: Layout::Plain }] {
            let f = Frame { link, hdr: Hdr::Long(ident.clone(), h.clone()), block: vec![] };
            if f.ambiguous() {
                continue;
            }
            let v = decode_ok(&f.bytes())?;
            ensure_eq!(v["meter"], expect::meter_section(&f.link, &f.hdr), "meter section of [{}]", hex_sp(&f.bytes()));
        }
    }
    Ok(())
}

fn c26_ids(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    use m_bus_core::{bcd_hex_digits_to_u32, IdentificationNumber};
    let mut id: [u8; 4] = gen::bcd(s, 4).try_into().unwrap();
    if s.chance(1, 3) {
        let i = s.below(4);
        id[i] = s.edgy_byte();
    }
    let digits: String = id.iter().rev().map(|b| format!("{b:02X}")).collect();
    let decimal = digits.bytes().all(|b| b.is_ascii_digit());
    ctx.sample(|| digits.clone());
    ctx.class(if decimal { "decimal" } else { "non-decimal" });
    ctx.nontrivial(&id);
    let man = gen::ident(s);
    let link_ident = gen::Ident { id, ..man };
    let link = Link::Wireless { c: 0x44, ident: link_ident.clone(), layout: *s.pick(&gen::LAYOUTS) };
    let app = Hdr::Short(0x7A, gen::short(s)).bytes();
    let low = IdentificationNumber::from_bcd_hex_digits(id);
    let frame = link.frame(&app);
    let v = sut::decode(&frame, None);
    if decimal {
        let n: u32 = digits.parse().unwrap();
        ensure_eq!(bcd_hex_digits_to_u32(id).ok(), Some(n), "number of [{}]", hex_sp(&id));
        ensure_eq!(low.as_ref().ok().map(|x| x.number), Some(n), "identification number of [{}]", hex_sp(&id));
        ensure_eq!(low.ok().map(u32::from), Some(n), "identification number of [{}] converted", hex_sp(&id));
        if !gen::ambiguous(&link, &app) {
            let v = v.map_err(|e| Fail::new(format!("[{}] refused: {e}", hex_sp(&frame))))?;
            ensure_eq!(v["meter"]["identity"]["id"].as_str().unwrap_or("?"), digits, "id in [{}]", hex_sp(&frame));
        }
        // In a long and in a fixed header.
        for hdr in [
            Hdr::Long(link_ident.clone(), gen::short(s)),
            Hdr::Fixed { id, access: 1, status: 0, kind: [0, 0], counters: [[0; 4]; 2] },
        ] {
            let f = Frame { link: Link::Wired { c: 8, a: 1 }, hdr, block: vec![] };
            let v = decode_ok(&f.bytes())?;
            ensure_eq!(v["meter"]["identity"]["id"].as_str().unwrap_or("?"), digits, "id in [{}]", hex_sp(&f.bytes()));
        }
    } else {
        ensure!(bcd_hex_digits_to_u32(id).is_err(), "[{}] accepted as a number", hex_sp(&id));
        ensure!(low.is_err(), "[{}] accepted as an identification number", hex_sp(&id));
        if let Ok(v) = v {
            ensure!(
                v["meter"]["identity"]["id"].as_str().is_none_or(|x| !x.bytes().all(|b| b.is_ascii_digit())),
                "[{}] reported as id {}",
                hex_sp(&frame),
                v["meter"]["identity"]["id"]
            );
        }
        let f = Frame { link: Link::Wired { c: 8, a: 1 }, hdr: Hdr::Long(link_ident, gen::short(s)), block: vec![] };
        if let Ok(v) = sut::decode(&f.bytes(), None) {
            ensure!(
                v["meter"]["identity"]["id"].as_str().is_none_or(|x| !x.bytes().all(|b| b.is_ascii_digit())),
                "[{}] reported as id {}",
                hex_sp(&f.bytes()),
                v["meter"]["identity"]["id"]
            );
        }
    }
    Ok(())
}

pub fn c26() -> Property {
    Property {
        id: "C26",
        rule: "All 65536 manufacturer and configuration words and all device type, mode and function bytes (enumerated), random identification numbers with and without non-decimal nibbles; non-trivial: valid manufacturer words, every byte code, every identification number.",
        both_builds: false,
        assumptions: &["names are those the library uses for the standard's entries"],
        parts: vec![
            Part { name: "tables", kind: Kind::Exhaustive { f: c26_tables } },
            Part { name: "identification numbers", kind: Kind::Random { quick: 300_000, thorough: 3_600_000, tape: (8, 40), f: c26_ids } },
        ],
    }
}


// ------------------------------------------------------------------ C32

/// Codes the library knows but does not read.
const UNSUPPORTED: &[(u8, &str)] = &[
    (0x51, "SendData"),
    (0x52, "SelectSlave"),
    (0x54, "SynchronizeSlave"),
    (0x5A, "DataSentWithShortTransportLayer"),
    (0x5B, "DataSentWithLongTransportLayer"),
    (0x60, "CosemDataWithLongTransportLayer"),
    (0x61, "CosemDataWithShortTransportLayer"),
    (0x64, "ObisDataReservedLongTransportLayer"),
    (0x65, "ObisDataReservedShortTransportLayer"),
    (0x69, "ApplicationLayerFormatFrameNoTransport"),
    (0x6A, "ApplicationLayerFormatFrameShortTransport"),
    (0x6B, "ApplicationLayerFormatFrameLongTransport"),
    (0x6C, "ClockSyncAbsolute"),
    (0x6D, "ClockSyncRelative"),
    (0x6E, "ApplicationErrorShortTransport"),
    (0x6F, "ApplicationErrorLongTransport"),
    (0x70, "SendErrorStatus"),
    (0x71, "SendAlarmStatus"),
    (0x77, "ResponseWithFixedDataStructure"),
    (0x74, "AlarmShortTransport"),
    (0x75, "AlarmLongTransport"),
    (0x79, "ApplicationLayerCompactFrameNoTransport"),
    (0x7B, "ApplicationLayerCompactFrameShortTransport"),
    (0x7C, "CosemApplicationLayerLongTransport"),
    (0x7D, "CosemApplicationLayerShortTransport"),
    (0x7E, "ObisApplicationLayerReservedLongTransport"),
    (0x7F, "ObisApplicationLayerReservedShortTransport"),
    (0x80, "TransportLayerLongReadoutToMeter"),
    (0x81, "NetworkLayerData"),
    (0x82, "FutureUse"),
    (0x83, "NetworkManagementApplication"),
    (0x84, "TransportLayerCompactFrame"),
    (0x85, "TransportLayerFormatFrame"),
    (0x89, "NetworkManagementDataReserved"),
    (0x8A, "TransportLayerShortMeterToReadout"),
    (0x8B, "TransportLayerLongMeterToReadout"),
    (0xAF, "ApplicationLayerShortTransport"),
    (0xB1, "OutputRAMContent"),
    (0xB2, "WriteRAMContent"),
    (0xB3, "StartCalibrationTestMode"),
    (0xB4, "ReadEEPROM"),
    (0xB6, "StartSoftwareTest"),
    (0xB8, "SetBaudRate300"),
    (0xB9, "SetBaudRate600"),
    (0xBA, "SetBaudRate1200"),
    (0xBB, "SetBaudRate2400"),
    (0xBC, "SetBaudRate4800"),
    (0xBD, "SetBaudRate9600"),
    (0xBE, "SetBaudRate19200"),
    (0xBF, "SetBaudRate38400"),
];

#[derive(Debug, PartialEq)]
enum Reading {
    Unsupported(&'static str),
    Unknown,
    Reset(u8),
    Fixed,
    /// Kind of header and where the data block starts.
    Variable(&'static str, usize),
    /// A header that is cut or holds digits that are not decimal.
    Broken,
}

fn decimal(b: &[u8]) -> bool {
    b.iter().all(|x| x & 0x0F < 10 && x >> 4 < 10)
}

/// What an application payload of at least one byte is.
fn reading(app: &[u8]) -> Reading {
    let need = |n: usize, r: Reading| if app.len() >= n { r } else { Reading::Broken };
    match app[0] {
        0x50 => need(2, Reading::Reset(app.get(1).copied().unwrap_or(0))),
        0x72 | 0x76 if app.len() >= 13 && decimal(&app[1..5]) => Reading::Variable("long", 13),
        0x73 | 0x77 if app.len() >= 17 && decimal(&app[1..5]) && decimal(&app[9..17]) => Reading::Fixed,
        0x72 | 0x73 | 0x76 | 0x77 => Reading::Broken,
        0x78 => Reading::Variable("none", 1),
        0xA0 => need(6, Reading::Variable("short", 6)),
        0x7A | 0xA1..=0xAF => need(5, Reading::Variable("short", 5)),
        0x8C if app.len() > 3 && !matches!(app[3], 0x8C..=0x8E) => match reading(&app[3..]) {
            Reading::Variable(k @ ("short" | "none"), n) => Reading::Variable(k, n + 3),
            _ => Reading::Broken,
        },
        0x8C => Reading::Broken,
        0x8D => need(9, Reading::Variable("short", 9)),
        0x8E => need(17, Reading::Variable("short", 17)),
        0x90..=0x97 => Reading::Unsupported("HashProcedure"),
        c => UNSUPPORTED.iter().find(|u| u.0 == c).map_or(Reading::Unknown, |u| Reading::Unsupported(u.1)),
    }
}

fn check_reading(link: &Link, app: &[u8], ctx: &mut Ctx) -> CheckResult {
    use m_bus_core::ApplicationLayerError as E;
    use m_bus_parser::user_data::{parse_application_layer, UserDataBlock as U};
    let want = reading(app);
    let low = parse_application_layer(app);
    let at = hex_sp(app);
    let message = low.as_ref().err().map(|e| e.to_string()).unwrap_or_default();
    match (&low, &want) {
        (Err(E::Unimplemented { feature }), Reading::Unsupported(n)) => ensure_eq!(feature.split(' ').next(), Some(*n), "feature named for [{at}]"),
        (Err(E::InvalidControlInformation { byte }), Reading::Unknown) => ensure_eq!(*byte, app[0], "code refused in [{at}]"),
        (Ok(U::ResetAtApplicationLevel { .. }), Reading::Reset(_)) | (Ok(U::FixedDataStructure { .. }), Reading::Fixed) => {}
        (Ok(U::VariableDataStructureWithLongTplHeader { variable_data_block: d, .. }), Reading::Variable("long", n))
        | (Ok(U::VariableDataStructureWithShortTplHeader { variable_data_block: d, .. }), Reading::Variable("short", n))
        | (Ok(U::VariableDataStructureWithoutTplHeader { variable_data_block: d, .. }), Reading::Variable("none", n)) => {
            ensure_eq!(*d, &app[*n..], "data block of [{at}]");
        }
        (Err(E::Unimplemented { .. } | E::InvalidControlInformation { .. }), Reading::Broken) => fail!("[{at}] read as {low:?}, it is a cut or malformed header"),
        (Err(_), Reading::Broken) => {}
        _ => fail!("[{at}] read as {low:?}, it is {want:?}"),
    }
    ctx.class(match &want {
        Reading::Unsupported(_) => "unsupported",
        Reading::Unknown => "unknown",
        Reading::Broken => "broken",
        _ => "read",
    });
    ctx.nontrivial(&app);
    if gen::ambiguous(link, app) {
        return Ok(());
    }
    let bytes = link.frame(app);
    let v = decode_ok(&bytes)?;
    let partial: Vec<&Value> = v["diagnostics"].as_array().map(|d| d.iter().filter(|x| x["code"] == "application.partial").collect()).unwrap_or_default();
    let r = (|| -> CheckResult {
        let readable = !matches!(want, Reading::Unsupported(_) | Reading::Unknown | Reading::Broken);
        if readable {
            ensure!(partial.is_empty(), "diagnostic {partial:?} for a payload that can be read");
            return Ok(());
        }
        ensure_eq!(partial.len(), 1, "number of application diagnostics");
        ensure_eq!(partial[0]["message"].as_str(), Some(message.as_str()), "message of the diagnostic");
        match &want {
            Reading::Unsupported(n) => ensure!(message.contains(n), "message {message:?} does not name {n}"),
            Reading::Unknown => ensure!(message.ends_with(&format!(" {}", app[0])), "message {message:?} does not name the code {}", app[0]),
            _ => {}
        }
        ensure_eq!(v["decode_state"], "partial", "decode state");
        ensure_eq!(v["transport"], json!({}), "transport section");
        let mut meter = expect::meter_section(link, &Hdr::None);
        if let Link::Wireless { ident, .. } = link {
            meter["identity"] = expect::link_identity(ident, Some(app[0]));
        }
        ensure_eq!(v["meter"], meter, "meter section");
        ensure!(sut::records(&v).is_empty(), "records reported");
        ensure_eq!(v["raw"]["payload_hex"].as_str(), Some(hex(app).to_uppercase().as_str()), "payload");
        Ok(())
    })();
    r.map_err(|e| Fail::new(format!("payload [{at}] in [{}]: {}", hex_sp(&bytes), e.message)))
}

/// Codes that only one side of the bus may send.
fn directions() -> CheckResult {
    use m_bus_parser::user_data::{ControlInformation as C, Direction as D};
    let to_meter = [
        C::ResetAtApplicationLevel, C::SendData, C::SelectSlave, C::SynchronizeSlave, C::SetBaudRate300, C::SetBaudRate600, C::SetBaudRate1200,
        C::SetBaudRate2400, C::SetBaudRate4800, C::SetBaudRate9600, C::SetBaudRate19200, C::SetBaudRate38400, C::OutputRAMContent,
        C::WriteRAMContent, C::StartCalibrationTestMode, C::ReadEEPROM, C::StartSoftwareTest, C::DataSentWithShortTransportLayer,
        C::DataSentWithLongTransportLayer, C::CosemDataWithLongTransportLayer, C::CosemDataWithShortTransportLayer,
        C::ObisDataReservedLongTransportLayer, C::ObisDataReservedShortTransportLayer, C::ClockSyncAbsolute, C::ClockSyncRelative,
        C::TransportLayerLongReadoutToMeter,
    ];
    let from_meter = [
        C::SendErrorStatus, C::SendAlarmStatus, C::ResponseWithVariableDataStructure { lsb_order: false }, C::ResponseWithVariableDataStructure { lsb_order: true },
        C::ResponseWithFixedDataStructure, C::ApplicationErrorShortTransport, C::ApplicationErrorLongTransport, C::AlarmShortTransport,
        C::AlarmLongTransport, C::ApplicationLayerNoTransport, C::ApplicationLayerCompactFrameNoTransport, C::ApplicationLayerShortTransport,
        C::ApplicationLayerCompactFrameShortTransport, C::CosemApplicationLayerLongTransport, C::CosemApplicationLayerShortTransport,
        C::ObisApplicationLayerReservedLongTransport, C::ObisApplicationLayerReservedShortTransport, C::TransportLayerShortMeterToReadout,
        C::TransportLayerLongMeterToReadout,
    ];
    for (codes, want) in [(&to_meter[..], D::MasterToSlave), (&from_meter[..], D::SlaveToMaster)] {
        for c in codes {
            ensure_eq!(D::from(*c), want, "direction of {c:?}");
        }
    }
    Ok(())
}

fn c32_codes(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    directions()?;
    let ident = gen::Ident { id: [0x78, 0x56, 0x34, 0x12], man: gen::man_code("ABC"), version: 1, device: 7 };
    for c in 0..=255u8 {
        if usize::from(c) % shards != shard {
            continue;
        }
        for len in 0..40usize {
            for fill in [0x00u8, 0x12, 0x78, 0x9A, 0xFF] {
                let mut app = vec![c];
                app.extend(std::iter::repeat_n(fill, len));
                for link in [Link::Wired { c: 8, a: 1 }, Link::Wireless { c: 0x44, ident: ident.clone(), layout: Layout::Plain }] {
                    ctx.evaluations += 1;
                    check_reading(&link, &app, ctx)?;
                }
            }
        }
    }
    Ok(())
}

fn c32_payloads(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let link = gen::link(s);
    let mut app = vec![];
    for _ in 0..s.weighted(&[8, 2, 1, 1]) {
        app.extend([0x8C, s.byte(), s.byte()]);
    }
    app.push(match s.below(3) {
        0 => *s.pick(&[0x50, 0x72, 0x73, 0x76, 0x77, 0x78, 0x7A, 0x8D, 0x8E, 0xA0, 0xA2]),
        _ => s.byte(),
    });
    let n = s.below(30);
    for _ in 0..n {
        app.push(if s.chance(2, 3) { (s.raw() % 10) as u8 * 16 + (s.raw() % 10) as u8 } else { s.byte() });
    }
    app.truncate(link.room());
    ctx.sample(|| hex_sp(&app));
    check_reading(&link, &app, ctx)
}

pub fn c32() -> Property {
    Property {
        id: "C32",
        rule: "All 256 control information codes with payloads of 0..39 equal bytes on both links (enumerated), and random payloads behind up to three extended link layers; non-trivial: every distinct payload.",
        both_builds: false,
        assumptions: &["the names of the codes are the library's names for the entries of EN 13757-7", "an extended link layer I around anything but a short or missing header is broken"],
        parts: vec![
            Part { name: "codes", kind: Kind::Exhaustive { f: c32_codes } },
            Part { name: "payloads", kind: Kind::Random { quick: 400_000, thorough: 6_000_000, tape: (8, 80), f: c32_payloads } },
        ],
    }
}
