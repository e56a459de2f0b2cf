//! C36: faults named by the link layers, and the CRC helpers.

use m_bus_core::FrameError;
use m_bus_parser::{WiredFrame, WirelessFrame};
use wireless_mbus_link_layer::{strip_format_a_crcs, trailing_frame_crc_start, FrameError as WirelessError};

use crate::gen::{self, Layout, Link};
use crate::runner::{CheckResult, Ctx, Kind, Part, Property};
use crate::source::Source;
use crate::util::{crc16, hex_sp};

fn wired_frame(s: &mut Source) -> Vec<u8> {
    let c = if s.chance(1, 12) { 0x53 } else { *s.pick(gen::WIRED_C) };
    let a = s.byte();
    if s.chance(1, 4) {
        return vec![0x10, c, a, c.wrapping_add(a), 0x16];
    }
    let n = if s.chance(1, 8) { s.below(253) } else { s.below(30) };
    let data = s.bytes(n);
    Link::Wired { c, a }.frame(&data)
}

fn known(c: u8) -> bool {
    c == 0x53 || gen::WIRED_C.contains(&c)
}

fn refused(b: &[u8], want: FrameError, quotes: &[u8], what: &str) -> CheckResult {
    let at = format!("{what} [{}]", hex_sp(b));
    let e = match WiredFrame::try_from(b) {
        Ok(f) => fail!("{at}: accepted as {f:?}"),
        Err(e) => e,
    };
    ensure_eq!(e, want, "{at}");
    let t = e.to_string();
    let numbers: Vec<&str> = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
    for q in quotes {
        ensure!(numbers.contains(&q.to_string().as_str()), "{at}: {t:?} does not name {q}");
    }
    Ok(())
}

fn c36_wired(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (kind, place, byte) = (s.below(9), s.raw() as usize, s.byte());
    let mut f = wired_frame(s);
    let long = f[0] == 0x68;
    let n = f.len();
    let other = |old: u8| if byte == old { byte ^ 0x41 } else { byte };
    ctx.nontrivial(&(f.clone(), kind, place, byte));
    ctx.sample(|| format!("fault {kind}: {}", hex_sp(&f)));
    let class = |ctx: &mut Ctx, c: &str| ctx.class(&format!("{} {c}", if long { "long" } else { "short" }));
    match kind {
        0 => {
            class(ctx, "checksum");
            f[n - 2] = other(f[n - 2]);
            let sum = f[if long { 4 } else { 1 }..n - 2].iter().fold(0u8, |a, b| a.wrapping_add(*b));
            refused(&f, FrameError::WrongChecksum { expected: f[n - 2], actual: sum }, &[f[n - 2], sum], "checksum")
        }
        1 => {
            // A byte inside, checksum left as it was.
            class(ctx, "covered byte");
            let first = if long { 4 } else { 1 };
            let i = first + place % (n - 2 - first);
            f[i] = other(f[i]);
            let sum = f[first..n - 2].iter().fold(0u8, |a, b| a.wrapping_add(*b));
            refused(&f, FrameError::WrongChecksum { expected: f[n - 2], actual: sum }, &[f[n - 2], sum], "covered byte")
        }
        2 => {
            class(ctx, "start byte");
            f[0] = other(f[0]);
            if matches!(f[0], 0x68 | 0x10) {
                return Ok(());
            }
            refused(&f, FrameError::InvalidStartByte, &[], "start byte")
        }
        3 if long => {
            class(ctx, "second start byte");
            f[3] = other(f[3]);
            refused(&f, FrameError::InvalidStartByte, &[], "second start byte")
        }
        4 if long => {
            class(ctx, "length bytes");
            match place % 3 {
                0 => f[1] = other(f[1]),
                1 => f[2] = other(f[2]),
                _ => {
                    f[1] = other(f[1]);
                    f[2] = f[1];
                }
            }
            refused(&f, FrameError::WrongLengthIndication, &[], "length bytes")
        }
        5 if long => {
            class(ctx, "stop byte");
            f[n - 1] = other(0x16);
            refused(&f, FrameError::InvalidStopByte, &[], "stop byte")
        }
        6 => {
            class(ctx, "function");
            let i = if long { 4 } else { 1 };
            let old = f[i];
            if known(byte) {
                return Ok(());
            }
            f[i] = byte;
            f[n - 2] = f[n - 2].wrapping_sub(old).wrapping_add(byte);
            refused(&f, FrameError::InvalidFunction { byte }, &[byte], "function")
        }
        7 => {
            class(ctx, "beginning only");
            let m = place % 3;
            let b = &f[..m];
            refused(b, if m == 0 { FrameError::EmptyData } else { FrameError::LengthShort }, &[], "beginning")
        }
        _ => {
            class(ctx, "no fault");
            ensure!(WiredFrame::try_from(f.as_slice()).is_ok(), "[{}] refused", hex_sp(&f));
            Ok(())
        }
    }
}

fn c36_wireless(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (kind, byte, extra) = (s.below(4), s.byte(), s.below(400));
    let layout = if s.chance(1, 2) { Layout::Plain } else { Layout::Trailing };
    let ident = gen::ident(s);
    let c = s.byte();
    let n = 1 + if s.chance(1, 8) { s.below(230) } else { s.below(30) };
    let app = s.bytes(n);
    let link = Link::Wireless { c, ident, layout };
    if gen::ambiguous(&link, &app) {
        return Ok(());
    }
    let mut f = link.frame(&app);
    ctx.nontrivial(&(f.clone(), kind, byte));
    ctx.sample(|| format!("fault {kind}: {}", hex_sp(&f)));
    match kind {
        0 => {
            ctx.class("length");
            f[0] = if byte == f[0] { byte ^ 0x41 } else { byte };
            let want = WirelessError::WrongLength { expected: usize::from(f[0]) + 1, actual: f.len() };
            match WirelessFrame::try_from(f.as_slice()) {
                Ok(w) => fail!("[{}] accepted as {w:?}", hex_sp(&f)),
                Err(e) => ensure_eq!(e, want, "[{}]", hex_sp(&f)),
            }
        }
        3 => {
            ctx.class("bytes behind the frame");
            f.resize(f.len() + 1 + extra, byte);
            let want = WirelessError::WrongLength { expected: usize::from(f[0]) + 1, actual: f.len() };
            ensure_eq!(WirelessFrame::try_from(f.as_slice()), Err(want), "[{}]", hex_sp(&f));
        }
        1 => {
            ctx.class("cut header");
            let m = usize::from(byte) % 11;
            // Two bytes may not be enough for a slice of the identity.
            let want = if m == 0 { WirelessError::EmptyData } else { WirelessError::TooShort };
            match WirelessFrame::try_from(&f[..m]) {
                Ok(w) => fail!("[{}] accepted as {w:?}", hex_sp(&f[..m])),
                Err(e) => ensure_eq!(e, want, "[{}]", hex_sp(&f[..m])),
            }
        }
        _ => {
            ctx.class("no fault");
            match WirelessFrame::try_from(f.as_slice()) {
                Ok(w) => {
                    ensure_eq!(w.control_field, c, "control field of [{}]", hex_sp(&f));
                    ensure_eq!(w.data, app.as_slice(), "payload of [{}]", hex_sp(&f));
                }
                Err(e) => fail!("[{}]: {e:?}", hex_sp(&f)),
            }
        }
    }
    Ok(())
}

/// Contents of the Format A blocks and whether the reading is settled.
fn blocks(f: &[u8]) -> Option<(Vec<u8>, bool)> {
    let ok = |b: &[u8]| b.len() > 2 && crc16(&b[..b.len() - 2]).to_be_bytes() == b[b.len() - 2..];
    if f.len() < 12 || !ok(&f[..12]) {
        return None;
    }
    let mut out = f[..10].to_vec();
    let mut at = 12;
    while at < f.len() {
        let end = (at + 18).min(f.len());
        if !ok(&f[at..end]) {
            return Some((out, false));
        }
        out.extend(&f[at..end - 2]);
        at = end;
    }
    Some((out, true))
}

fn c36_helpers(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (edit, place, bit, space) = (s.below(6), s.raw() as usize, s.below(8), s.below(4));
    let layout = *s.pick(&gen::LAYOUTS);
    let n = if s.chance(1, 3) { s.below(240) } else { s.below(40) };
    let mut f = match s.below(12) {
        0 => s.bytes(n),
        1 => {
            // Longer than a frame can say.
            let mut f = s.bytes(220 + n);
            if bit < 5 {
                let c = crc16(&f).to_be_bytes();
                f.extend(c);
            }
            f
        }
        2 => {
            let f = s.bytes(220 + n);
            let (head, rest) = f.split_at(10);
            std::iter::once(head).chain(rest.chunks(16)).flat_map(|b| [b.to_vec(), crc16(b).to_be_bytes().to_vec()].concat()).collect()
        }
        _ => {
            let mut body = s.bytes(9);
            body.extend(s.bytes(n));
            gen::wireless(&body, layout)
        }
    };
    if !f.is_empty() {
        let i = place % f.len();
        match edit {
            0 => f[i] ^= 1 << bit,
            1 => f.truncate(i),
            2 if !f.is_empty() => {
                let i = i % f.len().min(12);
                f[i] ^= 1 << bit;
            }
            _ => {}
        }
    }
    let at = format!("[{}]", hex_sp(&f));
    ctx.sample(|| at.clone());
    // A trailing CRC.
    let n = f.len();
    let want = (n >= 12 && crc16(&f[..n - 2]).to_be_bytes() == f[n - 2..]).then(|| n - 2);
    ensure_eq!(trailing_frame_crc_start(&f), want, "trailing CRC of {at}");
    if want.is_some() {
        ctx.class("trailing CRC");
        ctx.nontrivial(&f);
    }
    // Format A, into buffers that are large, just large enough or too small.
    let size = match space {
        0 => n,
        1 => n.saturating_sub(1),
        _ => 1024,
    };
    let mut buffer = vec![0xA5u8; size + 8];
    let got = strip_format_a_crcs(&f, &mut buffer[..size]).map(<[u8]>::to_vec);
    ensure!(buffer[size..].iter().all(|b| *b == 0xA5), "{at}: bytes behind the buffer changed");
    match (blocks(&f).filter(|_| size >= n), got) {
        (None, None) => ctx.class("not Format A, or no room"),
        (Some((want, true)), Some(got)) => {
            ctx.class("Format A");
            ctx.nontrivial(&f);
            let mut want = want;
            want[0] = (want.len() - 1) as u8;
            ensure_eq!(got, want, "{at} without CRCs");
        }
        (Some((want, false)), Some(got)) => {
            // What follows a wrong block is left open.
            ctx.class("wrong later block");
            ensure!(got.len() >= want.len() && got[1..want.len()] == want[1..], "{at}: good blocks changed: [{}]", hex_sp(&got));
        }
        (want, got) => fail!("{at}: stripping gave {got:?}, expected {want:?}"),
    }
    Ok(())
}

pub fn c36() -> Property {
    Property {
        id: "C36",
        rule: "Wired and wireless frames with one constructed fault, and byte strings with intact, damaged and missing CRCs against an own CRC; non-trivial: distinct faulty frames, and strings with a right trailing or first block CRC.",
        both_builds: false,
        assumptions: &["the error of a short frame with a wrong stop byte or length, and of unreadable identities, is left open (refusal is C02)", "what is kept of a Format A frame behind a block with a wrong CRC is left open"],
        parts: vec![
            Part { name: "wired faults", kind: Kind::Random { quick: 1_000_000, thorough: 12_000_000, tape: (6, 80), f: c36_wired } },
            Part { name: "wireless faults", kind: Kind::Random { quick: 400_000, thorough: 5_000_000, tape: (14, 80), f: c36_wireless } },
            Part { name: "CRC helpers", kind: Kind::Random { quick: 600_000, thorough: 7_000_000, tape: (20, 260), f: c36_helpers } },
        ],
    }
}
