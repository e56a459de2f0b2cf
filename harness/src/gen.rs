//! Generators: records, transport headers, link frames.

use crate::source::Source;
use crate::util::{aes_cbc_encrypt, crc16, wired_long};
use crate::vif;

#[derive(Clone, Copy)]
pub struct RecOpts {
    /// Plain text units allowed.
    pub plain: bool,
    /// Texts with characters that are awkward for output formats.
    pub hostile: bool,
    /// Long chains of extensions and long variable-length data.
    pub long: bool,
    /// Prefer text records.
    pub texty: bool,
}

pub const PLAIN: RecOpts = RecOpts { plain: false, hostile: false, long: true, texty: false };
pub const FULL: RecOpts = RecOpts { plain: true, hostile: true, long: true, texty: false };
pub const TEXTY: RecOpts = RecOpts { plain: true, hostile: true, long: true, texty: true };
pub const SHORT: RecOpts = RecOpts { plain: false, hostile: false, long: false, texty: false };

pub fn dif_chain(s: &mut Source, long: bool) -> Vec<u8> {
    let n = match s.weighted(&[10, 4, 2, 1, 1]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => s.range(3, 5),
        _ => {
            if long {
                s.range(3, 10)
            } else {
                3
            }
        }
    };
    (0..n).map(|i| (s.edgy_byte() & 0x7F) | if i + 1 < n { 0x80 } else { 0 }).collect()
}

fn combinables(s: &mut Source, long: bool) -> Vec<u8> {
    let n = match s.weighted(&[12, 5, 3, 1, 1]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        _ => {
            if long {
                s.range(4, 9)
            } else {
                2
            }
        }
    };
    let mut v: Vec<u8> = (0..n)
        .map(|_| match s.below(8) {
            0..=3 => s.byte() & 0x7F,
            4 => 0x70 | (s.byte() & 7),
            5 => 0x78 | (s.byte() & 3),
            6 => 0x7D,
            _ => 0x7C,
        })
        .collect();
    for i in 0..n {
        // FCh introduces a second code, so it must not come last; the
        // manufacturer specific marker leaves the meaning of the rest open.
        if v[i] == 0x7C && i + 1 == n {
            v[i] = 0x39;
        }
        if v[i] == 0x7F {
            v[i] = 0x7E;
        }
        if i + 1 < n {
            v[i] |= 0x80;
        }
    }
    v
}

/// Value information with extensions: (vif, vifes).
pub fn vib(s: &mut Source, o: &RecOpts) -> (u8, Vec<u8>) {
    let (mut vif, mut vifes) = match s.weighted(&[12, 4, 4, 1]) {
        0 => {
            let mut c = (s.raw() % 0x7C) as u8;
            if c == 0x6F {
                c = 0x6E;
            }
            (c, vec![])
        }
        1 => (0xFD, vec![s.byte() & 0x7F]),
        2 => (0xFB, vec![s.byte() & 0x7F]),
        _ => (*s.pick(&[0x7F, 0x7E]), vec![]),
    };
    if vif == 0xFD && vifes[0] == 0x7D {
        vifes[0] |= 0x80;
        vifes.push(*s.pick(&[0x00, 0x02, 0x03, 0x3E, 0x01, 0x3F]));
    }
    let extra = combinables(s, o.long);
    if !extra.is_empty() {
        let keep = (vif, vifes.clone());
        match vifes.last_mut() {
            Some(l) => *l |= 0x80,
            None => vif |= 0x80,
        }
        vifes.extend(extra);
        vifes.truncate(10);
        if let Some(l) = vifes.last_mut() {
            *l &= 0x7F;
        }
        if matches!(vif::lookup(vif, &vifes), vif::Vib::Invalid) {
            return keep;
        }
    }
    (vif, vifes)
}

/// DIF low nibble and data bytes; `len` counts what is still allowed.
pub fn data_for(s: &mut Source, code: u8, o: &RecOpts) -> Vec<u8> {
    let raw = |s: &mut Source, n: usize| -> Vec<u8> {
        match s.below(4) {
            0 => s.bytes(n),
            1 => (0..n).map(|_| s.edgy_byte()).collect(),
            2 => {
                // Small positive or negative numbers.
                let v = i64::from(s.byte()) * if s.chance(1, 2) { -1 } else { 1 };
                let mut b = v.to_le_bytes().to_vec();
                let fill = if v < 0 { 0xFF } else { 0 };
                b.resize(n.max(8), fill);
                b.truncate(n);
                b
            }
            _ => {
                let mut b = s.bytes(n);
                if let Some(l) = b.last_mut() {
                    *l = *s.pick(&[0x7F, 0x80, 0x00, 0xFF]);
                }
                b
            }
        }
    };
    match code {
        0 | 8 => vec![],
        1 => raw(s, 1),
        2 => raw(s, 2),
        3 => raw(s, 3),
        4 => raw(s, 4),
        5 => {
            if s.chance(1, 4) {
                s.pick(&[0x7F80_0000u32, 0xFF80_0000, 0x7FC0_0000, 0x7F80_0001, 0x8000_0000, 1, 0x7F7F_FFFF, 0xFFFF_FFFF])
                    .to_le_bytes()
                    .to_vec()
            } else {
                s.bytes(4)
            }
        }
        6 => raw(s, 6),
        7 => raw(s, 8),
        9 => bcd(s, 1),
        10 => bcd(s, 2),
        11 => bcd(s, 3),
        12 => bcd(s, 4),
        14 => bcd(s, 6),
        _ => {
            let kind = s.weighted(if o.texty { &[16, 1, 1, 1, 1] } else { &[6, 2, 2, 2, 1] });
            match kind {
                0 => {
                    let t = text(s, o);
                    let mut d = vec![t.len() as u8];
                    d.extend(t.iter().rev());
                    d
                }
                1 | 2 => {
                    let n = s.range(0, 9);
                    let mut d = vec![if kind == 1 { 0xC0 } else { 0xD0 } + n as u8];
                    d.extend(bcd(s, n));
                    d
                }
                3 => {
                    let n = s.range(0, 15);
                    let mut d = vec![0xE0 + n as u8];
                    d.extend(raw(s, n));
                    d
                }
                _ => {
                    let l = if o.long { 0xF0 + s.below(7) as u8 } else { 0xF0 };
                    let n = match l {
                        0xF5 => 48,
                        0xF6 => 64,
                        _ => 4 * usize::from(l - 0xEC),
                    };
                    let mut d = vec![l];
                    d.extend(raw(s, n));
                    d
                }
            }
        }
    }
}

pub fn bcd(s: &mut Source, n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| match s.below(6) {
            0 => 0x00,
            1 => 0x99,
            _ => {
                let v = (s.raw() % 100) as u8;
                (v / 10) << 4 | v % 10
            }
        })
        .collect()
}

/// Text in reading order, as bytes.
pub fn text(s: &mut Source, o: &RecOpts) -> Vec<u8> {
    let max = if o.long { 191 } else { 12 };
    let n = match s.weighted(&[2, 12, 3, 1]) {
        0 => 0,
        1 => s.range(1, 12),
        2 => s.range(1, max.min(60)),
        _ => s.range(1, max),
    };
    let style = if o.hostile { s.below(6) } else { 0 };
    if n > 24 {
        let grown = s.grown(2 * n);
        styled(&mut Source::new(&grown), style, n)
    } else {
        styled(s, style, n)
    }
}

fn styled(s: &mut Source, style: usize, n: usize) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    while out.len() < n {
        match style {
            0 => out.push(0x20 + (s.raw() % 0x5F) as u8),
            1 => out.extend(s.pick(&[
                "\"", "'", "<", ">", "&", ",", ";", "\n", "\r", "\t", "\\", "|", "]", "[", "#", "%", "`", "{", "}", "(", ")", "&amp;", "]]>",
                "<b>", "</script>", "--", ":", " ", "- ", "\u{0}", "\u{1b}", "\u{7f}", "a", "Z", "0", "=", "+", "@", "!", "*", "~", "null", "true",
                "#quot;", "1e5", "0x10", "-", ".", "_", "%%", "end", "subgraph", "&#10;", "  ", "\r\n",
            ]).bytes()),
            2 => out.extend(s.pick(&["ä", "ß", "é", "水", "电", "한", "🔥", "e\u{301}", "\u{200b}", "\u{202e}", "\u{feff}", "½", "€", "\u{85}", "\u{2028}", "x", " ", "👩‍👩‍👧", "\u{fffd}", "\u{ffff}", "\u{10ffff}"]).bytes()),
            3 => out.push(s.byte()),
            4 => out.push(0x80 | s.byte()),
            _ => out.push(if s.chance(1, 6) { s.byte() } else { b'a' + (s.raw() % 26) as u8 }),
        }
    }
    out.truncate(n);
    out
}

/// One ordinary record.
pub fn record(s: &mut Source, o: &RecOpts) -> Vec<u8> {
    let kind = s.weighted(&[10, 3, if o.plain { 3 } else { 0 }, if o.texty { 20 } else { 1 }]);
    let difes = dif_chain(s, o.long);
    let upper = (s.byte() & 7) << 4;
    let (code, header_tail): (u8, Vec<u8>) = match kind {
        1 => {
            let (code, vif) = *s.pick(&[(2u8, 0x6Cu8), (4, 0x6D), (3, 0x6D), (6, 0x6D), (4, 0x6C), (2, 0x6D), (12, 0x6D)]);
            let mut vifes = if s.chance(1, 3) { combinables(s, false) } else { vec![] };
            if matches!(vif::lookup(vif | 0x80, &vifes), vif::Vib::Invalid) {
                vifes.clear();
            }
            let mut t = vec![if vifes.is_empty() { vif } else { vif | 0x80 }];
            t.append(&mut vifes);
            (code, t)
        }
        2 => {
            let code = (s.raw() % 15) as u8;
            (code, plain_vib(s, crate::model::plain_first()).0)
        }
        k => {
            let code = if k == 3 { 13 } else { (s.raw() % 15) as u8 };
            let (vif, vifes) = vib(s, o);
            let mut t = vec![vif];
            t.extend(vifes);
            (code, t)
        }
    };
    let mut r = vec![code | upper | if difes.is_empty() { 0 } else { 0x80 }];
    r.extend(difes);
    r.extend(header_tail);
    r.extend(data_for(s, code, o));
    r
}

/// Value information with a plain text unit: bytes in the wanted order, text, extensions.
pub fn plain_vib(s: &mut Source, plain_first: bool) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let n = s.range(1, 9);
    let text: Vec<u8> = match s.below(3) {
        0 => (0..n).map(|_| 0x21 + (s.raw() % 0x5E) as u8).collect(),
        1 => (0..n).map(|_| *s.pick(b"\"'<>&,;\n\r\t|[]#`{}()%:-")).collect(),
        _ => s.bytes(n),
    };
    let mut vifes = combinables(s, false);
    if vifes.is_empty() || matches!(vif::lookup(0xFC, &vifes), vif::Vib::Invalid) {
        vifes = vec![0x74];
    }
    let mut t = vec![0xFC];
    if plain_first {
        t.push(n as u8);
        t.extend(&text);
        t.extend(&vifes);
    } else {
        t.extend(&vifes);
        t.push(n as u8);
        t.extend(&text);
    }
    (t, text, vifes)
}

/// A list of records, each as bytes, up to `budget` bytes; fillers are put in by `join`.
pub fn records(s: &mut Source, o: &RecOpts, max: usize, budget: usize) -> Vec<Vec<u8>> {
    let n = s.below(max + 1);
    let mut out: Vec<Vec<u8>> = vec![];
    let mut used = 0;
    if n > 1 && s.chance(1, 24) {
        return run(s, o, budget);
    }
    for _ in 0..n {
        if s.exhausted() {
            break;
        }
        let r = record(s, o);
        if used + r.len() > budget {
            continue;
        }
        used += r.len();
        out.push(r);
    }
    out
}

/// A long run of small records, most of them repetitions, with an ordinary one at its end.
fn run(s: &mut Source, o: &RecOpts, budget: usize) -> Vec<Vec<u8>> {
    let last = record(s, o);
    let count = s.range(4, 125);
    let motif: Vec<Vec<u8>> = (0..s.range(1, 3))
        .map(|_| {
            let r = record(s, &SHORT);
            if r.len() > 7 {
                vec![0x01, 0x13, s.byte()]
            } else {
                r
            }
        })
        .collect();
    let small = s.chance(1, 2);
    let mut out: Vec<Vec<u8>> = vec![];
    let mut used = 0;
    for i in 0..count {
        let r = if small { vec![0x00, 0x13] } else { motif[i % motif.len()].clone() };
        if used + r.len() + last.len() > budget {
            break;
        }
        used += r.len();
        out.push(r);
    }
    if used + last.len() <= budget {
        out.push(last);
    }
    out
}

/// Joins records, sometimes with fillers, and sometimes ends with a block of
/// manufacturer data or a bare special function byte.
pub fn join(s: &mut Source, recs: &[Vec<u8>], budget: usize) -> Vec<u8> {
    let mut b = vec![];
    let fillers = s.chance(1, 3);
    let readout = s.chance(1, 6);
    for r in recs {
        if fillers && b.len() + r.len() + 4 < budget {
            let n = s.below(3);
            b.extend(std::iter::repeat(0x2F).take(n));
        }
        b.extend(r);
        if readout && s.chance(1, 4) && b.len() + 1 < budget {
            b.push(0x7F);
        }
    }
    match s.weighted(&[8, 1, 1, 1]) {
        1 => {
            let room = budget.saturating_sub(b.len());
            if room > 0 {
                b.push(*s.pick(&[0x0F, 0x1F]));
                let most = if s.chance(1, 4) { room } else { room.min(20) };
                let n = s.below(most);
                b.extend(s.bytes(n));
            }
        }
        2 => {
            let room = budget.saturating_sub(b.len()).min(6);
            let n = s.below(room + 1);
            b.extend(std::iter::repeat(0x2F).take(n));
        }
        _ => {}
    }
    b.truncate(budget);
    b
}

pub fn block(s: &mut Source, o: &RecOpts, max: usize, budget: usize) -> Vec<u8> {
    let r = records(s, o, max, budget);
    join(s, &r, budget)
}

// ---------------------------------------------------------------- headers

#[derive(Clone, Debug, PartialEq)]
pub struct Ident {
    pub id: [u8; 4],
    pub man: [u8; 2],
    pub version: u8,
    pub device: u8,
}

impl Ident {
    pub fn digits(&self) -> String {
        self.id.iter().rev().map(|b| format!("{b:02X}")).collect()
    }
    pub fn letters(&self) -> Option<String> {
        manufacturer_letters(u16::from_le_bytes(self.man))
    }
}

pub fn manufacturer_letters(code: u16) -> Option<String> {
    let l = [code >> 10 & 31, code >> 5 & 31, code & 31];
    if code & 0x8000 != 0 || l.iter().any(|x| *x == 0 || *x > 26) {
        return None;
    }
    Some(l.iter().map(|x| char::from(b'@' + *x as u8)).collect())
}

#[derive(Clone, Debug, PartialEq)]
pub struct ShortH {
    pub access: u8,
    pub status: u8,
    pub conf: [u8; 2],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Hdr {
    Long(Ident, ShortH),
    /// Control information 7Ah or A1h..AFh.
    Short(u8, ShortH),
    /// Control information A0h: one more byte before the short header.
    Config(u8, ShortH),
    None,
    /// ELL I around a short header or none.
    Ell1(u8, u8, Option<ShortH>),
    /// ELL II: communication control, access number, session number, payload CRC.
    Ell2(u8, u8, [u8; 4], [u8; 2]),
    /// ELL III: as ELL II with receiver manufacturer and address.
    Ell3(u8, u8, [u8; 2], [u8; 6], [u8; 4], [u8; 2]),
    Fixed { id: [u8; 4], access: u8, status: u8, kind: [u8; 2], counters: [[u8; 4]; 2] },
    Reset(u8),
}

impl Hdr {
    pub fn bytes(&self) -> Vec<u8> {
        let short = |v: &mut Vec<u8>, h: &ShortH| {
            v.extend([h.access, h.status]);
            v.extend(h.conf);
        };
        let mut v = vec![];
        match self {
            Hdr::Long(i, h) => {
                v.push(0x72);
                v.extend(i.id);
                v.extend(i.man);
                v.extend([i.version, i.device]);
                short(&mut v, h);
            }
            Hdr::Short(ci, h) => {
                v.push(*ci);
                short(&mut v, h);
            }
            Hdr::Config(b, h) => {
                v.extend([0xA0, *b]);
                short(&mut v, h);
            }
            Hdr::None => v.push(0x78),
            Hdr::Ell1(cc, acc, inner) => {
                v.extend([0x8C, *cc, *acc]);
                match inner {
                    Some(h) => {
                        v.push(0x7A);
                        short(&mut v, h);
                    }
                    None => v.push(0x78),
                }
            }
            Hdr::Ell2(cc, acc, sn, crc) => {
                v.extend([0x8D, *cc, *acc]);
                v.extend(sn);
                v.extend(crc);
            }
            Hdr::Ell3(cc, acc, man, addr, sn, crc) => {
                v.extend([0x8E, *cc, *acc]);
                v.extend(man);
                v.extend(addr);
                v.extend(sn);
                v.extend(crc);
            }
            Hdr::Fixed { id, access, status, kind, counters } => {
                v.push(0x73);
                v.extend(id);
                v.extend([*access, *status]);
                v.extend(kind);
                v.extend(counters[0]);
                v.extend(counters[1]);
            }
            Hdr::Reset(code) => v.extend([0x50, *code]),
        }
        v
    }
    pub fn name(&self) -> &'static str {
        match self {
            Hdr::Long(..) => "long header",
            Hdr::Short(0x7A, _) => "short header",
            Hdr::Short(..) => "short header A1h..AFh",
            Hdr::Config(..) => "short header A0h",
            Hdr::None => "no header",
            Hdr::Ell1(_, _, Some(_)) => "ELL I + short header",
            Hdr::Ell1(..) => "ELL I + no header",
            Hdr::Ell2(..) => "ELL II",
            Hdr::Ell3(..) => "ELL III",
            Hdr::Fixed { .. } => "fixed structure",
            Hdr::Reset(_) => "application reset",
        }
    }
    pub fn conf(&self) -> Option<[u8; 2]> {
        match self {
            Hdr::Long(_, h) | Hdr::Short(_, h) | Hdr::Config(_, h) | Hdr::Ell1(_, _, Some(h)) => Some(h.conf),
            _ => None,
        }
    }
    pub fn set_conf(&mut self, c: [u8; 2]) {
        match self {
            Hdr::Long(_, h) | Hdr::Short(_, h) | Hdr::Config(_, h) | Hdr::Ell1(_, _, Some(h)) => h.conf = c,
            _ => {}
        }
    }
    pub fn access(&self) -> Option<u8> {
        match self {
            Hdr::Long(_, h) | Hdr::Short(_, h) | Hdr::Config(_, h) | Hdr::Ell1(_, _, Some(h)) => Some(h.access),
            _ => None,
        }
    }
    /// Whether records follow in the clear.
    pub fn carries_records(&self) -> bool {
        matches!(self, Hdr::Long(..) | Hdr::Short(..) | Hdr::Config(..) | Hdr::None | Hdr::Ell1(..))
    }
}

pub fn ident(s: &mut Source) -> Ident {
    let id: [u8; 4] = bcd(s, 4).try_into().unwrap();
    let l: Vec<u16> = (0..3).map(|_| 1 + (s.raw() % 26) as u16).collect();
    let man = match s.below(4) {
        // Manufacturers of the bundled directory.
        0 => man_code(s.pick(&["ABB", "ACE", "SIE", "KAM", "LUG", "EMH", "DME", "ELS", "ZRI", "TCH", "ITW", "GWF", "NZR", "SON", "REL", "APA", "SEN", "QDS"])),
        _ => (l[0] << 10 | l[1] << 5 | l[2]).to_le_bytes(),
    };
    Ident { id, man, version: s.byte(), device: if s.chance(1, 2) { s.byte() } else { (s.raw() % 0x45) as u8 } }
}

pub fn man_code(t: &str) -> [u8; 2] {
    let b = t.as_bytes();
    let l = |i: usize| u16::from(b[i] - b'@');
    (l(0) << 10 | l(1) << 5 | l(2)).to_le_bytes()
}

/// Short header fields without declared encryption.
pub fn short(s: &mut Source) -> ShortH {
    let status = if s.chance(1, 2) { s.byte() } else { 0 };
    let conf = if s.chance(1, 2) { [s.byte(), s.byte() & 0xE0] } else { [0, 0] };
    ShortH { access: s.byte(), status, conf }
}

/// Short header under one of the control information bytes A0h..AFh.
pub fn a_header(s: &mut Source) -> Hdr {
    let (n, b, h) = (s.below(16) as u8, s.edgy_byte(), short(s));
    if n < 5 {
        Hdr::Config(b, h)
    } else {
        Hdr::Short(0xA0 + n, h)
    }
}

/// Header under which records follow in the clear.
pub fn clear_header(s: &mut Source) -> Hdr {
    match s.weighted(&[5, 3, 2, 2, 1]) {
        0 => Hdr::Long(ident(s), short(s)),
        1 => Hdr::Short(0x7A, short(s)),
        2 => Hdr::None,
        3 => Hdr::Ell1(s.byte(), s.byte(), Some(short(s))),
        _ => Hdr::Ell1(s.byte(), s.byte(), None),
    }
}

// ---------------------------------------------------------------- links

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Layout {
    Plain,
    Trailing,
    FormatA,
}

pub const LAYOUTS: [Layout; 3] = [Layout::Plain, Layout::Trailing, Layout::FormatA];

#[derive(Clone, Debug, PartialEq)]
pub enum Link {
    Wired { c: u8, a: u8 },
    Wireless { c: u8, ident: Ident, layout: Layout },
}

/// C fields of wired frames that carry user data from a meter or to it.
pub const WIRED_C: &[u8] = &[0x08, 0x18, 0x28, 0x38, 0x73, 0x40, 0x44, 0x5A, 0x7A, 0x5B, 0x7B];
/// C fields of wireless frames.
pub const WIRELESS_C: &[u8] = &[0x44, 0x46, 0x06, 0x08, 0x18, 0x28, 0x38, 0x47, 0x48];

pub fn link(s: &mut Source) -> Link {
    if s.chance(1, 2) {
        Link::Wireless { c: 0x44, ident: ident(s), layout: *s.pick(&LAYOUTS) }
    } else {
        Link::Wired { c: *s.pick(&[0x08, 0x08, 0x18, 0x28, 0x38]), a: s.byte() }
    }
}

impl Link {
    /// Number of application bytes the frame can hold.
    pub fn room(&self) -> usize {
        match self {
            Link::Wired { .. } => 253,
            Link::Wireless { layout: Layout::Trailing, .. } => 244,
            Link::Wireless { .. } => 246,
        }
    }
    pub fn is_wired(&self) -> bool {
        matches!(self, Link::Wired { .. })
    }
    pub fn with_layout(&self, l: Layout) -> Link {
        match self {
            Link::Wireless { c, ident, .. } => Link::Wireless { c: *c, ident: ident.clone(), layout: l },
            w => w.clone(),
        }
    }
    pub fn frame(&self, app: &[u8]) -> Vec<u8> {
        match self {
            Link::Wired { c, a } => wired_long(*c, *a, app),
            Link::Wireless { c, ident, layout } => {
                let mut body = vec![*c];
                body.extend(ident.man);
                body.extend(ident.id);
                body.extend([ident.version, ident.device]);
                body.extend(app);
                wireless(&body, *layout)
            }
        }
    }
}

/// `body` is everything after the length byte, without CRCs.
pub fn wireless(body: &[u8], layout: Layout) -> Vec<u8> {
    let l = body.len() + if layout == Layout::Trailing { 2 } else { 0 };
    assert!(l <= 255);
    let mut f = vec![l as u8];
    f.extend_from_slice(body);
    match layout {
        Layout::Plain => f,
        Layout::Trailing => {
            let c = crc16(&f);
            f.extend(c.to_be_bytes());
            f
        }
        Layout::FormatA => {
            let mut out = vec![];
            let (first, rest) = f.split_at(10.min(f.len()));
            out.extend(first);
            out.extend(crc16(first).to_be_bytes());
            for chunk in rest.chunks(16) {
                out.extend(chunk);
                out.extend(crc16(chunk).to_be_bytes());
            }
            out
        }
    }
}

/// Frames that happen to fit a second reading (a CRC by coincidence) in any
/// layout, as checks also look at the same frame in another layout.
pub fn ambiguous(link: &Link, app: &[u8]) -> bool {
    LAYOUTS.iter().map(|l| link.with_layout(*l)).any(|l| app.len() <= l.room() && ambiguous_as(&l, app))
}

fn ambiguous_as(link: &Link, app: &[u8]) -> bool {
    let Link::Wireless { layout, .. } = link else { return false };
    let frame = link.frame(app);
    if wired_well_formed(&frame) {
        return true;
    }
    let ends_in_crc = |f: &[u8]| f.len() >= 12 && crc16(&f[..f.len() - 2]).to_be_bytes() == f[f.len() - 2..];
    let header_crc = frame.len() >= 12 && crc16(&frame[..10]).to_be_bytes() == frame[10..12];
    match layout {
        Layout::FormatA => ends_in_crc(&link.with_layout(Layout::Plain).frame(app)),
        Layout::Plain => header_crc || ends_in_crc(&frame),
        Layout::Trailing => header_crc,
    }
}

/// Shape of a wired frame, function code apart.
pub fn wired_well_formed(f: &[u8]) -> bool {
    match f {
        [0xE5] => true,
        [0x10, c, a, sum, 0x16] => c.wrapping_add(*a) == *sum,
        [0x68, l1, l2, 0x68, rest @ ..] => {
            l1 == l2
                && rest.len() == usize::from(*l1) + 2
                && *l1 >= 2
                && rest[rest.len() - 1] == 0x16
                && rest[..rest.len() - 2].iter().fold(0u8, |s, b| s.wrapping_add(*b)) == rest[rest.len() - 2]
        }
        _ => false,
    }
}

// ---------------------------------------------------------------- whole frames

#[derive(Clone, Debug)]
pub struct Frame {
    pub link: Link,
    pub hdr: Hdr,
    pub block: Vec<u8>,
}

impl Frame {
    pub fn app(&self) -> Vec<u8> {
        let mut a = self.hdr.bytes();
        a.extend(&self.block);
        a
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.link.frame(&self.app())
    }
    pub fn ambiguous(&self) -> bool {
        ambiguous(&self.link, &self.app())
    }
}

/// Frame with cleartext records.
pub fn clear_frame(s: &mut Source, o: &RecOpts, max: usize) -> Frame {
    let link = link(s);
    let hdr = clear_header(s);
    let room = link.room() - hdr.bytes().len();
    let block = block(s, o, max, room);
    Frame { link, hdr, block }
}

/// Any well-formed frame: also headers without records or with declared encryption.
pub fn any_frame(s: &mut Source, o: &RecOpts, max: usize) -> Frame {
    let mut f = clear_frame(s, o, max);
    match s.weighted(&[8, 1, 1, 1, 1, 2]) {
        0 => {}
        1 => f.hdr = Hdr::Ell2(s.byte(), s.byte(), s.bytes(4).try_into().unwrap(), s.bytes(2).try_into().unwrap()),
        2 => {
            f.hdr = Hdr::Ell3(
                s.byte(),
                s.byte(),
                s.bytes(2).try_into().unwrap(),
                s.bytes(6).try_into().unwrap(),
                s.bytes(4).try_into().unwrap(),
                s.bytes(2).try_into().unwrap(),
            )
        }
        3 => {
            f.hdr = fixed(s);
            f.block.clear();
        }
        4 => {
            f.hdr = Hdr::Reset(s.byte());
            f.block.clear();
        }
        _ => {
            let mode = 1 + s.below(31) as u8;
            f.hdr.set_conf([s.byte(), s.byte() & 0xE0 | mode]);
        }
    }
    let room = f.link.room() - f.hdr.bytes().len();
    f.block.truncate(room);
    f
}

/// A payload with a known control information code whose header holds any bytes.
pub fn loose_payload(s: &mut Source, room: usize) -> Vec<u8> {
    let mut app = vec![];
    for _ in 0..s.weighted(&[8, 2, 1]) {
        app.extend([0x8C, s.byte(), s.byte()]);
    }
    let ci = *s.pick(&[0x72, 0x76, 0x72, 0x76, 0x7A, 0x78, 0x73, 0x77, 0x50, 0x8D, 0x8E, 0xA0, 0xA1, 0xAF]);
    app.push(ci);
    let head = match ci {
        0x72 | 0x76 => 12,
        0x73 | 0x77 => 16,
        0xA0 => 5,
        0x7A | 0xA1 | 0xAF => 4,
        0x8D => 8,
        0x8E => 16,
        0x50 => 1,
        _ => 0,
    };
    for _ in 0..head {
        app.push(if s.chance(9, 10) { (s.raw() % 10) as u8 * 16 + (s.raw() % 10) as u8 } else { s.byte() });
    }
    // Mostly in the clear.
    if matches!(ci, 0x72 | 0x76 | 0x7A | 0xA0..=0xAF) && s.chance(3, 4) {
        let end = app.len();
        app[end - 1] &= 0xE0;
    }
    if s.chance(1, 8) {
        let n = s.below(app.len());
        app.truncate(n + 1);
        return app;
    }
    if s.chance(1, 4) {
        let n = s.below(30);
        app.extend(s.bytes(n));
    } else {
        let left = room.saturating_sub(app.len());
        app.extend(block(s, &FULL, 4, left));
    }
    app.truncate(room);
    app
}

pub fn fixed(s: &mut Source) -> Hdr {
    Hdr::Fixed {
        id: bcd(s, 4).try_into().unwrap(),
        access: s.byte(),
        status: s.byte(),
        kind: [s.byte(), s.byte()],
        counters: [bcd(s, 4).try_into().unwrap(), bcd(s, 4).try_into().unwrap()],
    }
}

/// Initial vector of security mode 5.
pub fn iv5(i: &Ident, access: u8) -> [u8; 16] {
    let mut iv = [access; 16];
    iv[..2].copy_from_slice(&i.man);
    iv[2..6].copy_from_slice(&i.id);
    iv[6] = i.version;
    iv[7] = i.device;
    iv
}

/// Pads with fillers to whole blocks and encrypts.
pub fn encrypt(mode: u8, key: &[u8; 16], i: &Ident, access: u8, clear: &[u8]) -> Vec<u8> {
    let iv = if mode == 7 { [0; 16] } else { iv5(i, access) };
    aes_cbc_encrypt(key, &iv, clear)
}
