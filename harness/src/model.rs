//! Reference model of the record layer: splits a data block into records and
//! says what each record means. Parts that the standard or the library leaves
//! open are marked so and not compared.

use crate::runner::Fail;
use crate::util::hex_sp;
use crate::vif::{self, Info, Vib};
use serde_json::Value;

#[derive(Clone, Debug, PartialEq)]
pub enum Comp {
    Single(u16),
    Every,
    Invalid,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// Canonical decimal text.
    Decimal(String),
    Float(u32),
    Text(String),
    Date { day: Comp, month: Comp, year: Comp },
    Time { hour: Comp, minute: Comp, second: Comp },
    DateTime { day: Comp, month: Comp, year: Comp, hour: Comp, minute: Comp, second: Option<Comp> },
    Manufacturer,
    None,
    Open,
}

#[derive(Clone, Debug)]
pub struct Record {
    pub offset: usize,
    pub dif: u8,
    pub difes: Vec<u8>,
    pub vif: Option<u8>,
    pub vifes: Vec<u8>,
    pub plain: Option<Vec<u8>>,
    pub header: Vec<u8>,
    pub data: Vec<u8>,
    pub function: String,
    pub storage: Option<u64>,
    pub tariff: u64,
    pub subunit: u64,
    pub coding: &'static str,
    pub value: Val,
    /// Unscaled number as text for numeric codings.
    pub significand: Option<String>,
    pub info: Option<Info>,
}

impl Record {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.header.clone();
        b.extend_from_slice(&self.data);
        b
    }
    pub fn special(&self) -> bool {
        self.dif & 0x0F == 0x0F
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// All bytes consumed.
    Complete,
    /// The record starting at this offset cannot be decoded.
    Bad(usize),
    /// The standard does not say what follows from this offset on.
    Open(usize),
}

#[derive(Clone, Debug)]
pub struct Parse {
    pub records: Vec<Record>,
    pub fillers: usize,
    pub end: End,
}

enum Step {
    Record(Box<Record>, usize),
    Bad,
    Open,
}

pub fn plain_first() -> bool {
    cfg!(feature = "plaintext-before-extension")
}

pub fn parse(block: &[u8]) -> Parse {
    parse_with(block, plain_first())
}

pub fn parse_with(block: &[u8], plain_first: bool) -> Parse {
    let mut pos = 0;
    let mut out = Parse { records: vec![], fillers: 0, end: End::Complete };
    while pos < block.len() {
        if block[pos] == 0x2F {
            out.fillers += 1;
            pos += 1;
            continue;
        }
        match step(&block[pos..], pos, plain_first) {
            Step::Record(r, n) => {
                out.records.push(*r);
                pos += n;
            }
            Step::Bad => {
                out.end = End::Bad(pos);
                return out;
            }
            Step::Open => {
                out.end = End::Open(pos);
                return out;
            }
        }
    }
    out
}

fn special(b: &[u8], offset: usize, name: &str, coding: &'static str, data: &[u8], value: Val) -> Step {
    Step::Record(
        Box::new(Record {
            offset,
            dif: b[0],
            difes: vec![],
            vif: None,
            vifes: vec![],
            plain: None,
            header: vec![b[0]],
            data: data.to_vec(),
            function: name.to_string(),
            storage: if b[0] == 0x7F { None } else { Some(0) },
            tariff: 0,
            subunit: 0,
            coding,
            value,
            significand: None,
            info: None,
        }),
        1 + data.len(),
    )
}

fn step(b: &[u8], offset: usize, plain_first: bool) -> Step {
    let dif = b[0];
    match dif {
        0x0F => return special(b, offset, "Manufacturer specific", "Manufacturer specific", &b[1..], Val::Manufacturer),
        0x1F => return special(b, offset, "More records follow", "More records follow", &b[1..], Val::Manufacturer),
        0x7F => return special(b, offset, "Global readout request", "Global readout request", &[], Val::None),
        _ if dif & 0x0F == 0x0F => return Step::Open,
        _ => {}
    }
    let mut pos = 1;
    let mut difes = vec![];
    let mut more = dif & 0x80 != 0;
    while more {
        let Some(d) = b.get(pos) else { return if difes.len() > 10 { Step::Open } else { Step::Bad } };
        difes.push(*d);
        more = d & 0x80 != 0;
        pos += 1;
    }
    if difes.len() > 10 {
        return Step::Open;
    }
    let Some(&vif) = b.get(pos) else { return Step::Bad };
    pos += 1;
    let mut plain = None;
    let has_text = vif & 0x7F == 0x7C;
    if vif == 0x7C && !plain_first {
        return Step::Open;
    }
    let mut take_text = |pos: &mut usize| -> Result<(), Step> {
        let Some(&n) = b.get(*pos) else { return Err(Step::Bad) };
        let n = usize::from(n);
        if n > 9 {
            return Err(Step::Open);
        }
        let Some(t) = b.get(*pos + 1..*pos + 1 + n) else { return Err(Step::Bad) };
        plain = Some(t.to_vec());
        *pos += 1 + n;
        Ok(())
    };
    if has_text && plain_first {
        if let Err(s) = take_text(&mut pos) {
            return s;
        }
    }
    let mut vifes = vec![];
    let mut more = vif & 0x80 != 0;
    while more {
        let Some(v) = b.get(pos) else { return if vifes.len() > 10 { Step::Open } else { Step::Bad } };
        vifes.push(*v);
        more = v & 0x80 != 0;
        pos += 1;
    }
    if vifes.len() > 10 {
        return Step::Open;
    }
    if has_text && !plain_first {
        if let Err(s) = take_text(&mut pos) {
            return s;
        }
    }
    let info = match vif::lookup(vif, &vifes) {
        Vib::Known(i) => i,
        // Refused or reported without quantity: both are allowed.
        Vib::Invalid => return Step::Open,
    };
    let header = b[..pos].to_vec();
    let rest = &b[pos..];

    let date_kind = match (vif & 0x7F, dif & 0x0F) {
        (0x6C, 2) => Some("Date (type G)"),
        (0x6D, 3) => Some("Time (type J)"),
        (0x6D, 4) => Some("Date and time (type F)"),
        (0x6D, 6) => Some("Date and time (type I)"),
        _ => None,
    };
    // Extension tables reuse 6Ch/6Dh for other things: only primary codes are dates.
    let date_kind = if vif == 0xFB || vif == 0xFD { None } else { date_kind };

    let (coding, len): (&'static str, usize) = match dif & 0x0F {
        0 => ("No data", 0),
        1 => ("8-bit integer", 1),
        2 => ("16-bit integer", 2),
        3 => ("24-bit integer", 3),
        4 => ("32-bit integer", 4),
        5 => ("32-bit real", 4),
        6 => ("48-bit integer", 6),
        7 => ("64-bit integer", 8),
        8 => ("Selection for readout", 0),
        9 => ("2-digit BCD", 1),
        10 => ("4-digit BCD", 2),
        11 => ("6-digit BCD", 3),
        12 => ("8-digit BCD", 4),
        13 => {
            let Some(&l) = rest.first() else { return Step::Bad };
            let n = match l {
                0x00..=0xBF => usize::from(l),
                0xC0..=0xC9 => usize::from(l - 0xC0),
                0xD0..=0xD9 => usize::from(l - 0xD0),
                0xE0..=0xEF => usize::from(l - 0xE0),
                0xF0..=0xF4 => 4 * usize::from(l - 0xEC),
                0xF5 => 48,
                0xF6 => 64,
                _ => return Step::Bad,
            };
            ("Variable length", 1 + n)
        }
        _ => ("12-digit BCD", 6),
    };
    let Some(data) = rest.get(..len) else { return Step::Bad };
    let data = data.to_vec();

    let mut significand = None;
    let value = if let Some(kind) = date_kind {
        temporal(kind, &data)
    } else {
        match dif & 0x0F {
            0 | 8 => Val::None,
            5 => Val::Float(u32::from_le_bytes([data[0], data[1], data[2], data[3]])),
            1 | 2 | 3 | 4 | 6 | 7 => {
                significand = Some(le_signed(&data));
                Val::Open
            }
            9..=12 | 14 => match bcd(&data) {
                Some(d) => {
                    significand = Some(d);
                    Val::Open
                }
                None => return Step::Bad,
            },
            _ => match data[0] {
                0x00..=0xBF => Val::Text(text(&data[1..])),
                l @ 0xC0..=0xD9 => match bcd(&data[1..]) {
                    Some(d) => {
                        significand = Some(if l >= 0xD0 && d != "0" { format!("-{d}") } else { d });
                        Val::Open
                    }
                    None => return Step::Bad,
                },
                0xE0 => {
                    significand = Some("0".into());
                    Val::Open
                }
                _ => {
                    significand = Some(le_signed(&data[1..]));
                    Val::Open
                }
            },
        }
    };
    let value = match (&significand, info.open) {
        (Some(s), false) => Val::Decimal(scale(s, info.scale, info.offset)),
        _ => value,
    };

    let mut storage = u64::from(dif >> 6 & 1);
    let (mut tariff, mut subunit) = (0u64, 0u64);
    for (i, d) in difes.iter().enumerate() {
        storage |= u64::from(d & 0x0F) << (1 + 4 * i);
        tariff |= u64::from(d >> 4 & 3) << (2 * i);
        subunit |= u64::from(d >> 6 & 1) << i;
    }
    let function = ["Instantaneous value", "Maximum value", "Minimum value", "Value during error state"]
        [usize::from(dif >> 4 & 3)];
    let n = header.len() + data.len();
    Step::Record(
        Box::new(Record {
            offset,
            dif,
            difes,
            vif: Some(vif),
            vifes,
            plain,
            header,
            data,
            function: function.to_string(),
            storage: Some(storage),
            tariff,
            subunit,
            coding: date_kind.unwrap_or(coding),
            value,
            significand,
            info: Some(info),
        }),
        n,
    )
}

pub fn text(reversed: &[u8]) -> String {
    let bytes: Vec<u8> = reversed.iter().rev().copied().collect();
    match std::str::from_utf8(&bytes) {
        Ok(s) => s.to_string(),
        Err(_) => bytes.iter().map(|b| char::from(*b)).collect(),
    }
}

fn temporal(kind: &str, d: &[u8]) -> Val {
    let date = |lo: u8, hi: u8| {
        let day = u16::from(lo & 0x1F);
        let month = u16::from(hi & 0x0F);
        let year = u16::from(lo >> 5) | u16::from(hi >> 4) << 3;
        (
            if day == 0 { Comp::Every } else { Comp::Single(day) },
            if (1..=12).contains(&month) { Comp::Single(month) } else { Comp::Invalid },
            if year == 127 { Comp::Every } else { Comp::Single(year) },
        )
    };
    let field = |b: u8, bits: u8| {
        let m = (1u8 << bits) - 1;
        if b & m == m {
            Comp::Every
        } else {
            Comp::Single(u16::from(b & m))
        }
    };
    match kind {
        "Date (type G)" => {
            let (day, month, year) = date(d[0], d[1]);
            Val::Date { day, month, year }
        }
        "Time (type J)" => Val::Time { second: field(d[0], 6), minute: field(d[1], 6), hour: field(d[2], 5) },
        "Date and time (type F)" => {
            let (day, month, year) = date(d[2], d[3]);
            Val::DateTime { day, month, year, hour: field(d[1], 5), minute: field(d[0], 6), second: None }
        }
        _ => {
            let (day, month, year) = date(d[3], d[4]);
            Val::DateTime { day, month, year, hour: field(d[2], 5), minute: field(d[1], 6), second: Some(field(d[0], 6)) }
        }
    }
}

/// Digits of a packed BCD number, least significant byte first.
pub fn bcd(data: &[u8]) -> Option<String> {
    let mut s = String::new();
    for b in data.iter().rev() {
        for d in [b >> 4, b & 15] {
            if d > 9 {
                return None;
            }
            s.push(char::from(b'0' + d));
        }
    }
    let t = s.trim_start_matches('0');
    Some(if t.is_empty() { "0".into() } else { t.to_string() })
}

/// Decimal text of a little-endian two's complement number of any length.
pub fn le_signed(data: &[u8]) -> String {
    let negative = data.last().is_some_and(|b| b & 0x80 != 0);
    // Base 10^9 limbs, least significant first.
    let mut limbs: Vec<u64> = vec![0];
    for b in data.iter().rev() {
        let mut carry = u64::from(if negative { !*b } else { *b });
        for l in limbs.iter_mut() {
            let v = *l * 256 + carry;
            *l = v % 1_000_000_000;
            carry = v / 1_000_000_000;
        }
        if carry > 0 {
            limbs.push(carry);
        }
    }
    if negative {
        // -x = !x + 1
        let mut i = 0;
        loop {
            if i == limbs.len() {
                limbs.push(0);
            }
            limbs[i] += 1;
            if limbs[i] < 1_000_000_000 {
                break;
            }
            limbs[i] = 0;
            i += 1;
        }
    }
    let mut s = String::new();
    for (i, l) in limbs.iter().rev().enumerate() {
        if i == 0 {
            s.push_str(&l.to_string());
        } else {
            s.push_str(&format!("{l:09}"));
        }
    }
    let t = s.trim_start_matches('0');
    let t = if t.is_empty() { "0" } else { t };
    if negative {
        format!("-{t}")
    } else {
        t.to_string()
    }
}

/// significand * 10^scale + 10^offset, in canonical form.
pub fn scale(significand: &str, scale: i32, offset: Option<i32>) -> String {
    let low = scale.min(offset.unwrap_or(scale)).min(0);
    // Everything in units of 10^low.
    let (neg, digits) = match significand.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, significand),
    };
    let mut a: Vec<i64> = digits.bytes().rev().map(|b| i64::from(b - b'0')).collect();
    let mut shifted = vec![0i64; (scale - low) as usize];
    shifted.append(&mut a);
    let mut sum: Vec<i64> = shifted.iter().map(|d| if neg { -d } else { *d }).collect();
    if let Some(o) = offset {
        let i = (o - low) as usize;
        while sum.len() <= i {
            sum.push(0);
        }
        sum[i] += 1;
    }
    // Normalise signed digits.
    let negative = sum.iter().rev().find(|d| **d != 0).is_some_and(|d| *d < 0);
    if negative {
        for d in sum.iter_mut() {
            *d = -*d;
        }
    }
    let mut carry = 0i64;
    let mut out: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < sum.len() || carry != 0 {
        let v = sum.get(i).copied().unwrap_or(0) + carry;
        carry = v.div_euclid(10);
        out.push(v.rem_euclid(10) as u8);
        i += 1;
    }
    while out.len() <= (-low) as usize {
        out.push(0);
    }
    let frac: String = out[..(-low) as usize].iter().rev().map(|d| char::from(b'0' + d)).collect();
    let int: String = out[(-low) as usize..].iter().rev().map(|d| char::from(b'0' + d)).collect();
    let int = int.trim_start_matches('0');
    let int = if int.is_empty() { "0" } else { int };
    let frac = frac.trim_end_matches('0');
    let s = if frac.is_empty() { int.to_string() } else { format!("{int}.{frac}") };
    if negative && s != "0" {
        format!("-{s}")
    } else {
        s
    }
}

/// Checks the spelling of a reported decimal and drops insignificant zeros.
pub fn canonical_decimal(s: &str) -> Result<String, String> {
    let (neg, body) = match s.strip_prefix('-') {
        Some(b) => (true, b),
        None => (false, s),
    };
    let (int, frac) = match body.split_once('.') {
        Some((i, f)) => (i, Some(f)),
        None => (body, None),
    };
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    if !digits(int) || (int.len() > 1 && int.starts_with('0')) || frac.is_some_and(|f| !digits(f)) {
        return Err(format!("{s:?} is not a plain decimal number"));
    }
    let frac = frac.unwrap_or("").trim_end_matches('0');
    let t = if frac.is_empty() { int.to_string() } else { format!("{int}.{frac}") };
    Ok(if neg && t != "0" { format!("-{t}") } else { t })
}

fn comp_json(c: &Comp, month: bool) -> Value {
    const MONTHS: [&str; 12] = [
        "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November",
        "December",
    ];
    match c {
        Comp::Every => Value::from("every"),
        Comp::Invalid => Value::from("invalid"),
        Comp::Single(n) if month => Value::from(MONTHS[usize::from(*n) - 1]),
        Comp::Single(n) => Value::from(*n),
    }
}

fn single(c: &Comp) -> Option<u16> {
    match c {
        Comp::Single(n) => Some(*n),
        _ => None,
    }
}

/// Expected `value` object of the canonical output for temporal values.
pub fn temporal_json(v: &Val) -> Option<(&'static str, Value)> {
    match v {
        Val::Date { day, month, year } => {
            let iso = (|| Some(format!("{:04}-{:02}-{:02}", single(year)?, single(month)?, single(day)?)))();
            let value = iso.map(Value::from).unwrap_or_else(|| {
                serde_json::json!({"day": comp_json(day, false), "month": comp_json(month, true), "year": comp_json(year, false)})
            });
            Some(("date", value))
        }
        Val::Time { hour, minute, second } => {
            let iso = (|| Some(format!("{:02}:{:02}:{:02}", single(hour)?, single(minute)?, single(second)?)))();
            let value = iso.map(Value::from).unwrap_or_else(|| {
                serde_json::json!({"hour": comp_json(hour, false), "minute": comp_json(minute, false), "second": comp_json(second, false)})
            });
            Some(("time", value))
        }
        Val::DateTime { day, month, year, hour, minute, second } => {
            let zero = Comp::Single(0);
            let iso = (|| {
                Some(format!(
                    "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
                    single(year)?,
                    single(month)?,
                    single(day)?,
                    single(hour)?,
                    single(minute)?,
                    single(second.as_ref().unwrap_or(&zero))?
                ))
            })();
            let value = iso.map(Value::from).unwrap_or_else(|| {
                let mut o = serde_json::json!({"day": comp_json(day, false), "month": comp_json(month, true), "year": comp_json(year, false),
                    "hour": comp_json(hour, false), "minute": comp_json(minute, false)});
                if let Some(s) = second {
                    o["second"] = comp_json(s, false);
                }
                o
            });
            Some(("datetime", value))
        }
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Aspect {
    Bytes,
    Dif,
    Value,
    Meaning,
}

pub const ALL: &[Aspect] = &[Aspect::Bytes, Aspect::Dif, Aspect::Value, Aspect::Meaning];

/// Compares one reported record with the model.
pub fn check_record(m: &Record, index: usize, r: &Value, aspects: &[Aspect]) -> Result<(), Fail> {
    let at = format!("record {index} [{}]", hex_sp(&m.bytes()));
    ensure_eq!(r["index"], Value::from(index), "{at}: index");
    if aspects.contains(&Aspect::Bytes) {
        ensure_eq!(r["header_hex"].as_str().unwrap_or("?"), hex_sp(&m.header), "{at}: header bytes");
        ensure_eq!(r["data_hex"].as_str().unwrap_or("?"), hex_sp(&m.data), "{at}: data bytes");
        ensure_eq!(r["data_coding"].as_str().unwrap_or("?"), m.coding, "{at}: data coding");
    }
    if aspects.contains(&Aspect::Dif) {
        ensure_eq!(r["function"].as_str().unwrap_or("?"), m.function, "{at}: function");
        if let Some(s) = m.storage {
            ensure_eq!(r["storage_number"], Value::from(s), "{at}: storage number");
        }
        ensure_eq!(r["tariff"], Value::from(m.tariff), "{at}: tariff");
        ensure_eq!(r["subunit"], Value::from(m.subunit), "{at}: subunit");
    }
    if aspects.contains(&Aspect::Value) {
        check_value(m, &r["value"], &at)?;
    }
    if aspects.contains(&Aspect::Meaning) {
        match &m.info {
            None => {
                ensure_eq!(r["quantities"], serde_json::json!([]), "{at}: quantities");
                ensure!(r["unit"].is_null(), "{at}: unexpected unit {}", r["unit"]);
            }
            Some(info) if !info.open => {
                ensure_eq!(r["quantities"], serde_json::json!(info.labels), "{at}: quantities");
                let unit = vif::unit_text(&info.units);
                ensure_eq!(r["unit"].as_str().map(str::to_string), unit, "{at}: unit");
            }
            Some(_) => {}
        }
    }
    Ok(())
}

pub fn check_value(m: &Record, v: &Value, at: &str) -> Result<(), Fail> {
    let kind = v["kind"].as_str().unwrap_or("?");
    match &m.value {
        Val::Open => {}
        Val::Decimal(d) => {
            ensure_eq!(kind, "decimal", "{at}: value kind");
            let s = v["value"].as_str().unwrap_or("?");
            let got = canonical_decimal(s).map_err(|e| Fail::new(format!("{at}: {e}")))?;
            if got != *d {
                fail!("{at}: value {s} is not the encoded number {d}");
            }
        }
        Val::Float(bits) => {
            ensure_eq!(kind, "float", "{at}: value kind");
            let f = f32::from_bits(*bits);
            let ok = if f.is_nan() {
                v["value"] == "nan"
            } else if f == f32::INFINITY {
                v["value"] == "positive_infinity"
            } else if f == f32::NEG_INFINITY {
                v["value"] == "negative_infinity"
            } else {
                v["value"].as_f64().is_some_and(|g| g.to_bits() == f64::from(f).to_bits())
            };
            ensure!(ok, "{at}: real {f:?} reported as {}", v["value"]);
        }
        Val::Text(t) => {
            ensure_eq!(kind, "text", "{at}: value kind");
            ensure_eq!(v["value"].as_str().unwrap_or("?"), t, "{at}: text");
        }
        Val::Manufacturer => {
            ensure_eq!(kind, "manufacturer_specific", "{at}: value kind");
            ensure!(v["value"].is_null(), "{at}: manufacturer data has a value {}", v["value"]);
        }
        Val::None => {
            ensure_eq!(kind, "none", "{at}: value kind");
            ensure!(v["value"].is_null(), "{at}: no data has a value {}", v["value"]);
        }
        t => {
            let (k, value) = temporal_json(t).expect("temporal");
            ensure_eq!(kind, k, "{at}: value kind");
            ensure_eq!(v["value"], value, "{at}: date or time");
        }
    }
    Ok(())
}

/// Compares a whole list of reported records with the model of the block.
/// Records up to an open position are compared; later ones are not.
pub fn check_records(p: &Parse, records: &[Value], aspects: &[Aspect]) -> Result<(), Fail> {
    match p.end {
        End::Complete | End::Bad(_) => {
            ensure_eq!(records.len(), p.records.len(), "number of records")
        }
        End::Open(_) => ensure!(
            records.len() >= p.records.len(),
            "number of records: got {}, expected at least {}",
            records.len(),
            p.records.len()
        ),
    }
    for (i, (m, r)) in p.records.iter().zip(records).enumerate() {
        check_record(m, i, r, aspects)?;
    }
    Ok(())
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn decimals() {
        assert_eq!(scale("123", -2, None), "1.23");
        assert_eq!(scale("-1", -3, Some(0)), "0.999");
        assert_eq!(scale("5", 2, None), "500");
        assert_eq!(scale("0", 2, None), "0");
        assert_eq!(scale("-10", -1, Some(0)), "0");
        assert_eq!(scale("-11", -1, Some(0)), "-0.1");
        assert_eq!(le_signed(&[0xFF]), "-1");
        assert_eq!(le_signed(&[0x00, 0x80]), "-32768");
        assert_eq!(le_signed(&[0, 0, 0, 0, 0, 0, 0, 0x80]), i64::MIN.to_string());
        assert_eq!(le_signed(&i64::MAX.to_le_bytes()), i64::MAX.to_string());
        assert_eq!(le_signed(&(-123456789012345678901234567890i128).to_le_bytes()), "-123456789012345678901234567890");
        assert_eq!(canonical_decimal("0.10").unwrap(), "0.1");
        assert!(canonical_decimal("00.1").is_err());
    }
}
