//! libmbus-compatible XML: C16.

use m_bus_parser::OutputFormat;

use crate::gen::{self, Frame, Hdr, Link};
use crate::model::{self, End, Record, Val};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::sut;
use crate::util::hex_sp;
use crate::expect;

// ------------------------------------------------------------------ parser

#[derive(Debug, Default)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<Elem>,
    pub text: String,
}

impl Elem {
    fn child(&self, name: &str) -> Option<&str> {
        self.children.iter().find(|c| c.name == name).map(|c| c.text.as_str())
    }
    fn names(&self) -> Vec<&str> {
        self.children.iter().map(|c| c.name.as_str()).collect()
    }
}

struct P<'a> {
    t: &'a str,
}

fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

impl P<'_> {
    fn eat(&mut self, p: &str) -> bool {
        match self.t.strip_prefix(p) {
            Some(r) => {
                self.t = r;
                true
            }
            None => false,
        }
    }
    fn need(&mut self, p: &str) -> CheckResult {
        ensure!(self.eat(p), "expected {p:?} at {:?}", self.t.chars().take(40).collect::<String>());
        Ok(())
    }
    fn space(&mut self) {
        self.t = self.t.trim_start_matches([' ', '\t', '\r', '\n']);
    }
    fn name(&mut self) -> Result<String, Fail> {
        let n = self.t.find(|c: char| !(c.is_ascii_alphanumeric() || "_-.".contains(c))).unwrap_or(self.t.len());
        let (a, b) = self.t.split_at(n);
        ensure!(a.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_'), "bad name {a:?}");
        self.t = b;
        Ok(a.to_string())
    }
    fn chars(&mut self, stop: &[char]) -> Result<String, Fail> {
        let n = self.t.find(stop).ok_or_else(|| Fail::new("document ends in character data"))?;
        let (raw, rest) = self.t.split_at(n);
        self.t = rest;
        ensure!(!raw.contains("]]>"), "]]> in character data");
        let mut out = String::new();
        let mut r = raw;
        while let Some(p) = r.find('&') {
            out.push_str(&r[..p]);
            let e = r[p..].find(';').map(|q| &r[p + 1..p + q]).ok_or_else(|| Fail::new(format!("bare & in {raw:?}")))?;
            match e {
                "amp" => out.push('&'),
                "lt" => out.push('<'),
                "gt" => out.push('>'),
                "quot" => out.push('"'),
                "apos" => out.push('\''),
                _ => {
                    let n = match e.strip_prefix("#x") {
                        Some(h) => u32::from_str_radix(h, 16).ok(),
                        None => e.strip_prefix('#').and_then(|d| d.parse().ok()),
                    };
                    let c = n.and_then(char::from_u32).filter(|c| xml_char(*c)).ok_or_else(|| Fail::new(format!("unknown entity &{e};")))?;
                    out.push(c);
                }
            }
            r = &r[p + e.len() + 2..];
        }
        out.push_str(r);
        Ok(out)
    }
    fn element(&mut self) -> Result<Elem, Fail> {
        self.need("<")?;
        let mut e = Elem { name: self.name()?, ..Default::default() };
        loop {
            let before = self.t.len();
            self.space();
            if self.eat("/>") {
                return Ok(e);
            }
            if self.eat(">") {
                break;
            }
            ensure!(self.t.len() < before, "attributes run together");
            let n = self.name()?;
            self.need("=\"")?;
            let v = self.chars(&['"', '<'])?;
            self.need("\"")?;
            ensure!(!e.attrs.iter().any(|(a, _)| *a == n), "attribute {n} twice");
            e.attrs.push((n, v));
        }
        loop {
            e.text.push_str(&self.chars(&['<'])?);
            if self.eat("</") {
                let n = self.name()?;
                ensure_eq!(n, e.name, "closing tag");
                self.space();
                self.need(">")?;
                return Ok(e);
            }
            e.children.push(self.element()?);
        }
    }
}

pub fn parse(t: &str) -> Result<Elem, Fail> {
    if let Some(c) = t.chars().find(|c| !xml_char(*c)) {
        fail!("character U+{:04X} is not allowed in XML", c as u32);
    }
    let mut p = P { t };
    if p.eat("<?xml") {
        let n = p.t.find("?>").ok_or_else(|| Fail::new("open declaration"))?;
        p.t = &p.t[n + 2..];
    }
    p.space();
    let e = p.element()?;
    p.space();
    ensure!(p.t.is_empty(), "text after the document: {:?}", p.t);
    Ok(e)
}

// ------------------------------------------------------------------ expectation

/// Factor to the unit of the XML vocabulary, and that unit, for codes with a
/// meaning shared by the standard and libmbus.
fn factor(vif: u8, vifes: &[u8]) -> Option<(f64, &'static str)> {
    let p = |e: i32| 10f64.powi(e);
    let times = [1.0, 60.0, 3600.0, 86400.0];
    let t = |c: u8| times[usize::from(c & 3)];
    let n7 = |c: u8| i32::from(c & 7);
    let n3 = |c: u8| i32::from(c & 3);
    let ext = vifes.first().map(|v| v & 0x7F);
    Some(match (vif, ext) {
        (0xFD, Some(c)) => match c {
            0x00..=0x07 => (p(n3(c) - 3), "Currency units"),
            0x08..=0x18 | 0x1A | 0x1B | 0x1E | 0x20..=0x22 | 0x3A | 0x60..=0x67 => (1.0, ""),
            0x1C => (1.0, "Baud"),
            0x1D => (1.0, "Bittimes"),
            0x24..=0x27 | 0x2C..=0x2F | 0x31..=0x37 => (t(c), "s"),
            // libmbus takes tropical years and their twelfths.
            0x28 | 0x38 | 0x6A | 0x6E => (2629743.83, "s"),
            0x29 | 0x39 | 0x6B | 0x6F => (31556926.0, "s"),
            0x68 | 0x6C => (3600.0, "s"),
            0x69 | 0x6D => (86400.0, "s"),
            0x40..=0x4F => (p(i32::from(c & 15) - 9), "V"),
            0x50..=0x5F => (p(i32::from(c & 15) - 12), "A"),
            _ => return None,
        },
        (0xFB, Some(c)) => match c {
            0x00 | 0x01 => (p(n3(c) + 5), "Wh"),
            0x10 | 0x11 => (p(n3(c) + 2), "m^3"),
            0x18 | 0x19 => (p(n3(c) + 5), "kg"),
            0x28 | 0x29 => (p(n3(c) + 5), "W"),
            0x21 => (0.1, "feet^3"),
            0x22 => (0.1, "American gallon"),
            0x23 => (1.0, "American gallon"),
            0x24 => (0.001, "American gallon/min"),
            0x25 => (1.0, "American gallon/min"),
            0x26 => (1.0, "American gallon/h"),
            0x58..=0x67 | 0x70..=0x73 => (p(n3(c) - 3), "°F"),
            0x74..=0x77 => (p(n3(c) - 3), "°C"),
            // libmbus gives code 79h the factor of code 78h.
            0x78 | 0x7A..=0x7F => (p(n7(c) - 3), "W"),
            _ => return None,
        },
        _ => {
            let c = vif & 0x7F;
            match c {
                0x00..=0x07 => (p(n7(c) - 3), "Wh"),
                0x08..=0x0F => (p(n7(c)), "J"),
                0x10..=0x17 => (p(n7(c) - 6), "m^3"),
                0x18..=0x1F => (p(n7(c) - 3), "kg"),
                0x20..=0x27 | 0x70..=0x77 => (t(c), "s"),
                0x28..=0x2F => (p(n7(c) - 3), "W"),
                0x30..=0x37 => (p(n7(c)), "J/h"),
                0x38..=0x3F => (p(n7(c) - 6), "m^3/h"),
                0x40..=0x47 => (p(n7(c) - 7), "m^3/min"),
                0x48..=0x4F => (p(n7(c) - 9), "m^3/s"),
                0x50..=0x57 => (p(n7(c) - 3), "kg/h"),
                0x58..=0x5F | 0x64..=0x67 => (p(n3(c) - 3), "°C"),
                0x60..=0x63 => (p(n3(c) - 3), "K"),
                0x68..=0x6B => (p(n3(c) - 3), "bar"),
                0x6C | 0x6D | 0x7C => (1.0, "-"),
                0x6E => (1.0, "Units for H.C.A."),
                0x78..=0x7A | 0x7E | 0x7F => (1.0, ""),
                _ => return None,
            }
        }
    })
}

/// Quantity names of the XML vocabulary.
fn quantity(vif: u8, vifes: &[u8]) -> Option<&'static str> {
    Some(match (vif, vifes.first().map(|v| v & 0x7F)) {
        (0xFD, Some(c)) => match c {
            0x00..=0x03 => "Credit",
            0x04..=0x07 => "Debit",
            0x08 => "Access Number (transmission count)",
            0x09 => "Medium",
            0x0A => "Manufacturer",
            0x0B => "Parameter set identification",
            0x0C => "Model / Version",
            0x0D => "Hardware version",
            0x0E => "Firmware version",
            0x0F => "Software version",
            0x10 => "Customer location",
            0x11 => "Customer",
            0x12 => "Access Code User",
            0x13 => "Access Code Operator",
            0x14 => "Access Code System Operator",
            0x15 => "Access Code Developer",
            0x16 => "Password",
            0x17 => "Error flags",
            0x18 => "Error mask",
            0x1A => "Digital Output",
            0x1B => "Digital Input",
            0x1C => "Baudrate",
            0x1D => "Response delay time",
            0x1E => "Retry",
            0x20 => "First storage # for cyclic storage",
            0x21 => "Last storage # for cyclic storage",
            0x22 => "Size of storage block",
            0x24..=0x29 => "Storage interval",
            0x2C..=0x2F => "Duration since last readout",
            0x31..=0x33 => "Duration of tariff",
            0x34..=0x39 => "Period of tariff",
            0x3A => "Dimensionless",
            0x40..=0x4F => "Voltage",
            0x50..=0x5F => "Current",
            0x60 => "Reset counter",
            0x61 => "Cumulation counter",
            0x62 => "Control signal",
            0x63 => "Day of week",
            0x64 => "Week number",
            0x65 => "Time point of day change",
            0x66 => "State of parameter activation",
            0x67 => "Special supplier information",
            0x68..=0x6B => "Duration since last cumulation",
            0x6C..=0x6F => "Operating time battery",
            0x70 => "Date and time of battery change",
            _ => return None,
        },
        (0xFB, Some(c)) => match c {
            0x00 | 0x01 => "Energy",
            0x10 | 0x11 | 0x21..=0x23 => "Volume",
            0x18 | 0x19 => "Mass",
            0x24..=0x26 => "Volume flow",
            0x28 | 0x29 | 0x30 | 0x31 => "Power",
            0x58..=0x5B => "Flow temperature",
            0x5C..=0x5F => "Return temperature",
            0x60..=0x63 => "Temperature difference",
            0x64..=0x67 => "External temperature",
            0x70..=0x77 => "Cold / Warm Temperature Limit",
            0x78..=0x7F => "Cumul count max power",
            _ => return None,
        },
        (0xFD | 0xFB, None) | (0x7C | 0xFC, _) => return None,
        _ => match vif & 0x7F {
            0x00..=0x0F => "Energy",
            0x10..=0x17 => "Volume",
            0x18..=0x1F => "Mass",
            0x20..=0x23 => "On time",
            0x24..=0x27 => "Operating time",
            0x28..=0x37 => "Power",
            0x38..=0x4F => "Volume flow",
            0x50..=0x57 => "Mass flow",
            0x58..=0x5B => "Flow temperature",
            0x5C..=0x5F => "Return temperature",
            0x60..=0x63 => "Temperature difference",
            0x64..=0x67 => "External temperature",
            0x68..=0x6B => "Pressure",
            0x6C => "Time point (date)",
            0x6D => "Time point (date & time)",
            0x6E => "H.C.A.",
            0x70..=0x73 => "Averaging Duration",
            0x74..=0x77 => "Actuality Duration",
            0x78 => "Fabrication No",
            0x79 => "(Enhanced) Identification",
            0x7A => "Bus Address",
            0x7E => "Any VIF",
            0x7F => "Manufacturer specific",
            _ => return None,
        },
    })
}

fn printable(t: &str) -> String {
    t.chars().map(|c| if c.is_ascii_control() || matches!(c, '\u{FFFE}' | '\u{FFFF}') { ' ' } else { c }).collect()
}

/// Codes without an entry in the XML vocabulary give an empty element.
fn unlisted(m: &Record) -> bool {
    match m.vif {
        None => m.dif == 0x7F,
        Some(v) => m.dif & 0x0F == 8 || (v & 0x7F == 0x7B && v != 0xFB) || v & 0x7F == 0x7D && v != 0xFD,
    }
}

fn check_record(m: &Record, e: &Elem, index: usize) -> CheckResult {
    let at = format!("record {index} [{}]", hex_sp(&m.bytes()));
    ensure_eq!(e.attrs, vec![("id".to_string(), index.to_string())], "{at}: attributes");
    if unlisted(m) {
        ensure!(e.children.is_empty(), "{at}: unexpected content {:?}", e.names());
        return Ok(());
    }
    let mut names = vec!["Function", "StorageNumber"];
    if !m.difes.is_empty() {
        names.extend(["Tariff", "Device"]);
    }
    names.extend(["Unit", "Quantity", "Value"]);
    ensure_eq!(e.names(), names, "{at}: fields");
    ensure_eq!(e.child("Function"), Some(m.function.as_str()), "{at}: function");
    if let Some(s) = m.storage {
        ensure_eq!(e.child("StorageNumber"), Some(s.to_string().as_str()), "{at}: storage number");
    }
    if !m.difes.is_empty() {
        ensure_eq!(e.child("Tariff"), Some(m.tariff.to_string().as_str()), "{at}: tariff");
        ensure_eq!(e.child("Device"), Some(m.subunit.to_string().as_str()), "{at}: device");
    }
    let value = e.child("Value").unwrap();
    if m.special() {
        ensure_eq!(value, hex_sp(&m.data), "{at}: manufacturer data");
        return Ok(());
    }
    let vif = m.vif.unwrap();
    if let Some(p) = &m.plain {
        let t: String = p.iter().rev().map(|b| char::from(*b)).collect();
        ensure_eq!(e.child("Quantity"), Some(printable(&t).as_str()), "{at}: plain text unit");
    }
    if let Some(q) = quantity(vif, &m.vifes) {
        ensure_eq!(e.child("Quantity"), Some(q), "{at}: quantity");
    }
    let f = factor(vif, &m.vifes);
    if let Some((_, unit)) = f {
        ensure_eq!(e.child("Unit"), Some(unit), "{at}: unit");
    }
    let d = &m.data;
    let clock = vif & 0x7F == 0x6D || (vif == 0xFD && m.vifes.first().is_some_and(|v| matches!(v & 0x7F, 0x30 | 0x70)));
    let date = |lo: u8, hi: u8| format!("{:04}-{:02}-{:02}", 2000 + u16::from(lo >> 5 | hi >> 4 << 3), hi & 15, lo & 31);
    let text = match m.dif & 0x0F {
        0 => Some(String::new()),
        2 if vif & 0x7F == 0x6C => Some(date(d[0], d[1])),
        4 if clock && d[0] & 0x80 != 0 => Some("1900-01-00T00:00:00Z".into()),
        4 if clock => Some(format!("{}T{:02}:{:02}:00Z", date(d[2], d[3]), d[1] & 31, d[0] & 63)),
        6 if clock && d[1] & 0x80 != 0 => Some("1900-01-00T00:00:00Z".into()),
        6 if clock => Some(format!("{}T{:02}:{:02}:{:02}Z", date(d[3], d[4]), d[2] & 31, d[1] & 63, d[0] & 63)),
        13 if d[0] <= 0xBF => match &m.value {
            Val::Text(t) => Some(printable(t)),
            _ => None,
        },
        13 => Some(hex_sp(&d[1..])),
        _ => None,
    };
    if let Some(t) = text {
        ensure_eq!(value, t, "{at}: value");
        return Ok(());
    }
    let raw: f64 = match (&m.value, &m.significand) {
        (Val::Float(b), _) => f64::from(f32::from_bits(*b)),
        (_, Some(n)) => n.parse().unwrap(),
        // Clock values libmbus reads as numbers.
        (Val::Time { .. }, _) => model::le_signed(d).parse().unwrap(),
        _ => return Ok(()),
    };
    let got: f64 = value.parse().map_err(|_| Fail::new(format!("{at}: value {value:?} is not a number")))?;
    // Corrections beyond the first extension are left out by libmbus.
    let corrections = if vif == 0xFD || vif == 0xFB { m.vifes.get(1..).unwrap_or(&[]) } else { &m.vifes };
    let (first, rest) = corrections.split_first().map(|(a, b)| (Some(a & 0x7F), b)).unwrap_or((None, &[]));
    let mut want = match f {
        Some((k, _)) => raw * k,
        // A number without a known unit stays as it is.
        None if vif & 0x7F != 0x6F && e.child("Unit") == Some("Reserved") && e.child("Quantity") == Some("Reserved") => raw,
        None => return Ok(()),
    };
    if rest.iter().any(|v| v & 0x7F >= 0x70) {
        return Ok(());
    }
    match first {
        Some(0x70..=0x7F) if vif == 0xFD || vif == 0xFB => return Ok(()),
        Some(c @ 0x70..=0x77) => want *= 10f64.powi(i32::from(c & 7) - 6),
        Some(0x7D) => want *= 1000.0,
        Some(0x78..=0x7F) => return Ok(()),
        _ => {}
    }
    let near = (got - want).abs() <= 1e-6 + 1e-9 * want.abs() || got == want || (got.is_nan() && want.is_nan());
    ensure!(near, "{at}: value {value} instead of {want}");
    Ok(())
}

fn medium(d: u8) -> String {
    const NAMES: [&str; 29] = [
        "Other", "Oil", "Electricity", "Gas", "Heat: Outlet", "Steam", "Warm water (30-90°C)", "Water", "Heat Cost Allocator", "Compressed Air",
        "Cooling load meter: Outlet", "Cooling load meter: Inlet", "Heat: Inlet", "Heat / Cooling load meter", "Bus/System", "Unknown Medium",
        "Irrigation Water", "Water Logger", "Gas Logger", "Gas Converter", "Calorific value", "Hot water (>90°C)", "Cold water", "Dual water",
        "Pressure", "A/D Converter", "Smoke Detector", "Ambient Sensor", "Gas Detector",
    ];
    match d {
        0..=0x1C => NAMES[usize::from(d)].into(),
        0x20 => "Breaker: Electricity".into(),
        0x21 => "Valve: Gas or Water".into(),
        0x25 => "Customer Unit: Display Device".into(),
        0x28 => "Waste Water".into(),
        0x29 => "Garbage".into(),
        0x30 => "Service Unit".into(),
        0x36 => "Radio Converter: System".into(),
        0x37 => "Radio Converter: Meter".into(),
        0x1D..=0x1F | 0x35 | 0x40..=0xFF => format!("Unknown medium (0x{d:02x})"),
        _ => "Reserved".into(),
    }
}

/// Products libmbus knows: manufacturer, what is looked at (version, version and
/// medium, leading digits of the id), first and last code, medium, name.
const PRODUCTS: &[(&str, char, u8, u8, u8, &str)] = &[
    ("ABB", 'v', 0x02, 0x02, 0, "ABB Delta-Meter"),
    ("ABB", 'v', 0x20, 0x20, 0, "ABB B21 113-100"),
    ("ACW", 'v', 0x09, 0x09, 0, "Itron CF Echo 2"),
    ("ACW", 'v', 0x0A, 0x0A, 0, "Itron CF 51"),
    ("ACW", 'v', 0x0B, 0x0B, 0, "Itron CF 55"),
    ("ACW", 'v', 0x0E, 0x0E, 0, "Itron BM +m"),
    ("ACW", 'v', 0x0F, 0x0F, 0, "Itron CF 800"),
    ("ACW", 'v', 0x14, 0x14, 0, "Itron CYBLE M-Bus 1.4"),
    ("AMT", 'v', 0xC0, 0xFF, 0, "Aquametro CALEC ST"),
    ("AMT", 'v', 0x80, 0xBF, 0, "Aquametro CALEC MB"),
    ("AMT", 'v', 0x40, 0x7F, 0, "Aquametro SAPHIR"),
    ("AMT", 'v', 0x00, 0x3F, 0, "Aquametro AMTRON"),
    ("BEC", 'm', 0x00, 0x00, 0x02, "Berg DCMi"),
    ("BEC", 'm', 0x07, 0x07, 0x02, "Berg BLMi"),
    ("BEC", 'm', 0x71, 0x71, 0x0F, "Berg BMB-10S0"),
    ("EFE", 'm', 0x00, 0x00, 0x06, "Engelmann WaterStar"),
    ("EFE", 'v', 0x00, 0x00, 0, "Engelmann / Elster SensoStar 2"),
    ("EFE", 'v', 0x01, 0x01, 0, "Engelmann SensoStar 2C"),
    ("ELS", 'v', 0x02, 0x02, 0, "Elster TMP-A"),
    ("ELS", 'v', 0x0A, 0x0A, 0, "Elster Falcon"),
    ("ELS", 'v', 0x2F, 0x2F, 0, "Elster F96 Plus"),
    ("ELV", 'v', 0x14, 0x1D, 0, "Elvaco CMa10"),
    ("ELV", 'v', 0x32, 0x3B, 0, "Elvaco CMa11"),
    ("EMH", 'v', 0x00, 0x00, 0, "EMH DIZ"),
    ("EMU", 'm', 0x10, 0x10, 0x02, "EMU Professional 3/75 M-Bus"),
    ("GAV", 'm', 0x2D, 0x30, 0x02, "Carlo Gavazzi EM24"),
    ("GAV", 'm', 0x39, 0x3A, 0x02, "Carlo Gavazzi EM21"),
    ("GAV", 'm', 0x40, 0x40, 0x02, "Carlo Gavazzi EM33"),
    ("GMC", 'v', 0xE6, 0xE6, 0, "GMC-I A230 EMMOD 206"),
    ("KAM", 'v', 0x01, 0x01, 0, "Kamstrup 382 (6850-005)"),
    ("KAM", 'v', 0x08, 0x08, 0, "Kamstrup Multical 601"),
    ("SLB", 'v', 0x02, 0x02, 0, "Allmess Megacontrol CF-50"),
    ("SLB", 'v', 0x06, 0x06, 0, "CF Compact / Integral MK MaXX"),
    ("HYD", 'v', 0x28, 0x28, 0, "ABB F95 Typ US770"),
    ("HYD", 'v', 0x2F, 0x2F, 0, "Hydrometer Sharky 775"),
    ("JAN", 'm', 0x09, 0x09, 0x02, "Janitza UMG 96S"),
    ("LUG", 'v', 0x02, 0x02, 0, "Landis & Gyr Ultraheat 2WR5"),
    ("LUG", 'v', 0x03, 0x03, 0, "Landis & Gyr Ultraheat 2WR6"),
    ("LUG", 'v', 0x04, 0x04, 0, "Landis & Gyr Ultraheat UH50"),
    ("LUG", 'v', 0x07, 0x07, 0, "Landis & Gyr Ultraheat T230"),
    ("LSE", 'v', 0x99, 0x99, 0, "Siemens WFH21"),
    ("NZR", 'v', 0x01, 0x01, 0, "NZR DHZ 5/63"),
    ("NZR", 'v', 0x50, 0x50, 0, "NZR IC-M2"),
    ("RAM", 'v', 0x03, 0x03, 0, "Rossweiner ETK/ETW Modularis"),
    ("REL", 'v', 0x08, 0x08, 0, "Relay PadPuls M1"),
    ("REL", 'v', 0x12, 0x12, 0, "Relay PadPuls M4"),
    ("REL", 'v', 0x20, 0x20, 0, "Relay Padin 4"),
    ("REL", 'v', 0x30, 0x30, 0, "Relay AnDi 4"),
    ("REL", 'v', 0x40, 0x40, 0, "Relay PadPuls M2"),
    ("RKE", 'v', 0x69, 0x69, 0, "Ista sensonic II mbus"),
    ("SBC", 'i', 0x10, 0x10, 0, "Saia-Burgess ALE3"),
    ("SBC", 'i', 0x19, 0x19, 0, "Saia-Burgess ALE3"),
    ("SBC", 'i', 0x11, 0x11, 0, "Saia-Burgess AWD3"),
    ("SEO", 'i', 0x30, 0x30, 0, "Sensoco PT100"),
    ("SEO", 'i', 0x41, 0x41, 0, "Sensoco 2-NTC"),
    ("SEO", 'i', 0x45, 0x45, 0, "Sensoco Laser Light"),
    ("SEO", 'i', 0x48, 0x48, 0, "Sensoco ADIO"),
    ("SEO", 'i', 0x51, 0x51, 0, "Sensoco THU"),
    ("SEO", 'i', 0x61, 0x61, 0, "Sensoco THU"),
    ("SEO", 'i', 0x80, 0x80, 0, "Sensoco PulseCounter for E-Meter"),
    ("SEN", 'v', 0x08, 0x08, 0, "Sensus PolluCom E"),
    ("SEN", 'v', 0x19, 0x19, 0, "Sensus PolluCom E"),
    ("SEN", 'v', 0x0B, 0x0B, 0, "Sensus PolluTherm"),
    ("SEN", 'v', 0x0E, 0x0E, 0, "Sensus PolluStat E"),
    ("SON", 'v', 0x0D, 0x0D, 0, "Sontex Supercal 531"),
    ("SPX", 'v', 0x31, 0x31, 0, "Sensus PolluTherm"),
    ("SPX", 'v', 0x34, 0x34, 0, "Sensus PolluTherm"),
    ("SVM", 'v', 0x08, 0x08, 0, "Elster F2 / Deltamess F2"),
    ("SVM", 'v', 0x09, 0x09, 0, "Elster F4 / Kamstrup SVM F22"),
    ("TCH", 'v', 0x26, 0x26, 0, "Techem m-bus S"),
    ("TCH", 'v', 0x40, 0x40, 0, "Techem ultra S3"),
    ("WZG", 'v', 0x03, 0x03, 0, "Modularis ETW-EAX"),
    ("ZRM", 'v', 0x81, 0x81, 0, "Minol Minocal C2"),
    ("ZRM", 'v', 0x82, 0x82, 0, "Minol Minocal WR3"),
];

fn product(i: &gen::Ident) -> &'static str {
    let man = i.letters().unwrap_or_default();
    let man = if man == "GTE" { "SEO" } else { man.as_str() };
    PRODUCTS
        .iter()
        .find(|(m, by, a, b, medium, _)| {
            let code = if *by == 'i' { i.id[3] } else { i.version };
            *m == man && (*a..=*b).contains(&code) && (*by != 'm' || *medium == i.device)
        })
        .map_or("", |p| p.5)
}

fn check_identity(i: &gen::Ident, info: &Elem) -> CheckResult {
    let n = i.digits().parse::<u32>().unwrap().to_string();
    ensure_eq!(info.child("Id"), Some(n.as_str()), "id");
    ensure_eq!(info.child("Manufacturer"), i.letters().as_deref(), "manufacturer");
    ensure_eq!(info.child("Version"), Some(i.version.to_string().as_str()), "version");
    ensure_eq!(info.child("Medium"), Some(medium(i.device).as_str()), "medium");
    ensure_eq!(info.child("ProductName").unwrap_or(""), product(i), "product name");
    Ok(())
}

fn check_short(h: Option<&gen::ShortH>, access: Option<u8>, info: &Elem) -> CheckResult {
    let text = |x: Option<String>| x;
    ensure_eq!(info.child("AccessNumber").map(str::to_string), text(access.map(|a| a.to_string())), "access number");
    ensure_eq!(info.child("Status").map(str::to_string), h.map(|h| format!("{:02X}", h.status)), "status");
    ensure_eq!(info.child("Signature").map(str::to_string), h.map(|h| format!("{:02X}{:02X}", h.conf[1], h.conf[0])), "signature");
    Ok(())
}

fn fixed_unit(b: u8) -> Option<String> {
    let c = b & 0x3F;
    let family = |base: u8, units: &[&str]| {
        let n = usize::from(c - base);
        let m = ["", "10 ", "100 "][n % 3];
        Some(format!("{m}{}", units[n / 3]))
    };
    match c {
        0x00 => Some("h,m,s".into()),
        0x01 => Some("D,M,Y".into()),
        0x02..=0x0A => family(0x02, &["Wh", "kWh", "MWh"]),
        0x0B => Some("kJ".into()),
        0x0C => Some("10 kJ".into()),
        0x0F..=0x13 => Some(["10 MJ", "100 MJ", "GJ", "10 GJ", "100 GJ"][usize::from(c - 0x0F)].into()),
        0x14..=0x1C => family(0x14, &["W", "kW", "MW"]),
        0x1D..=0x25 => family(0x1D, &["kJ/h", "MJ/h", "GJ/h"]),
        0x26..=0x2E => family(0x26, &["ml", "l", "m^3"]),
        0x2F..=0x37 => family(0x2F, &["ml/h", "l/h", "m^3/h"]),
        0x38 => Some("1e-3 °C".into()),
        0x39 => Some("units for HCA".into()),
        0x3F => Some("without units".into()),
        _ => None,
    }
}

fn check_fixed(id: &[u8; 4], access: u8, status: u8, kind: &[u8; 2], counters: &[[u8; 4]; 2], e: &Elem) -> CheckResult {
    let info = &e.children[0];
    let n = model::bcd(id).unwrap();
    ensure_eq!(info.child("Id"), Some(n.as_str()), "id");
    ensure_eq!(info.child("AccessNumber"), Some(access.to_string().as_str()), "access number");
    ensure_eq!(info.child("Status"), Some(format!("{status:02X}").as_str()), "status");
    let m = [
        "Other", "Oil", "Electricity", "Gas", "Heat", "Steam", "Hot Water", "Water", "H.C.A.", "", "Gas Mode 2", "Heat Mode 2", "Hot Water Mode 2",
        "Water Mode 2", "H.C.A. Mode 2", "",
    ][usize::from(kind[0] >> 6 | (kind[1] >> 6) << 2)];
    if !m.is_empty() {
        ensure_eq!(info.child("Medium"), Some(m), "medium");
    }
    let records = &e.children[1..];
    ensure_eq!(records.len(), 2, "number of counters");
    for (n, r) in records.iter().enumerate() {
        ensure_eq!(r.attrs, vec![("id".to_string(), n.to_string())], "counter {n}");
        ensure_eq!(r.child("Function"), Some(if status & 0x40 != 0 { "Stored value" } else { "Actual value" }), "counter {n}: function");
        if let Some(u) = fixed_unit(kind[n]) {
            ensure_eq!(r.child("Unit"), Some(u.as_str()), "counter {n}: unit");
        }
        ensure_eq!(r.child("Value"), model::bcd(&counters[n]).as_deref(), "counter {n}: value");
    }
    Ok(())
}

fn check_document(f: &Frame, clear: Option<&[u8]>, xml: &str) -> CheckResult {
    ensure!(xml.starts_with("<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n"), "no XML declaration");
    let e = parse(xml)?;
    ensure_eq!(e.name, "MBusData", "document element");
    ensure!(e.text.trim().is_empty(), "stray text {:?}", e.text);
    ensure!(e.children.first().is_some_and(|c| c.name == "SlaveInformation"), "no SlaveInformation");
    ensure!(e.children[1..].iter().all(|c| c.name == "DataRecord"), "unknown element in {:?}", e.names());
    for c in &e.children {
        ensure!(c.text.trim().is_empty() && c.children.iter().all(|g| g.children.is_empty() && g.attrs.is_empty()), "stray content");
    }
    let info = &e.children[0];
    let link_ident = match &f.link {
        Link::Wireless { ident, .. } => Some(ident),
        _ => None,
    };
    match &f.hdr {
        Hdr::Long(i, h) => {
            check_identity(i, info)?;
            check_short(Some(h), Some(h.access), info)?;
        }
        Hdr::Short(_, h) | Hdr::Config(_, h) | Hdr::Ell1(_, _, Some(h)) => {
            check_identity(link_ident.unwrap(), info)?;
            check_short(Some(h), Some(h.access), info)?;
        }
        Hdr::None => {
            check_identity(link_ident.unwrap(), info)?;
            check_short(None, None, info)?;
        }
        Hdr::Ell1(_, acc, None) | Hdr::Ell2(_, acc, ..) | Hdr::Ell3(_, acc, ..) => {
            check_identity(link_ident.unwrap(), info)?;
            check_short(None, Some(*acc), info)?;
        }
        Hdr::Fixed { id, access, status, kind, counters } => return check_fixed(id, *access, *status, kind, counters, &e),
        Hdr::Reset(_) => {
            check_identity(link_ident.unwrap(), info)?;
            check_short(None, None, info)?;
        }
    }
    let encrypted = expect::declares_encryption(&f.hdr);
    let records = &e.children[1..];
    if encrypted && clear.is_none() {
        // Wired long frames are shown whatever their declaration says.
        if !f.link.is_wired() {
            ensure!(records.is_empty(), "records of an encrypted payload");
        }
        return Ok(());
    }
    if !f.hdr.carries_records() {
        ensure!(records.is_empty(), "records without a data block");
        return Ok(());
    }
    let p = model::parse(clear.unwrap_or(&f.block));
    match p.end {
        End::Open(_) => ensure!(records.len() >= p.records.len(), "{} records instead of at least {}", records.len(), p.records.len()),
        _ => ensure_eq!(records.len(), p.records.len(), "number of records"),
    }
    for (n, (m, r)) in p.records.iter().zip(records).enumerate() {
        check_record(m, r, n)?;
    }
    Ok(())
}

/// Whether the format covers the frame.
fn covered(f: &Frame) -> bool {
    !f.link.is_wired() || matches!(f.hdr, Hdr::Long(..) | Hdr::Fixed { .. })
}

fn check_frame(f: &Frame, key: Option<[u8; 16]>, clear: Option<&[u8]>, ctx: &mut Ctx) -> CheckResult {
    let bytes = f.bytes();
    let at = hex_sp(&bytes);
    let out = sut::render(&bytes, OutputFormat::Xml, key, None);
    if !covered(f) {
        ctx.class("not covered");
        ensure_eq!(out.map(|_| ()).map_err(|e| e.code()), Err("xml.unsupported"), "[{at}]");
        return Ok(());
    }
    let xml = out.map_err(|e| Fail::new(format!("[{at}] refused: {e}")))?;
    check_document(f, clear, &xml).map_err(|e| Fail::new(format!("[{at}]: {e}\n{xml}")))?;
    // One element per decoded record.
    if clear.is_none() && !expect::declares_encryption(&f.hdr) && f.hdr.carries_records() {
        let v = sut::decode(&bytes, key).map_err(|e| Fail::new(format!("[{at}] not decoded: {e}")))?;
        ensure_eq!(xml.matches("<DataRecord ").count(), sut::records(&v).len(), "[{at}]: number of records");
    }
    ctx.class(f.hdr.name());
    ctx.nontrivial(&bytes);
    Ok(())
}

fn c16_frame(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let opts = if s.chance(1, 2) { gen::TEXTY } else { gen::FULL };
    let damage = s.chance(1, 6).then(|| (s.raw() as usize, s.byte()));
    let mut f = gen::any_frame(s, &opts, 6);
    if s.chance(1, 2) {
        // More of what the format covers on wires.
        if f.link.is_wired() && !covered(&f) {
            f.hdr = Hdr::Long(gen::ident(s), gen::short(s));
            let room = f.link.room() - f.hdr.bytes().len();
            f.block.truncate(room);
        }
    }
    if let (Some((i, b)), false) = (damage, f.block.is_empty()) {
        let i = i % f.block.len();
        f.block[i] = b;
    }
    ctx.sample(|| hex_sp(&f.bytes()));
    if f.ambiguous() {
        ctx.class("ambiguous CRC");
        return Ok(());
    }
    check_frame(&f, None, None, ctx)
}

fn c16_decrypted(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let mut link = gen::link(s);
    let ident = gen::ident(s);
    let mut sh = gen::short(s);
    let mode = *s.pick(&[5u8, 7]);
    let long = s.chance(1, 2);
    if !long && link.is_wired() {
        link = Link::Wireless { c: 0x44, ident: ident.clone(), layout: *s.pick(&gen::LAYOUTS) };
    }
    let mut clear = gen::block(s, &gen::FULL, 5, 208);
    clear.resize(clear.len().div_ceil(16).max(1) * 16, 0x2F);
    sh.conf = [((clear.len() / 16).min(15) as u8) << 4, mode];
    let k: [u8; 16] = s.bytes(16).try_into().unwrap();
    let iv_ident = match &link {
        Link::Wireless { ident, .. } if !long => ident.clone(),
        _ => ident.clone(),
    };
    let block = gen::encrypt(mode, &k, &iv_ident, sh.access, &clear);
    let hdr = if long { Hdr::Long(ident, sh) } else { Hdr::Short(0x7A, sh) };
    let f = Frame { link, hdr, block };
    ctx.sample(|| hex_sp(&f.bytes()));
    if f.ambiguous() {
        return Ok(());
    }
    check_frame(&f, Some(k), Some(&clear), ctx)
}

/// Byte strings and frames outside the format never give a document.
fn c16_refused(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let kind = s.below(4);
    let place = s.raw() as usize;
    let mut b = match kind {
        0 => {
            let (c, a) = (*s.pick(&[0x40u8, 0x5A, 0x5B, 0x7A, 0x7B]), s.byte());
            if s.chance(1, 8) { vec![0xE5] } else { vec![0x10, c, a, c.wrapping_add(a), 0x16] }
        }
        1 => {
            let n = s.below(40);
            s.bytes(n)
        }
        2 => {
            // Wired frame with any other control information.
            let ci = loop {
                let c = s.byte();
                if !matches!(c, 0x72 | 0x76 | 0x73 | 0x77) {
                    break c;
                }
            };
            let n = s.below(40);
            let mut app = vec![ci];
            app.extend(s.bytes(n));
            Link::Wired { c: *s.pick(&[8u8, 0x53, 0x73, 0x40]), a: s.byte() }.frame(&app)
        }
        _ => gen::clear_frame(s, &gen::FULL, 4).bytes(),
    };
    if kind == 3 {
        b.truncate(place % b.len());
    }
    ctx.sample(|| hex_sp(&b));
    let out = sut::render(&b, OutputFormat::Xml, None, None);
    let v = sut::decode(&b, None);
    match (&v, kind) {
        // A random string or a shortened frame may be a wireless frame.
        (Ok(_), 1 | 3) => {
            if let Ok(x) = out {
                parse(&x).map_err(|e| Fail::new(format!("[{}]: {e}\n{x}", hex_sp(&b))))?;
            }
        }
        _ => {
            ctx.nontrivial(&b);
            ctx.class(["short frame", "random bytes", "other control information", "cut frame"][kind]);
            ensure_eq!(out.map_err(|e| e.code()), Err("xml.unsupported"), "[{}]", hex_sp(&b));
        }
    }
    Ok(())
}

/// Every medium, every version under every manufacturer of the product table, every
/// pair of leading id digits.
fn c16_identities(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    let mut mans: Vec<&str> = PRODUCTS.iter().map(|p| p.0).collect();
    mans.dedup();
    mans.extend(["GTE", "XYZ", "AAA"]);
    for (n, man) in mans.iter().enumerate() {
        if n % shards != shard {
            continue;
        }
        let mut idents = vec![];
        for x in 0..=255u8 {
            for device in [0x02, 0x06, 0x0F, 0x07] {
                idents.push(gen::Ident { id: [0x78, 0x56, 0x34, 0x12], man: gen::man_code(man), version: x, device });
            }
            idents.push(gen::Ident { id: [0x78, 0x56, 0x34, 0x12], man: gen::man_code(man), version: 1, device: x });
            if x & 0x0F < 10 && x >> 4 < 10 {
                idents.push(gen::Ident { id: [0x99, 0x99, 0x99, x], man: gen::man_code(man), version: 0, device: 7 });
            }
        }
        for i in idents {
            let h = gen::ShortH { access: 1, status: 0, conf: [0, 0] };
            for (link, hdr) in [
                (Link::Wired { c: 8, a: 1 }, Hdr::Long(i.clone(), h.clone())),
                (Link::Wireless { c: 0x44, ident: i.clone(), layout: gen::Layout::Plain }, Hdr::Short(0x7A, h.clone())),
            ] {
                let f = Frame { link, hdr, block: vec![0x01, 0x13, 0x05] };
                if f.ambiguous() {
                    continue;
                }
                ctx.evaluations += 1;
                ctx.nontrivial(&f.bytes());
                let xml = match sut::render(&f.bytes(), OutputFormat::Xml, None, None) {
                    Ok(x) => x,
                    Err(e) => fail!("[{}] gives no document: {e}", hex_sp(&f.bytes())),
                };
                check_document(&f, None, &xml).map_err(|e| Fail::new(format!("[{}]: {}", hex_sp(&f.bytes()), e.message)))?;
            }
        }
    }
    Ok(())
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "Frames of every kind with awkward texts, damaged blocks and decrypted payloads, rendered as XML, parsed with a strict parser and compared with the record model; and frames and byte strings the format does not cover. Non-trivial: a document was compared, or a refusal was due.",
        both_builds: false,
        assumptions: &[
            "ASCII control characters and U+FFFE/U+FFFF are shown as spaces",
            "values with corrections beyond the first extension, additive corrections and codes whose unit libmbus does not define are only checked for presence",
            "quantities are compared for plain text units and for codes the standard and libmbus both define",
            "media and product names are those of the libmbus tables",
        ],
        parts: vec![
            Part { name: "frames", kind: Kind::Random { quick: 720_000, thorough: 8_640_000, tape: (16, 260), f: c16_frame } },
            Part { name: "identities", kind: Kind::Exhaustive { f: c16_identities } },
            Part { name: "decrypted", kind: Kind::Random { quick: 120_000, thorough: 1_440_000, tape: (40, 260), f: c16_decrypted } },
            Part { name: "refused", kind: Kind::Random { quick: 240_000, thorough: 2_880_000, tape: (8, 60), f: c16_refused } },
        ],
    }
}
