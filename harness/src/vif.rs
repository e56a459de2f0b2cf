//! Reference tables of EN 13757-3 value information, written as quantity names,
//! units and decimal scales. Independent of the implementation's code.

#[derive(Clone, Debug, PartialEq)]
pub struct Unit {
    pub name: &'static str,
    pub exp: i32,
}

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub labels: Vec<&'static str>,
    pub units: Vec<Unit>,
    pub scale: i32,
    /// Power of ten added to the value (additive correction).
    pub offset: Option<i32>,
    /// Parts of the answer that are left open by the standard or the library.
    pub open: bool,
}

#[derive(Clone, Debug)]
pub enum Vib {
    Known(Info),
    /// The record must be refused.
    Invalid,
}

fn u(name: &'static str, exp: i32) -> Unit {
    Unit { name, exp }
}

fn time_unit(n: u8) -> Unit {
    u(["s", "min", "h", "d"][(n & 3) as usize], 1)
}
fn long_time_unit(n: u8) -> Unit {
    u(["h", "d", "mo", "a"][(n & 3) as usize], 1)
}

fn known(labels: &[&'static str], units: &[Unit], scale: i32) -> Info {
    Info { labels: labels.to_vec(), units: units.to_vec(), scale, offset: None, open: false }
}

/// Primary table; `None` for codes that must be refused.
pub fn primary(code: u8) -> Option<Info> {
    let n3 = i32::from(code & 7);
    let n2 = i32::from(code & 3);
    Some(match code & 0x7F {
        0x00..=0x07 => known(&["Energy"], &[u("W", 1), u("h", 1)], n3 - 3),
        0x08..=0x0F => known(&["Energy"], &[u("J", 1)], n3),
        0x10..=0x17 => known(&["Volume"], &[u("m", 3)], n3 - 6),
        0x18..=0x1F => known(&["Mass"], &[u("kg", 1)], n3 - 3),
        0x20..=0x23 => known(&["On time"], &[time_unit(code)], 0),
        0x24..=0x27 => known(&["Operating time"], &[time_unit(code)], 0),
        0x28..=0x2F => known(&["Power"], &[u("W", 1)], n3 - 3),
        0x30..=0x37 => known(&["Power"], &[u("J", 1), u("h", -1)], n3),
        0x38..=0x3F => known(&["Volume flow"], &[u("m", 3), u("h", -1)], n3 - 6),
        0x40..=0x47 => known(&["Volume flow"], &[u("m", 3), u("min", -1)], n3 - 7),
        0x48..=0x4F => known(&["Volume flow"], &[u("m", 3), u("s", -1)], n3 - 9),
        0x50..=0x57 => known(&["Mass flow"], &[u("kg", 1), u("h", -1)], n3 - 3),
        0x58..=0x5B => known(&["Flow temperature"], &[u("Cel", 1)], n2 - 3),
        0x5C..=0x5F => known(&["Return temperature"], &[u("Cel", 1)], n2 - 3),
        0x60..=0x63 => known(&["Temperature difference"], &[u("K", 1)], n2 - 3),
        0x64..=0x67 => known(&["External temperature"], &[u("Cel", 1)], n2 - 3),
        0x68..=0x6B => known(&["Pressure"], &[u("bar", 1)], n2 - 3),
        0x6C => known(&["Time point (date)"], &[], 0),
        0x6D => known(&["Time point (date and time)"], &[], 0),
        0x6E => known(&["Dimensionless HCA"], &[], 0),
        0x70..=0x73 => known(&["Averaging duration"], &[time_unit(code)], 0),
        0x74..=0x77 => known(&["Actuality duration"], &[time_unit(code)], 0),
        0x78 => known(&["Fabrication number"], &[], 0),
        0x79 => known(&["Enhanced identification"], &[], 0),
        0x7A => known(&["Address"], &[], 0),
        0x7B => known(&[], &[], 0),
        _ => return None,
    })
}

/// First extension table (FDh).
pub fn fd(code: u8, second: Option<u8>) -> Info {
    let n2 = i32::from(code & 3);
    let n4 = i32::from(code & 15);
    let l = |s: &'static str| known(&[s], &[], 0);
    match code & 0x7F {
        0x00..=0x03 => known(&["Credit"], &[u("$", 1)], n2 - 3),
        0x04..=0x07 => known(&["Debit"], &[u("$", 1)], n2 - 3),
        0x08 => l("Unique message identification or access number"),
        0x09 => l("Device type"),
        0x0A => l("Manufacturer"),
        0x0B => l("Parameter set identification"),
        0x0C => l("Model or version"),
        0x0D => l("Hardware version"),
        0x0E => l("Metrology firmware version"),
        0x0F => l("Other software version"),
        0x10 => l("Customer location"),
        0x11 => l("Customer"),
        0x12 => l("Access code user"),
        0x13 => l("Access code operator"),
        0x14 => l("Access code system operator"),
        0x15 => l("Access code developer"),
        0x16 => l("Password"),
        0x17 => l("Error flags"),
        0x18 => l("Error mask"),
        0x19 => l("Security key"),
        0x1A => known(&["Digital output", "Binary"], &[], 0),
        0x1B => known(&["Digital input", "Binary"], &[], 0),
        0x1C => known(&["Baud rate"], &[u("Symbol", 1), u("s", -1)], 0),
        0x1D => known(&["Response delay time"], &[u("BitTime", 1)], 0),
        0x1E => l("Retry"),
        0x1F => l("Remote control"),
        0x20 => l("First storage for cycle storage"),
        0x21 => l("Last storage for cycle storage"),
        0x22 => l("Size of storage block"),
        0x23 => l("Description of tariff and subunit"),
        0x24..=0x27 => known(&["Storage interval"], &[time_unit(code)], 0),
        0x28 => known(&["Storage interval"], &[u("mo", 1)], 0),
        0x29 => known(&["Storage interval"], &[u("a", 1)], 0),
        0x3A => l("Dimensionless"),
        0x3B => l("Data container for wireless M-Bus protocol"),
        0x3C..=0x3F => known(&["Period of normal data transmission"], &[time_unit(code)], 0),
        0x40..=0x4F => known(&["Voltage"], &[u("V", 1)], n4 - 9),
        0x50..=0x5F => known(&["Current"], &[u("A", 1)], n4 - 12),
        0x60 => l("Reset counter"),
        0x61 => l("Cumulation counter"),
        0x62 => l("Control signal"),
        0x63 => l("Day of week"),
        0x64 => l("Week number"),
        0x65 => l("Time point of change of tariff"),
        0x66 => l("State of parameter activation"),
        0x67 => l("Special supplier information"),
        0x68..=0x6B => known(&["Duration since last cumulation"], &[long_time_unit(code)], 0),
        0x6C..=0x6F => known(&["Operating time battery"], &[long_time_unit(code)], 0),
        0x70 => l("Date and time of battery change"),
        0x71 => known(&["RF power level"], &[u("dBmW", 1)], 0),
        0x72 => l("Daylight saving beginning ending deviation"),
        0x73 => l("Listening window management data"),
        0x74 => known(&["Remaining battery life time"], &[u("d", 1)], 0),
        0x75 => l("Number of times the meter was stopped"),
        0x76 => l("Data container for manufacturer specific protocol"),
        0x7D => match second.map(|s| s & 0x7F) {
            Some(0x00) => l("Currently selected application"),
            Some(0x02) => known(&["Remaining battery life time"], &[u("mo", 1)], 0),
            Some(0x03) => known(&["Remaining battery life time"], &[u("a", 1)], 0),
            Some(0x3E) => known(&["Moisture level"], &[u("%", 1)], 0),
            _ => l("Reserved"),
        },
        _ => l("Reserved"),
    }
}

/// Second extension table (FBh).
pub fn fb(code: u8) -> Info {
    let c = code & 0x7F;
    let n1 = i32::from(c & 1);
    let n2 = i32::from(c & 3);
    let n3 = i32::from(c & 7);
    let hca = |s: &'static str| known(&[s], &[u("HCAUnit", 1)], 0);
    match c {
        0x00 | 0x01 => known(&["Energy"], &[u("W", 1), u("h", 1)], n1 + 5),
        0x02 | 0x03 => known(&["Reactive energy"], &[u("var", 1), u("h", 1)], n1 + 3),
        0x04 | 0x05 => known(&["Apparent energy"], &[u("VA", 1), u("h", 1)], n1 + 3),
        0x06 => known(&["Coefficient of performance"], &[], -1),
        0x08 | 0x09 => known(&["Energy"], &[u("J", 1)], n1 + 8),
        0x0C..=0x0F => known(&["Energy"], &[u("cal", 1)], n2 + 5),
        0x10 | 0x11 => known(&["Volume"], &[u("m", 3)], n1 + 2),
        0x14..=0x17 => known(&["Reactive power"], &[u("var", 1)], n2),
        0x18 | 0x19 => known(&["Mass"], &[u("t", 1)], n1 + 2),
        0x1A | 0x1B => known(&["Relative humidity"], &[u("%", 1)], n1 - 1),
        0x20 => known(&["Volume"], &[u("ft", 3)], 0),
        0x21 => known(&["Volume"], &[u("ft", 3)], -1),
        0x23 => known(&["Phase I-to-U"], &[u("deg", 1)], -1),
        0x28 | 0x29 => known(&["Power"], &[u("W", 1)], n1 + 5),
        0x2A => known(&["Phase U-to-U"], &[u("deg", 1)], -1),
        0x2B => known(&["Phase U-to-I"], &[u("deg", 1)], -1),
        0x2C..=0x2F => known(&["Frequency"], &[u("Hz", 1)], n2 - 3),
        0x30 | 0x31 => known(&["Power"], &[u("J", 1), u("h", -1)], n1 + 8),
        0x34..=0x37 => known(&["Apparent power"], &[u("VA", 1)], n2),
        0x58..=0x5B => known(&["Flow temperature"], &[u("F", 1)], n2 - 3),
        0x5C..=0x5F => known(&["Return temperature"], &[u("F", 1)], n2 - 3),
        0x60..=0x63 => known(&["Temperature difference"], &[u("F", 1)], n2 - 3),
        0x64..=0x67 => known(&["External temperature"], &[u("F", 1)], n2 - 3),
        0x68 => hca("Resulting rating factor"),
        0x69 => hca("Thermal output rating factor"),
        0x6A => hca("Thermal coupling rating factor overall"),
        0x6B => hca("Thermal coupling rating room side"),
        0x6C => hca("Thermal coupling rating factor heating side"),
        0x6D => hca("Low temperature rating factor"),
        0x6E => hca("Display output scaling factor"),
        0x70..=0x73 => known(&["Cold warm temperature limit"], &[u("F", 1)], n2 - 3),
        0x74..=0x77 => known(&["Cold warm temperature limit"], &[u("Cel", 1)], n2 - 3),
        0x78..=0x7F => known(&["Cumulative maximum of active power"], &[u("W", 1)], n3 - 3),
        _ => known(&["Reserved"], &[], 0),
    }
}

fn after_fc(info: &mut Info, code: u8) {
    info.labels.push(match code & 0x7F {
        0x01 => "At phase L1",
        0x02 => "At phase L2",
        0x03 => "At phase L3",
        0x04 => "At neutral",
        0x05 => "Between phases L1 L2",
        0x06 => "Between phases L2 L3",
        0x07 => "Between phases L3 L1",
        0x08 => "At quadrant1",
        0x09 => "At quadrant2",
        0x0A => "At quadrant3",
        0x0B => "At quadrant4",
        0x0C => "Delta between import and export",
        0x0D => "Alternative non metric units",
        0x0E => "Secondary sensor measurement",
        0x0F => "Higher resolution register",
        0x10 => "Accumulation of absolute value both positive and negative contribution",
        0x11 => "Data presented with type C",
        0x12 => "Data presented with type D",
        0x13 => "End date",
        0x14 => "Direction from communication partner to meter",
        0x15 => "Direction from meter to communication partner",
        _ => "Reserved",
    });
}

fn combinable(info: &mut Info, code: u8) {
    let c = code & 0x7F;
    match c {
        0x00..=0x0F => info.labels.push("Reserved for object actions"),
        0x12 => info.labels.push("Averaged"),
        0x13 => info.labels.push("Inverse compact profile"),
        0x14 => info.labels.push("Relative deviation"),
        0x15..=0x1C => info.labels.push("Record error codes"),
        0x1D => info.labels.push("Standard conform data content"),
        0x1E => info.labels.push("Compact profile with register numbers"),
        0x1F => info.labels.push("Compact profile"),
        0x20 => info.units.push(u("s", -1)),
        0x21 => info.units.push(u("min", -1)),
        0x22 => info.units.push(u("h", -1)),
        0x23 => info.units.push(u("d", -1)),
        0x24 => info.units.push(u("wk", -1)),
        0x25 => info.units.push(u("mo", -1)),
        0x26 => info.units.push(u("a", -1)),
        0x27 => info.units.push(u("revolution", -1)),
        0x28 => info.units.extend([u("increment", 1), u("InputPulseOnChannel0", -1)]),
        0x29 => info.units.extend([u("increment", 1), u("InputPulseOnChannel1", -1)]),
        0x2A => info.units.extend([u("increment", 1), u("OutputPulseOnChannel0", -1)]),
        0x2B => info.units.extend([u("increment", 1), u("OutputPulseOnChannel1", -1)]),
        0x2C => info.units.push(u("L", -1)),
        0x2D => info.units.push(u("m", -3)),
        0x2E => info.units.push(u("kg", -1)),
        0x2F => info.units.push(u("K", -1)),
        0x30 => {
            info.units.extend([u("W", -1), u("h", -1)]);
            info.scale -= 3;
        }
        0x31 => {
            info.units.push(u("J", -1));
            info.scale -= 9;
        }
        0x32 => {
            info.units.push(u("W", -1));
            info.scale -= 3;
        }
        0x33 => info.units.extend([u("K", -1), u("L", -1)]),
        0x34 => info.units.push(u("V", -1)),
        0x35 => info.units.push(u("A", -1)),
        0x36 => info.units.push(u("s", 1)),
        0x37 => info.units.extend([u("s", 1), u("V", -1)]),
        0x38 => info.units.extend([u("s", 1), u("A", -1)]),
        0x39 => info.labels.push("Start date of"),
        0x3A => info.labels.push("VIF contains uncorrected unit or value"),
        0x3B => info.labels.push("Accumulation only if value is positive"),
        0x3C => info.labels.push("Accumulation only if value is negative"),
        0x3D => info.labels.push("Non metric units"),
        0x3E => info.labels.push("Value at base conditions"),
        0x3F => info.labels.push("OBIS declaration"),
        0x40 => info.labels.push("Lower limit value"),
        0x48 => info.labels.push("Upper limit value"),
        0x41 => info.labels.push("Number of exceeds of lower limit value"),
        0x49 => info.labels.push("Number of exceeds of upper limit value"),
        0x42 => info.labels.push("Date of begin first lower limit exceed"),
        0x43 => info.labels.push("Date of end first lower limit exceed"),
        0x46 => info.labels.push("Date of begin last lower limit exceed"),
        0x47 => info.labels.push("Date of end last lower limit exceed"),
        0x4A => info.labels.push("Date of begin first upper limit exceed"),
        0x4B => info.labels.push("Date of end first upper limit exceed"),
        0x4E => info.labels.push("Date of begin last upper limit exceed"),
        0x4F => info.labels.push("Date of end last upper limit exceed"),
        0x50..=0x5F => {
            info.labels.push(match (c >> 2) & 3 {
                0 => "Duration of first lower limit exceed",
                1 => "Duration of last lower limit exceed",
                2 => "Duration of first upper limit exceed",
                _ => "Duration of last upper limit exceed",
            });
            info.units.push(time_unit(c));
        }
        0x60..=0x67 => {
            info.labels.push(if c & 4 == 0 { "Duration of first" } else { "Duration of last" });
            info.units.push(time_unit(c));
        }
        0x68 => info.labels.push("Value during lower value exceed"),
        0x6C => info.labels.push("Value during upper value exceed"),
        0x69 => info.labels.push("Leakage values"),
        0x6D => info.labels.push("Overflow values"),
        0x6A => info.labels.push("Date of begin first"),
        0x6B => info.labels.push("Date of end first"),
        0x6E => info.labels.push("Date of begin last"),
        0x6F => info.labels.push("Date of end last"),
        0x70..=0x77 => info.scale += i32::from(c & 7) - 6,
        0x78..=0x7B => {
            if info.offset.is_some() {
                info.open = true;
            }
            info.offset = Some(i32::from(c & 3) - 3);
        }
        0x7D => info.scale += 3,
        0x7E => info.labels.push("Future value"),
        0x7F => {
            info.labels.push("Next VIFE and data of this block are manufacturer specific");
            info.open = true;
        }
        _ => info.labels.push("Reserved"),
    }
}

/// Meaning of a VIF with its extensions (plain text excluded).
pub fn lookup(vif: u8, vifes: &[u8]) -> Vib {
    let (mut info, rest): (Info, &[u8]) = match vif {
        0xFD => {
            let Some(first) = vifes.first() else { return Vib::Invalid };
            let used = if first & 0x7F == 0x7D { 2.min(vifes.len()) } else { 1 };
            (fd(*first, vifes.get(1).copied()), &vifes[used..])
        }
        0xFB => {
            let Some(first) = vifes.first() else { return Vib::Invalid };
            (fb(*first), &vifes[1..])
        }
        0x7C | 0xFC => (known(&["Plain text"], &[], 0), vifes),
        0x7E | 0xFE | 0x7F | 0xFF => (known(&["Manufacturer specific"], &[], 0), &[]),
        _ => match primary(vif) {
            Some(i) => (i, vifes),
            None => return Vib::Invalid,
        },
    };
    let mut fc = false;
    for v in rest {
        if fc {
            if *v & 0x7F == 0x7C {
                info.open = true;
            }
            after_fc(&mut info, *v);
            fc = false;
        } else if *v == 0xFC {
            fc = true;
        } else {
            combinable(&mut info, *v);
        }
    }
    if info.labels.len() > 10 || info.units.len() > 10 {
        return Vib::Invalid;
    }
    Vib::Known(info)
}

/// UCUM symbol and plain name of a reference unit.
fn names(unit: &Unit) -> (Option<&'static str>, &'static str) {
    match unit.name {
        "W" => (Some("W"), "W"),
        "J" => (Some("J"), "J"),
        "kg" => (Some("kg"), "Kg"),
        "t" => (Some("t"), "t"),
        "m" => (Some("m"), "m"),
        "ft" => (Some("[ft_i]"), "ft"),
        "Cel" => (Some("Cel"), "°C"),
        "K" => (Some("K"), "°K"),
        "bar" => (Some("bar"), "Bar"),
        "s" => (Some("s"), "s"),
        "min" => (Some("min"), "min"),
        "h" => (Some("h"), "h"),
        "d" => (Some("d"), "day"),
        "wk" => (Some("wk"), "week"),
        "mo" => (Some("mo"), "month"),
        "a" => (Some("a"), "year"),
        "L" => (Some("L"), "l"),
        "V" => (Some("V"), "V"),
        "A" => (Some("A"), "A"),
        "%" => (Some("%"), "%"),
        "Hz" => (Some("Hz"), "Hz"),
        "F" => (Some("[degF]"), "°F"),
        "cal" => (Some("cal"), "cal"),
        "var" => (None, "W (reactive)"),
        "VA" => (None, "W (apparent)"),
        "$" => (None, "$ (local)"),
        "deg" => (None, "°"),
        other => (None, other),
    }
}

fn superscript(exp: i32) -> String {
    if exp == 1 {
        return String::new();
    }
    let mut s = String::new();
    if exp < 0 {
        s.push('⁻');
    }
    for d in exp.abs().to_string().chars() {
        s.push(['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹'][d.to_digit(10).unwrap() as usize]);
    }
    s
}

/// Unit text of the canonical output: UCUM terms joined by dots when every unit
/// has a UCUM symbol, otherwise the plain names.
pub fn unit_text(units: &[Unit]) -> Option<String> {
    if units.is_empty() {
        return None;
    }
    let ucum: Option<Vec<String>> = units
        .iter()
        .map(|x| names(x).0.map(|s| if x.exp == 1 { s.to_string() } else { format!("{s}{}", x.exp) }))
        .collect();
    Some(match ucum {
        Some(parts) => parts.join("."),
        None => plain_text(units),
    })
}

/// Plain names of the units with their exponents.
pub fn plain_text(units: &[Unit]) -> String {
    units.iter().map(|x| format!("{}{}", names(x).1, superscript(x.exp))).collect()
}
