//! Expected frame, meter and transport sections, and the code tables behind them.

use serde_json::{json, Map, Value};

use crate::gen::{Hdr, Ident, Link, ShortH};
use crate::util::hex;

pub fn function_name(c: u8) -> Option<&'static str> {
    Some(match c {
        0x40 => "SND_NKE (PRM: false)",
        0x44 => "SND_NR",
        0x53 => "SND_UD (FCB: false)",
        0x73 => "SND_UD (FCB: true)",
        0x5A => "REQ_UD1 (FCB: false)",
        0x7A => "REQ_UD1 (FCB: true)",
        0x5B => "REQ_UD2 (FCB: false)",
        0x7B => "REQ_UD2 (FCB: true)",
        0x08 => "RSP_UD (ACD: false, DFC: false)",
        0x18 => "RSP_UD (ACD: false, DFC: true)",
        0x28 => "RSP_UD (ACD: true, DFC: false)",
        0x38 => "RSP_UD (ACD: true, DFC: true)",
        _ => return None,
    })
}

pub fn address_name(a: u8) -> String {
    match a {
        0 => "Uninitalized".into(),
        253 => "Secondary".into(),
        254 => "Broadcast (Reply Required: true)".into(),
        255 => "Broadcast (Reply Required: false)".into(),
        n => format!("Primary ({n})"),
    }
}

pub fn device_name(code: u8) -> String {
    let fixed = match code {
        0x00 => "Other",
        0x01 => "Oil Meter",
        0x02 => "Electricity Meter",
        0x03 => "Gas Meter",
        0x04 => "Heat Meter (Return)",
        0x05 => "Steam Meter",
        0x06 => "Warm Water Meter (30-90°C)",
        0x07 => "Water Meter",
        0x08 => "Heat Cost Allocator",
        0x09 => "Compressed Air",
        0x0A => "Cooling Meter (Return)",
        0x0B => "Cooling Meter (Flow)",
        0x0C => "Heat Meter (Flow)",
        0x0D => "Combined Heat/Cooling Meter",
        0x0E => "Bus/System Component",
        0x0F => "Unknown Device",
        0x10 => "Irrigation Water Meter",
        0x11 => "Water Data Logger",
        0x12 => "Gas Data Logger",
        0x13 => "Gas Converter",
        0x14 => "Calorific Value",
        0x15 => "Hot Water Meter (≥90°C)",
        0x16 => "Cold Water Meter",
        0x17 => "Dual Register Water Meter",
        0x18 => "Pressure Meter",
        0x19 => "A/D Converter",
        0x1A => "Smoke Detector",
        0x1B => "Room Sensor",
        0x1C => "Gas Detector",
        0x20 => "Breaker (Electricity)",
        0x21 => "Valve (Gas/Water)",
        0x25 => "Customer Unit (Display)",
        0x28 => "Waste Water Meter",
        0x29 => "Garbage",
        0x2A => "Reserved (CO₂)",
        0x30 => "Service Tool",
        0x31 => "Communication Controller (Gateway)",
        0x32 => "Unidirectional Repeater",
        0x33 => "Bidirectional Repeater",
        0x36 => "Radio Converter (System Side)",
        0x37 => "Radio Converter (Meter Side)",
        0x38 => "Bus Converter (Meter Side)",
        0xFF => "Wildcard",
        _ => "",
    };
    if !fixed.is_empty() {
        return fixed.to_string();
    }
    let family = match code {
        0x1D..=0x1F => "Reserved Sensor",
        0x22..=0x24 => "Reserved Switch",
        0x26..=0x27 => "Reserved Customer Unit",
        0x2B..=0x2F => "Reserved Environmental",
        0x34 | 0x35 | 0x39..=0x3F => "Reserved System",
        _ => "Reserved",
    };
    format!("{family} (0x{code:02X})")
}

pub fn mode_name(mode: u8) -> String {
    match mode {
        0 => "No encryption used".into(),
        1 => "Manufacturer specific usage".into(),
        2 => "DES; IV = 0 (deprecated)".into(),
        3 => "DES; IV ≠ 0 (deprecated)".into(),
        4 => "Specific usage (Bibliographical Entry [6])".into(),
        5 => "AES-CBC-128; IV ≠ 0".into(),
        7 => "AES-CBC-128; IV = 0".into(),
        8 => "AES-CTR-128; CMAC".into(),
        9 => "AES-GCM-128".into(),
        10 => "AES-CCM-128".into(),
        13 => "Specific usage (Bibliographical Entry [8])".into(),
        15 => "Specific usage (Bibliographical Entry [7])".into(),
        6 | 11 | 12 | 14 => "Reserved for future use".into(),
        m => format!("Reserved for future use (mode {m})"),
    }
}

pub fn status_name(s: u8) -> String {
    const BITS: [&str; 8] = [
        "Counter binary signed",
        "Counter fixed date",
        "Power low",
        "Permanent error",
        "Temporary error",
        "Manufacturer specific 1",
        "Manufacturer specific 2",
        "Manufacturer specific 3",
    ];
    let set: Vec<&str> = (0..8).filter(|i| s >> i & 1 == 1).map(|i| BITS[i]).collect();
    if set.is_empty() {
        "No Error(s)".into()
    } else {
        set.join(", ")
    }
}

pub fn frame_section(link: &Link) -> Value {
    match link {
        Link::Wired { c, a } => json!({
            "kind": if *c == 0x53 { "control" } else { "long" },
            "function": function_name(*c), "address": address_name(*a),
        }),
        Link::Wireless { c, .. } => {
            let mut v = json!({"kind": "wireless", "control_field": format!("{c:02X}")});
            if let Some(f) = function_name(*c) {
                v["function"] = f.into();
            }
            v
        }
    }
}

pub fn identity(source: &str, i: &Ident) -> Value {
    let mut v = json!({"source": source, "id": i.digits(), "version": i.version,
        "device_type": device_name(i.device), "device_type_code": i.device});
    if let Some(l) = i.letters() {
        v["manufacturer_code"] = l.into();
    }
    v
}

/// Identity of the link header. The control information A0h..AFh changes where its device type is.
pub fn link_identity(i: &Ident, ci: Option<u8>) -> Value {
    let device = if matches!(ci, Some(0xA0..=0xAF)) { i.device >> 4 } else { i.device };
    identity("link.wireless", &Ident { device, ..i.clone() })
}

/// Meter section for a frame whose header parsed.
pub fn meter_section(link: &Link, hdr: &Hdr) -> Value {
    let link_id = match link {
        Link::Wireless { ident, .. } => Some(link_identity(ident, hdr.bytes().first().copied())),
        _ => None,
    };
    let header_id = match hdr {
        Hdr::Long(i, _) => Some(identity("tpl.long", i)),
        Hdr::Fixed { id, kind, .. } => {
            let digits: String = id.iter().rev().map(|b| format!("{b:02X}")).collect();
            Some(json!({"source": "application.fixed", "id": digits, "device_type": format!("fixed type/unit 0x{}", hex(kind))}))
        }
        _ => None,
    };
    let mut m = Map::new();
    match (header_id, link_id) {
        (Some(h), Some(l)) => {
            m.insert("identity".into(), h);
            m.insert("alternate_identities".into(), json!([l]));
        }
        (Some(x), None) | (None, Some(x)) => {
            m.insert("identity".into(), x);
        }
        (None, None) => {}
    }
    Value::Object(m)
}

fn le_word(b: [u8; 2]) -> String {
    format!("{:04X}", u16::from_le_bytes(b))
}

fn short_fields(v: &mut Map<String, Value>, source: &str, h: &ShortH) {
    v.insert("access_numbers".into(), json!([{"source": source, "value": h.access}]));
    v.insert("statuses".into(), json!([{"source": source, "raw": format!("{:02X}", h.status), "display": status_name(h.status)}]));
    v.insert("configuration".into(), json!({"source": source, "raw": le_word(h.conf)}));
}

pub fn transport_section(hdr: &Hdr) -> Value {
    let mut v = Map::new();
    let kind = match hdr {
        Hdr::Long(_, h) => {
            short_fields(&mut v, "tpl.long", h);
            "long_tpl"
        }
        Hdr::Short(_, h) | Hdr::Config(_, h) => {
            short_fields(&mut v, "tpl.short", h);
            "short_tpl"
        }
        Hdr::None => "none",
        Hdr::Ell1(cc, acc, inner) => {
            v.insert("ell".into(), json!({"communication_control": format!("{cc:02X}"), "access_number": acc}));
            match inner {
                Some(h) => {
                    short_fields(&mut v, "tpl.short", h);
                    "short_tpl"
                }
                None => {
                    v.insert("access_numbers".into(), json!([{"source": "ell", "value": acc}]));
                    "ell"
                }
            }
        }
        Hdr::Ell2(cc, acc, sn, crc) => {
            v.insert("access_numbers".into(), json!([{"source": "ell", "value": acc}]));
            v.insert(
                "ell".into(),
                json!({"communication_control": format!("{cc:02X}"), "access_number": acc, "session_number": hex(sn), "payload_crc": le_word(*crc)}),
            );
            "ell"
        }
        Hdr::Ell3(cc, acc, man, addr, sn, crc) => {
            v.insert("access_numbers".into(), json!([{"source": "ell", "value": acc}]));
            v.insert(
                "ell".into(),
                json!({"communication_control": format!("{cc:02X}"), "access_number": acc, "receiver_manufacturer": le_word(*man),
                    "receiver_address": hex(addr), "session_number": hex(sn), "payload_crc": le_word(*crc)}),
            );
            "ell"
        }
        Hdr::Fixed { access, status, .. } => {
            v.insert("access_numbers".into(), json!([{"source": "application.fixed", "value": access}]));
            v.insert(
                "statuses".into(),
                json!([{"source": "application.fixed", "raw": format!("{status:02X}"), "display": status_name(*status)}]),
            );
            "fixed"
        }
        Hdr::Reset(_) => "application_reset",
    };
    v.insert("header_kind".into(), kind.into());
    Value::Object(v)
}

/// Whether the header declares the payload encrypted.
pub fn declares_encryption(hdr: &Hdr) -> bool {
    match hdr {
        Hdr::Ell2(..) | Hdr::Ell3(..) => true,
        h => h.conf().is_some_and(|c| c[1] & 0x1F != 0),
    }
}
