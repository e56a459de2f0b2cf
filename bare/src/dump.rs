// Everything the low-level types say about a byte string, as text. Compiled
// into every build that is compared, so only the library differs.

use m_bus_parser::mbus_data::MbusData;
use m_bus_parser::user_data::{parse_application_layer, DataRecords};
#[cfg(feature = "decryption")]
use m_bus_parser::user_data::UserDataBlock;
use m_bus_parser::{WiredFrame, WirelessFrame};
use std::fmt::Write;

fn records(out: &mut String, r: DataRecords<'_>) {
    for x in r.take(300) {
        match x {
            Ok(x) => {
                let _ = writeln!(out, "{x:?} {} {:?} {:?} {:?}", x.get_size(), x.value(), x.data_information(), x.value_information());
            }
            Err(e) => {
                let _ = writeln!(out, "{e:?}");
            }
        }
    }
}

fn user_data(out: &mut String, payload: &[u8]) {
    let u = parse_application_layer(payload);
    let _ = writeln!(out, "{u:?}");
    if let Ok(u) = u {
        let _ = writeln!(out, "{:?} {}", u.is_encrypted(), u.variable_data_len());
        if let Some(r) = u.data_records() {
            records(out, r);
        }
    }
}

pub fn frame(bytes: &[u8]) -> String {
    let mut out = String::new();
    let w = WiredFrame::try_from(bytes);
    let _ = writeln!(out, "{w:?}");
    if let Ok(WiredFrame::LongFrame { data, .. } | WiredFrame::ControlFrame { data, .. }) = w {
        user_data(&mut out, data);
    }
    match MbusData::<WiredFrame>::try_from(bytes) {
        Ok(m) => {
            let _ = writeln!(out, "{:?} {:?}", m.user_data, m.application_error);
            if let Some(r) = m.data_records {
                records(&mut out, r);
            }
        }
        Err(e) => {
            let _ = writeln!(out, "{e:?}");
        }
    }
    let mut buf = vec![0u8; bytes.len().max(16)];
    let stripped = wireless_mbus_link_layer::strip_format_a_crcs(bytes, &mut buf).map(<[u8]>::to_vec);
    let _ = writeln!(out, "{stripped:?} {:?}", wireless_mbus_link_layer::trailing_frame_crc_start(bytes));
    let bytes = stripped.as_deref().unwrap_or(bytes);
    let w = WirelessFrame::try_from(bytes);
    let _ = writeln!(out, "{w:?}");
    if let Ok(w) = w {
        user_data(&mut out, w.data);
    }
    match MbusData::<WirelessFrame>::try_from(bytes) {
        Ok(m) => {
            let _ = writeln!(out, "{:?} {:?}", m.user_data, m.application_error);
            if let Some(r) = m.data_records {
                records(&mut out, r);
            }
        }
        Err(e) => {
            let _ = writeln!(out, "{e:?}");
        }
    }
    out
}

pub fn block(bytes: &[u8]) -> String {
    let mut out = String::new();
    records(&mut out, DataRecords::from(bytes));
    out
}

/// The payload of a frame decrypted with the low-level calls.
#[cfg(feature = "decryption")]
pub fn decrypt(bytes: &[u8], key: &[u8; 16]) -> String {
    let mut buf = vec![0u8; bytes.len().max(16)];
    let stripped = wireless_mbus_link_layer::strip_format_a_crcs(bytes, &mut buf).map(<[u8]>::to_vec);
    let bytes = stripped.as_deref().unwrap_or(bytes);
    let mut out = String::new();
    let mut clear = [0u8; 300];
    let mut p = m_bus_core::decryption::StaticKeyProvider::<1>::new();
    if let Ok(WiredFrame::LongFrame { data, .. }) = WiredFrame::try_from(bytes) {
        if let Ok(u @ UserDataBlock::VariableDataStructureWithLongTplHeader { .. }) = parse_application_layer(data) {
            let UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header: h, .. } = &u else { return out };
            if let Ok(m) = h.manufacturer {
                let _ = writeln!(out, "{:?}", p.add_key(m.to_id(), h.identification_number.number, *key));
            }
            let r = u.decrypt_variable_data(&p, &mut clear);
            let _ = writeln!(out, "{r:?} {clear:?}");
        }
        return out;
    }
    if let Ok(w) = WirelessFrame::try_from(bytes) {
        let m = &w.manufacturer_id;
        if let Ok(u) = parse_application_layer(w.data) {
            if let UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header: h, .. } = &u {
                if let Ok(m) = h.manufacturer {
                    let _ = writeln!(out, "{:?}", p.add_key(m.to_id(), h.identification_number.number, *key));
                }
            } else {
                let _ = writeln!(out, "{:?}", p.add_key(m.manufacturer_code.to_id(), m.identification_number.number, *key));
            }
            let r = u.decrypt_variable_data_with_context(&p, m.manufacturer_code, m.identification_number.number, m.version, m.device_type, &mut clear);
            let _ = writeln!(out, "{r:?} {clear:?}");
        }
    }
    out
}
