//! C37: low-level values that can be read back from their serialised form.

use m_bus_core::{ConfigurationField, DeviceType, FrameError, Function, IdentificationNumber, ManufacturerCode, SecurityMode};
use m_bus_parser::user_data::data_information::{DataInformationField, DataType, Month, SingleEveryOrInvalid};
use m_bus_parser::user_data::data_record::{DataRecord, ProcessedDataRecordHeader};
use m_bus_parser::user_data::extended_link_layer::ExtendedLinkLayer;
use m_bus_parser::user_data::value_information::{ValueInformation, ValueInformationBlock};
use m_bus_parser::user_data::{
    ApplicationResetSubcode, Counter, DataRecords, LongTplHeader, ShortTplHeader, StatusField, UserDataBlock,
};
use m_bus_parser::{WiredFrame, WirelessFrame};
use wired_mbus_link_layer::Address;
use wireless_mbus_link_layer::{FrameError as WirelessError, ManufacturerId};

use super::lowlevel::low;
use crate::gen;
use crate::runner::{CheckResult, Ctx, Kind, Part, Property};
use crate::source::Source;
use crate::util::hex_sp;

/// Reads the value back from its JSON and YAML texts. (A serde_json tree does
/// not read back a variant with an empty tuple, whatever the type.)
macro_rules! back {
    ($ctx:expr, $t:ty, $v:expr) => {{
        let v: &$t = $v;
        $ctx.class(stringify!($t));
        let text = match serde_json::to_string(v) {
            Ok(t) => t,
            Err(e) => fail!("{v:?}: {e}"),
        };
        match serde_json::from_str::<$t>(&text) {
            Ok(b) => ensure!(b == *v, "{} read back from {text}: {b:?} instead of {v:?}", stringify!($t)),
            Err(e) => fail!("{} not readable from {text}: {e}", stringify!($t)),
        }
        let yaml = match serde_yaml::to_string(v) {
            Ok(t) => t,
            Err(e) => fail!("{v:?}: {e}"),
        };
        match serde_yaml::from_str::<$t>(&yaml) {
            Ok(b) => ensure!(b == *v, "{} read back from YAML {yaml}: {b:?} instead of {v:?}", stringify!($t)),
            Err(e) => fail!("{} not readable from YAML {yaml}: {e}", stringify!($t)),
        }
    }};
}

fn short(ctx: &mut Ctx, h: &ShortTplHeader) -> CheckResult {
    back!(ctx, ShortTplHeader, h);
    back!(ctx, StatusField, &h.status);
    back!(ctx, ConfigurationField, &h.configuration_field);
    back!(ctx, SecurityMode, &h.configuration_field.security_mode());
    Ok(())
}

fn ell(ctx: &mut Ctx, e: &Option<ExtendedLinkLayer>) -> CheckResult {
    if let Some(e) = e {
        back!(ctx, ExtendedLinkLayer, e);
    }
    Ok(())
}

/// All but the manufacturer, which is documented not to be read back.
fn long(ctx: &mut Ctx, h: &LongTplHeader) -> CheckResult {
    let text = match serde_json::to_string(h) {
        Ok(t) => t,
        Err(e) => fail!("{h:?}: {e}"),
    };
    ctx.class("LongTplHeader");
    let Ok(mut b) = serde_json::from_str::<LongTplHeader>(&text) else { fail!("long header not readable from {text}") };
    if let Ok(m) = &h.manufacturer {
        back!(ctx, ManufacturerCode, m);
        b.manufacturer = Ok(ManufacturerCode { code: m.code });
    } else {
        return Ok(());
    }
    ensure!(b == *h, "long header read back from {text}: {b:?} instead of {h:?}");
    back!(ctx, IdentificationNumber, &h.identification_number);
    back!(ctx, DeviceType, &h.device_type);
    short(ctx, &h.short_tpl_header)
}

fn record(ctx: &mut Ctx, r: &DataRecord) -> CheckResult {
    let h = &r.data_record_header;
    back!(ctx, ProcessedDataRecordHeader, &h.processed_data_record_header);
    if let Some(v) = &h.processed_data_record_header.value_information {
        back!(ctx, ValueInformation, v);
    }
    if let Some(v) = &h.raw_data_record_header.value_information_block {
        back!(ctx, ValueInformationBlock, v);
    }
    back!(ctx, DataInformationField, &h.raw_data_record_header.data_information_block.data_information_field);
    let (mut bytes, mut months, mut years) = (vec![], None, None);
    match r.data.value.clone() {
        Some(DataType::Date(d, m, y)) => {
            bytes.push(d);
            (months, years) = (Some(m), Some(y));
        }
        Some(DataType::Time(s, m, h)) => bytes.extend([s, m, h]),
        Some(DataType::DateTime(d, m, y, h, min)) => {
            bytes.extend([d, h, min]);
            (months, years) = (Some(m), Some(y));
        }
        Some(DataType::DateTimeWithSeconds(d, m, y, h, min, s)) => {
            bytes.extend([d, h, min, s]);
            (months, years) = (Some(m), Some(y));
        }
        _ => {}
    }
    for b in &bytes {
        back!(ctx, SingleEveryOrInvalid<u8>, b);
    }
    if let Some(m) = &months {
        back!(ctx, SingleEveryOrInvalid<Month>, m);
    }
    if let Some(y) = &years {
        back!(ctx, SingleEveryOrInvalid<u16>, y);
    }
    Ok(())
}

fn all(bytes: &[u8], ctx: &mut Ctx) -> CheckResult {
    match WiredFrame::try_from(bytes) {
        Ok(WiredFrame::ShortFrame { function, address } | WiredFrame::LongFrame { function, address, .. } | WiredFrame::ControlFrame { function, address, .. }) => {
            back!(ctx, Function, &function);
            back!(ctx, Address, &address);
        }
        Ok(_) => {}
        Err(e) => back!(ctx, FrameError, &e),
    }
    let Some((l, normalized)) = low(bytes) else {
        if let Err(e) = WirelessFrame::try_from(bytes) {
            back!(ctx, WirelessError, &e);
        }
        return Ok(());
    };
    if l.kind == "wireless" {
        if let Ok(w) = WirelessFrame::try_from(normalized.as_slice()) {
            back!(ctx, ManufacturerId, &w.manufacturer_id);
        }
    }
    let Ok(block) = UserDataBlock::try_from(l.payload.as_slice()) else { return Ok(()) };
    let data = match &block {
        UserDataBlock::VariableDataStructureWithLongTplHeader { extended_link_layer, long_tpl_header, variable_data_block } => {
            ell(ctx, extended_link_layer)?;
            long(ctx, long_tpl_header)?;
            *variable_data_block
        }
        UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, variable_data_block } => {
            ell(ctx, extended_link_layer)?;
            short(ctx, short_tpl_header)?;
            *variable_data_block
        }
        UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer, variable_data_block } => {
            ell(ctx, extended_link_layer)?;
            *variable_data_block
        }
        UserDataBlock::FixedDataStructure { counter1, counter2, .. } => {
            back!(ctx, Counter, counter1);
            back!(ctx, Counter, counter2);
            &[]
        }
        UserDataBlock::ResetAtApplicationLevel { subcode } => {
            back!(ctx, ApplicationResetSubcode, subcode);
            &[]
        }
        _ => &[],
    };
    for r in DataRecords::from(data).flatten() {
        record(ctx, &r)?;
    }
    Ok(())
}

fn c37(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (edit, place, bit) = (s.below(6), s.raw() as usize, s.below(8));
    let mut b = gen::any_frame(s, &gen::FULL, 5).bytes();
    if edit == 0 {
        let i = place % b.len();
        b[i] ^= 1 << bit;
    }
    ctx.sample(|| hex_sp(&b));
    ctx.nontrivial(&b);
    all(&b, ctx).map_err(|e| crate::runner::Fail::new(format!("[{}]: {}", hex_sp(&b), e.message)))
}

/// Every code of the small code spaces, once each.
fn enumerated(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    let mut blocks: Vec<Vec<u8>> = vec![];
    for code in 0..=0x7Fu8 {
        for head in [vec![], vec![0xFD], vec![0xFB], vec![0xFD, 0xFD], vec![0x93], vec![0x93, 0xFC], vec![0x93, 0xF4]] {
            let mut r = vec![0x04];
            r.extend(head);
            r.push(code);
            r.extend([0xD2, 0x04, 0x21, 0x26]);
            blocks.push(r);
        }
    }
    for dif in 0..=255u8 {
        let mut r = vec![dif, 0x13];
        r.extend([0x01; 12]);
        blocks.push(r.clone());
        if dif & 0x80 == 0 {
            r[0] |= 0x80;
            for dife in 0..=0x7F {
                r[1] = dife;
                blocks.push(r.clone());
            }
        }
    }
    for b in 0..=255u8 {
        blocks.push(vec![0x02, 0x6C, b, 0x2C]);
        blocks.push(vec![0x02, 0x6C, 0x41, b]);
        for i in 0..6 {
            let mut r = vec![0x06, 0x6D, 0x1E, 0x1E, 0x0C, 0x41, 0x2C, 0x00];
            r[2 + i] = b;
            blocks.push(r);
            if i < 4 {
                let mut r = vec![0x04, 0x6D, 0x1E, 0x0C, 0x41, 0x2C];
                r[2 + i] = b;
                blocks.push(r);
            }
            if i < 3 {
                let mut r = vec![0x03, 0x6D, 0x1E, 0x0C, 0x11];
                r[2 + i] = b;
                blocks.push(r);
            }
        }
    }
    for b in blocks.iter().skip(shard).step_by(shards) {
        ctx.evaluations += 1;
        ctx.nontrivial(b);
        for r in DataRecords::from(b.as_slice()).flatten() {
            record(ctx, &r).map_err(|e| crate::runner::Fail::new(format!("[{}]: {}", hex_sp(b), e.message)))?;
        }
    }
    for raw in (shard..0x1_0000).step_by(shards) {
        let w = (raw as u16).to_le_bytes();
        ctx.evaluations += 1;
        let c = ConfigurationField::from(raw as u16);
        back!(ctx, ConfigurationField, &c);
        back!(ctx, SecurityMode, &c.security_mode());
        if let Ok(m) = ManufacturerCode::from_id(raw as u16) {
            back!(ctx, ManufacturerCode, &m);
        }
        if let Ok(i) = IdentificationNumber::from_bcd_hex_digits([w[0], w[1], w[1], w[0]]) {
            back!(ctx, IdentificationNumber, &i);
        }
        if raw < 256 {
            let b = raw as u8;
            back!(ctx, DeviceType, &DeviceType::from(b));
            if let Ok(WiredFrame::ShortFrame { address, .. }) = WiredFrame::try_from([0x10, 0x5B, b, 0x5Bu8.wrapping_add(b), 0x16].as_slice()) {
                back!(ctx, Address, &address);
            }
            back!(ctx, StatusField, &StatusField::from_bits_truncate(b));
            back!(ctx, ApplicationResetSubcode, &ApplicationResetSubcode::from(b));
            match Function::try_from(b) {
                Ok(f) => back!(ctx, Function, &f),
                Err(e) => back!(ctx, FrameError, &e),
            }
        }
    }
    Ok(())
}

pub fn c37_property() -> Property {
    Property {
        id: "C37",
        rule: "Frames with every header kind and record sequences, one in six with a flipped bit; every value in them that offers both directions is written and read back, and every VIF, VIFE, DIF, date and time byte, configuration word, device type, address, status, function and reset code once; non-trivial: every distinct frame or record.",
        both_builds: false,
        assumptions: &["the manufacturer of a long header is documented not to be read back", "types that borrow the frame cannot be read back"],
        parts: vec![
            Part { name: "values", kind: Kind::Random { quick: 360_000, thorough: 4_320_000, tape: (16, 220), f: c37 } },
            Part { name: "enumerated", kind: Kind::Exhaustive { f: enumerated } },
        ],
    }
}
