//! C39: record headers taken apart at the byte level, and why records are refused.

use m_bus_parser::user_data::data_information::{
    DataFieldCoding, DataInformation, DataInformationBlock, DataInformationError, DataInformationField, DataInformationFieldExtension, DataType, FunctionField, SpecialFunctions,
};
use m_bus_parser::user_data::data_record::{DataRecord, DataRecordHeader, ProcessedDataRecordHeader, RawDataRecordHeader};
use m_bus_parser::user_data::value_information::{ValueInformation, ValueInformationBlock, ValueInformationCoding, ValueInformationField};
use m_bus_parser::user_data::variable_user_data::{DataRecordError, VariableUserDataError};
use m_bus_parser::user_data::{DataRecords, LongTplHeader, UserDataBlock};

use crate::gen;
use crate::model::{self, End, Record};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::util::hex_sp;

fn coding_of(dif: u8) -> DataFieldCoding {
    use DataFieldCoding as C;
    match dif & 0x0F {
        0 => C::NoData,
        1 => C::Integer8Bit,
        2 => C::Integer16Bit,
        3 => C::Integer24Bit,
        4 => C::Integer32Bit,
        5 => C::Real32Bit,
        6 => C::Integer48Bit,
        7 => C::Integer64Bit,
        8 => C::SelectionForReadout,
        9 => C::BCD2Digit,
        10 => C::BCD4Digit,
        11 => C::BCD6Digit,
        12 => C::BCD8Digit,
        13 => C::VariableLength,
        14 => C::BCDDigit12,
        _ => C::SpecialFunctions(special_of(dif)),
    }
}

fn special_of(dif: u8) -> SpecialFunctions {
    match dif {
        0x0F => SpecialFunctions::ManufacturerSpecific,
        0x1F => SpecialFunctions::MoreRecordsFollow,
        0x2F => SpecialFunctions::IdleFiller,
        0x7F => SpecialFunctions::GlobalReadoutRequest,
        _ => SpecialFunctions::Reserved,
    }
}

/// The DIF and DIFEs of the bytes, read in both directions.
fn dib<'a>(m: &Record, at: &'a [u8]) -> Result<DataInformationBlock<'a>, Fail> {
    let d = match DataInformationBlock::try_from(at) {
        Ok(d) => d,
        Err(e) => fail!("data information block refused: {e:?}"),
    };
    ensure!(d.data_information_field.data == m.dif, "DIF {:02X} instead of {:02X}", d.data_information_field.data, m.dif);
    ensure!(d.get_size() == 1 + m.difes.len(), "data information block of {} bytes instead of {}", d.get_size(), 1 + m.difes.len());
    match &d.data_information_field_extension {
        None => ensure!(m.difes.is_empty(), "no DIFEs instead of {}", hex_sp(&m.difes)),
        Some(x) => {
            ensure!(!m.difes.is_empty(), "DIFEs without an extension bit");
            ensure!(x.len() == m.difes.len() && x.size_hint() == (m.difes.len(), Some(m.difes.len())), "{} DIFEs announced instead of {}", x.len(), m.difes.len());
            let forward: Vec<u8> = x.clone().map(|b| b.data).collect();
            ensure!(forward == m.difes, "DIFEs {} instead of {}", hex_sp(&forward), hex_sp(&m.difes));
            let mut backward: Vec<u8> = x.clone().rev().map(|b| b.data).collect();
            backward.reverse();
            ensure!(backward == m.difes, "DIFEs from the end {} instead of {}", hex_sp(&backward), hex_sp(&m.difes));
            let (mut both, mut head, mut tail) = (x.clone(), vec![], vec![]);
            while let Some(b) = both.next() {
                head.push(b.data);
                ensure!(both.len() == m.difes.len() - head.len() - tail.len(), "{} DIFEs left of {}", both.len(), m.difes.len());
                if let Some(b) = both.next_back() {
                    tail.insert(0, b.data);
                }
            }
            head.extend(tail);
            ensure!(head == m.difes, "DIFEs from both ends {} instead of {}", hex_sp(&head), hex_sp(&m.difes));
        }
    }
    Ok(d)
}

fn vib(m: &Record, at: &[u8]) -> Result<ValueInformationBlock, Fail> {
    let size = m.header.len() - 1 - m.difes.len();
    let v = match ValueInformationBlock::try_from(at) {
        Ok(v) => v,
        Err(e) => fail!("value information block refused: {e:?}"),
    };
    ensure!(Some(v.value_information.data) == m.vif, "VIF {:02X} instead of {:02X?}", v.value_information.data, m.vif);
    let vifes: Option<Vec<u8>> = v.value_information_extension.as_ref().map(|x| x.iter().map(|b| b.data).collect());
    ensure!(vifes == (!m.vifes.is_empty()).then(|| m.vifes.clone()), "VIFEs {vifes:02X?} instead of {:02X?}", m.vifes);
    let text: Option<Vec<u32>> = v.plaintext_vife.as_ref().map(|t| t.iter().map(|c| *c as u32).collect());
    let wanted: Option<Vec<u32>> = m.plain.as_ref().map(|t| t.iter().map(|b| u32::from(*b)).collect());
    ensure!(text == wanted, "plain text {text:?} instead of {wanted:?}");
    ensure!(v.get_size() == size, "value information block of {} bytes instead of {size}", v.get_size());
    Ok(v)
}

fn long_header() -> LongTplHeader {
    const MESSAGE: [u8; 13] = [0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00];
    match UserDataBlock::try_from(MESSAGE.as_slice()) {
        Ok(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. }) => long_tpl_header,
        other => panic!("long header message reads as {other:?}"),
    }
}

/// One record whose bytes are followed by `after`.
fn apart(m: &Record, after: &[u8], ctx: &mut Ctx) -> CheckResult {
    let whole = m.bytes();
    let takes_rest = m.dif == 0x0F || m.dif == 0x1F;
    let mut b = whole.clone();
    if !takes_rest {
        b.extend(after);
    }
    let (dibs, head) = (1 + m.difes.len(), m.header.len());

    let d = dib(m, &b)?;
    dib(m, &whole[..dibs])?;
    let i = match DataInformation::try_from(&d) {
        Ok(i) => i,
        Err(e) => fail!("data information refused: {e:?}"),
    };
    if let (Some(storage), Some(_)) = (m.storage, m.vif) {
        ensure!(
            (i.storage_number, i.tariff, i.device) == (storage, m.tariff, m.subunit),
            "storage {}, tariff {}, subunit {} instead of {storage}, {}, {}", i.storage_number, i.tariff, i.device, m.tariff, m.subunit
        );
        let function = [FunctionField::InstantaneousValue, FunctionField::MaximumValue, FunctionField::MinimumValue, FunctionField::ValueDuringErrorState][usize::from(m.dif >> 4 & 3)];
        ensure!(i.function_field == function, "function {:?} instead of {function:?}", i.function_field);
    }
    ensure!(i.data_field_coding == coding_of(m.dif), "coding {:?} instead of {:?}", i.data_field_coding, coding_of(m.dif));
    ensure!(i.size == dibs && i.get_size() == dibs, "data information of {} bytes instead of {dibs}", i.get_size());
    ensure!(i.data_information_extension.is_none(), "an extension is announced after the last DIFE");

    let v = match m.vif {
        None => None,
        Some(_) => {
            vib(m, &whole[dibs..head])?;
            Some(vib(m, &b[dibs..])?)
        }
    };
    ctx.class(match (&v, m.difes.is_empty(), m.vifes.is_empty(), &m.plain) {
        (None, ..) => "header: special function",
        (_, _, _, Some(_)) => "header: plain text unit",
        (_, true, true, _) => "header: DIF and VIF",
        (_, false, true, _) => "header: DIFEs",
        (_, true, false, _) => "header: VIFEs",
        _ => "header: DIFEs and VIFEs",
    });

    let raw = match RawDataRecordHeader::try_from(b.as_slice()) {
        Ok(r) => r,
        Err(e) => fail!("raw header refused: {e:?}"),
    };
    ensure!(raw.data_information_block == d && raw.value_information_block == v, "raw header {raw:?} instead of {d:?} and {v:?}");
    let processed = match ProcessedDataRecordHeader::try_from(&raw) {
        Ok(p) => p,
        Err(e) => fail!("header refused: {e:?}"),
    };
    let meaning = match v.as_ref().map(ValueInformation::try_from).transpose() {
        Ok(v) => v,
        Err(e) => fail!("value information refused: {e:?}"),
    };
    ensure!(processed.value_information == meaning, "value information {:?} instead of {meaning:?}", processed.value_information);
    let Some(p) = &processed.data_information else { fail!("header without data information") };
    let timed = DataInformation {
        data_field_coding: match m.coding {
            "Date (type G)" => DataFieldCoding::DateTypeG,
            "Time (type J)" => DataFieldCoding::DateTimeTypeJ,
            "Date and time (type F)" => DataFieldCoding::DateTimeTypeF,
            "Date and time (type I)" => DataFieldCoding::DateTimeTypeI,
            _ => i.data_field_coding,
        },
        ..i
    };
    ensure!(*p == timed, "data information {p:?} instead of {timed:?}");

    let record = match DataRecord::try_from(b.as_slice()) {
        Ok(r) => r,
        Err(e) => fail!("record refused: {e:?}"),
    };
    match DataRecordHeader::try_from(b.as_slice()) {
        Ok(h) => {
            ensure!(h.get_size() == head, "header of {} bytes instead of {head}", h.get_size());
            ensure!(h.raw_data_record_header == raw && h.processed_data_record_header == processed, "header {h:?} differs from its parts");
            ensure!(record.data_record_header == h, "record header {:?} instead of {h:?}", record.data_record_header);
        }
        Err(e) => fail!("header refused: {e:?}"),
    }
    ensure!(record.raw_bytes == whole && record.raw_bytes() == whole && record.get_size() == whole.len(), "record takes {} instead of {}", hex_sp(record.raw_bytes), hex_sp(&whole));
    ensure!(record.data.size == m.data.len() && record.data.get_size() == m.data.len(), "data of {} bytes instead of {}", record.data.size, m.data.len());
    ensure!(record.data_record_header_hex() == hex_sp(&m.header), "header text {} instead of {}", record.data_record_header_hex(), hex_sp(&m.header));
    ensure!(record.data_hex() == hex_sp(&m.data), "data text {} instead of {}", record.data_hex(), hex_sp(&m.data));
    ensure!(record.data_information() == processed.data_information.as_ref() && record.value_information() == meaning.as_ref(), "accessors differ from the header");
    // Real numbers may be NaN, which differs from itself.
    let same = |a: &DataRecord, b: &DataRecord| format!("{a:?}") == format!("{b:?}");
    ensure!(format!("{:?}", record.value()) == format!("{:?}", record.data.value.as_ref()), "value() differs from the data");
    match p.data_field_coding.parse(&b[head..], None) {
        Ok(data) => ensure!(format!("{data:?}") == format!("{:?}", record.data), "data alone reads as {data:?} instead of {:?}", record.data),
        Err(e) => fail!("data alone refused: {e:?}"),
    }
    let header = long_header();
    match DataRecord::try_from((b.as_slice(), &header)) {
        Ok(r) => ensure!(same(&r, &record), "with a header {r:?} instead of {record:?}"),
        Err(e) => fail!("refused with a header: {e:?}"),
    }
    let mut list = DataRecords::from(whole.as_slice());
    match list.next() {
        Some(Ok(r)) => ensure!(same(&r, &record), "in a list {r:?} instead of {record:?}"),
        other => fail!("in a list {other:?} instead of the record"),
    }
    ensure!(list.next().is_none(), "a second record in {}", hex_sp(&whole));
    let listed: Vec<DataRecord> = DataRecords::from((whole.as_slice(), &header)).into();
    ensure!(listed.len() == 1 && same(&listed[0], &record), "list with a header {listed:?} instead of {record:?}");
    if let Some(DataType::Text(t)) = &record.data.value {
        let text = m.data[1..].iter().rev().copied().collect::<Vec<u8>>();
        if let Ok(text) = std::str::from_utf8(&text) {
            ensure!(*t == *text, "text unit differs from {text:?}");
            ensure!(*t != *format!("{text}x") && (text.is_empty() || *t != text[..text.char_indices().last().map_or(0, |c| c.0)]), "text unit equals another text than {text:?}");
            let turned: String = text.chars().rev().collect();
            ensure!(turned == text || *t != *turned, "text unit equals {turned:?} turned round");
        }
    }
    Ok(())
}

fn refused(b: &[u8], wanted: DataRecordError) -> CheckResult {
    match DataRecord::try_from(b) {
        Err(e) if e == wanted => Ok(()),
        Err(e) => fail!("[{}] refused as {e:?} instead of {wanted:?}", hex_sp(b)),
        Ok(r) => fail!("[{}] accepted as {:?} instead of {wanted:?}", hex_sp(b), r.data),
    }
}

const SHORT: DataRecordError = DataRecordError::DataInformationError(DataInformationError::DataTooShort);

/// Every shorter beginning of the record is refused for the part it ends in.
fn cut(m: &Record, first: &[u8]) -> CheckResult {
    let b = m.bytes();
    if m.vif.is_none() {
        return Ok(());
    }
    let (dibs, head) = (1 + m.difes.len(), m.header.len());
    for n in 0..b.len() {
        let part = &b[..n];
        let wanted = if n == 0 {
            DataRecordError::DataInformationError(DataInformationError::NoData)
        } else if n < head {
            SHORT
        } else {
            DataRecordError::InsufficientData
        };
        refused(part, wanted)?;
        if n < dibs {
            let e = DataInformationBlock::try_from(part).map(|d| d.get_size());
            let why = if n == 0 { DataInformationError::NoData } else { DataInformationError::DataTooShort };
            ensure!(e == Err(why), "data information block [{}] gives {e:?} instead of {why:?}", hex_sp(part));
        } else if n < head {
            let e = ValueInformationBlock::try_from(&b[dibs..n]).map(|v| v.get_size());
            ensure!(e == Err(DataInformationError::DataTooShort), "value information block [{}] gives {e:?} instead of DataTooShort", hex_sp(&b[dibs..n]));
        }
        if n > 0 {
            let mut block = first.to_vec();
            block.extend(part);
            let mut list = DataRecords::from(block.as_slice());
            if !first.is_empty() {
                ensure!(matches!(list.next(), Some(Ok(_))), "[{}]: the first record is lost", hex_sp(&block));
            }
            match list.next() {
                Some(Err(e)) if e == wanted => {}
                other => fail!("[{}]: {other:?} in the list instead of {wanted:?}", hex_sp(&block)),
            }
            ensure!(list.position() == first.len(), "[{}]: position {} instead of {}", hex_sp(&block), list.position(), first.len());
            ensure!(list.next().is_none(), "[{}]: records after the refused one", hex_sp(&block));
        }
    }
    Ok(())
}

fn c39(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let kind = s.below(12);
    let after: Vec<u8> = match s.below(3) {
        0 => vec![],
        1 => vec![0x2F, 0x2F],
        _ => s.bytes(4),
    };
    let first: Vec<u8> = if s.chance(1, 2) { vec![0x01, 0x13, 0x05] } else { vec![] };
    let bytes = match kind {
        0 => {
            let n = s.range(0, 20);
            let mut b = vec![*s.pick(&[0x0F, 0x1F])];
            b.extend(s.bytes(n));
            b
        }
        1 => vec![0x7F],
        _ => gen::record(s, &gen::FULL),
    };
    let parsed = model::parse(&bytes);
    let (End::Complete, [m]) = (&parsed.end, parsed.records.as_slice()) else {
        ctx.class("left open");
        return Ok(());
    };
    ctx.sample(|| hex_sp(&bytes));
    ctx.nontrivial(&bytes);
    let why = |e: Fail| Fail::new(format!("[{}] followed by [{}]: {}", hex_sp(&bytes), hex_sp(&after), e.message));
    apart(m, &after, ctx).map_err(why)?;
    cut(m, &first).map_err(why)
}

fn texts() -> CheckResult {
    use DataInformationError as D;
    for (e, text) in [
        (D::NoData, "No data available"),
        (D::DataTooLong, "Data too long"),
        (D::DataTooShort, "Data too short"),
        (D::InvalidValueInformation, "Invalid value information"),
        (D::Unimplemented { feature: "a feature" }, "Unimplemented feature: a feature"),
    ] {
        ensure!(e.to_string() == text, "{e:?} reads {e} instead of {text}");
        let r = DataRecordError::from(e);
        ensure!(r == DataRecordError::DataInformationError(e), "{e:?} becomes {r:?}");
        ensure!(r.to_string() == text, "{r:?} reads {r} instead of {text}");
        let v = VariableUserDataError::from(r);
        ensure!(v == VariableUserDataError::DataInformationError(r) && v.to_string() == text, "{r:?} becomes {v:?}, which reads {v}");
        ensure!(m_bus_parser::MbusError::from(r).to_string() == text, "{r:?} as an error of the library differs from {text}");
    }
    let e = DataRecordError::InsufficientData;
    ensure!(e.to_string() == "Insufficient data", "{e:?} reads {e}");
    ensure!(VariableUserDataError::from(e).to_string() == "Insufficient data", "{e:?} wrapped reads {}", VariableUserDataError::from(e));
    Ok(())
}

/// Every code once, every chain length, and the limits.
fn limits(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    if shard == 0 {
        texts()?;
        for b in 0..=255u8 {
            ctx.evaluations += 1;
            let dif = DataInformationField::from(b);
            ensure!(dif.data == b && DataInformationFieldExtension::from(b).data == b, "byte {b:02X} becomes DIF {:02X}, DIFE {:02X}", dif.data, DataInformationFieldExtension::from(b).data);
            ensure!(dif.is_special_function() == (b & 0x0F == 0x0F), "DIF {b:02X} is special: {}", dif.is_special_function());
            ensure!(b & 0x0F != 0x0F || dif.special_function() == special_of(b), "DIF {b:02X} is {:?}", dif.special_function());
            let wanted = match b {
                0x7C | 0xFC => ValueInformationCoding::PlainText,
                0xFD => ValueInformationCoding::MainVIFExtension,
                0xFB => ValueInformationCoding::AlternateVIFExtension,
                0x7E | 0x7F | 0xFE | 0xFF => ValueInformationCoding::ManufacturerSpecific,
                _ => ValueInformationCoding::Primary,
            };
            let coding = ValueInformationCoding::from(&ValueInformationField { data: b });
            ensure!(coding == wanted, "VIF {b:02X} is {coding:?} instead of {wanted:?}");
        }
    }
    let mut blocks: Vec<(Vec<u8>, Option<DataRecordError>)> = vec![];
    const LONG: DataRecordError = DataRecordError::DataInformationError(DataInformationError::DataTooLong);
    const INVALID: DataRecordError = DataRecordError::DataInformationError(DataInformationError::InvalidValueInformation);
    // DIFE chains: ten are allowed, twelve and more are too many.
    for n in (1..=10).chain(12..=40) {
        for fill in [0x80u8, 0x81, 0x90, 0xC0, 0xFF] {
            for code in 0..15u8 {
                let mut b = vec![0x80 | code];
                b.extend(vec![fill; n - 1]);
                b.push(fill & 0x7F);
                b.extend([0x13, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00]);
                blocks.push((b, (n > 10).then_some(LONG)));
            }
        }
    }
    // VIFE chains: ten are allowed, eleven and more are refused.
    for n in 1..=40usize {
        for (vif, fill) in [(0x93u8, 0xBCu8), (0xFF, 0x80), (0xFF, 0xFF), (0xFE, 0x81), (0x83, 0xBC)] {
            let mut b = vec![0x04, vif];
            b.extend(vec![fill; n - 1]);
            b.push(fill & 0x7F);
            b.extend([0; 4]);
            blocks.push((b, (n > 10).then_some(INVALID)));
        }
    }
    // Plain text units of nine characters at most.
    for n in 0..=60u8 {
        for vifes in [vec![0x74u8], vec![0xBC, 0x74]] {
            let mut b = vec![0x02, 0xFC];
            let text: Vec<u8> = std::iter::once(n).chain((0..n).map(|i| 0x41 + i % 26)).collect();
            if model::plain_first() {
                b.extend(&text);
                b.extend(&vifes);
            } else {
                b.extend(&vifes);
                b.extend(&text);
            }
            b.extend([0x12, 0x34]);
            blocks.push((b, (n > 9).then_some(LONG)));
        }
    }
    // A digit above nine anywhere but the sign of the last byte.
    for (code, len) in [(9u8, 1usize), (10, 2), (11, 3), (12, 4), (14, 6)] {
        for place in 0..2 * len {
            for digit in 0xA..=0xFu8 {
                let mut b = vec![code, 0x13];
                b.extend(vec![0x11; len]);
                b[2 + place / 2] = if place % 2 == 0 { 0x10 | digit } else { digit << 4 | 1 };
                if model::bcd(&b[2..]).is_none() {
                    blocks.push((b, Some(INVALID)));
                }
            }
        }
    }
    for b in blocks.iter().skip(shard).step_by(shards) {
        let (b, wanted) = b;
        ctx.evaluations += 1;
        ctx.nontrivial(b);
        match wanted {
            Some(e) => {
                ctx.class("beyond a limit");
                refused(b, *e)?;
            }
            None => {
                let parsed = model::parse(b);
                let Some(m) = parsed.records.first() else { continue };
                ctx.class("within the limits");
                apart(m, &b[m.bytes().len()..], ctx).map_err(|e| Fail::new(format!("[{}]: {}", hex_sp(b), e.message)))?;
                cut(m, &[]).map_err(|e| Fail::new(format!("[{}]: {}", hex_sp(b), e.message)))?;
            }
        }
    }
    // Length bytes no data can have, whatever follows.
    for l in 0xF7..=0xFFu8 {
        let b: Vec<u8> = [0x0D, 0x13, l].into_iter().chain([0; 80]).collect();
        ctx.evaluations += 1;
        match DataRecord::try_from(b.as_slice()) {
            Err(DataRecordError::DataInformationError(DataInformationError::Unimplemented { .. })) => {}
            other => fail!("length byte {l:02X}: {:?} instead of an unimplemented feature", other.map(|r| r.data.size)),
        }
    }
    Ok(())
}

pub fn c39_property() -> Property {
    Property {
        id: "C39",
        rule: "Records of every coding with DIFE and VIFE chains, plain text units and special functions, alone and followed by fillers or other bytes, and every shorter beginning of them alone and in a list; every DIF, VIF, chain length, text length and wrong digit once; non-trivial: every distinct record.",
        both_builds: true,
        assumptions: &["the number of DIFEs between the ten of the standard and the limit of the parser is left open"],
        parts: vec![
            Part { name: "headers", kind: Kind::Random { quick: 1_200_000, thorough: 14_400_000, tape: (8, 90), f: c39 } },
            Part { name: "limits", kind: Kind::Exhaustive { f: limits } },
        ],
    }
}
