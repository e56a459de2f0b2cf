//! Record layer: C05 to C10, C19, C24.

use m_bus_parser::user_data::data_information::DataType;
use m_bus_parser::user_data::DataRecords;
use serde_json::{json, Value};

use crate::gen::{self, Frame, Hdr, Link};
use crate::model::{self, check_records, Aspect, End, Val};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::sut;
use crate::util::hex_sp;
use crate::vif;

pub fn decode_ok(bytes: &[u8]) -> Result<Value, Fail> {
    sut::decode(bytes, None).map_err(|e| Fail::new(format!("frame [{}] was refused: {} {e}", hex_sp(bytes), e.code())))
}

fn in_ctx<T>(what: &str, bytes: &[u8], r: Result<T, Fail>) -> Result<T, Fail> {
    r.map_err(|f| Fail { message: format!("{what} [{}]: {}", hex_sp(bytes), f.message), signature: f.signature })
}

/// Compares the canonical records of a frame with the model of its block.
fn frame_vs_model(f: &Frame, aspects: &[Aspect]) -> Result<model::Parse, Fail> {
    let bytes = f.bytes();
    let p = model::parse(&f.block);
    let v = decode_ok(&bytes)?;
    in_ctx("frame", &bytes, check_records(&p, sut::records(&v), aspects))?;
    Ok(p)
}

/// Compares the stand-alone decode of a block with the model.
fn standalone_vs_model(block: &[u8], aspects: &[Aspect]) -> Result<model::Parse, Fail> {
    let p = model::parse(block);
    let r = sut::standalone(block);
    in_ctx("block", block, compare_standalone(&p, block, r, aspects))?;
    Ok(p)
}

fn compare_standalone(p: &model::Parse, block: &[u8], r: Result<Vec<Value>, m_bus_parser::OutputError>, aspects: &[Aspect]) -> CheckResult {
    match (&p.end, r) {
        (_, Err(e)) if block.is_empty() => ensure_eq!(e.code(), "input.empty", "error of an empty block"),
        (End::Complete, Ok(recs)) => check_records(p, &recs, aspects)?,
        (End::Complete, Err(e)) => fail!("complete block refused: {} {e}", e.code()),
        (End::Bad(_), Err(e)) => ensure_eq!(e.code(), "application.records_invalid", "error code"),
        (End::Bad(at), Ok(recs)) => fail!("record at offset {at} cannot be decoded, but {} records were returned", recs.len()),
        (End::Open(_), Ok(recs)) => check_records(p, &recs, aspects)?,
        (End::Open(_), Err(_)) => {}
    }
    Ok(())
}

/// Low-level iteration: boundaries of each record.
fn low_level_vs_model(block: &[u8]) -> CheckResult {
    let p = model::parse(block);
    let mut it = DataRecords::new(block, None);
    for (i, m) in p.records.iter().enumerate() {
        match it.next() {
            Some(Ok(r)) => {
                if m.dif != 0x7F {
                    ensure_eq!(hex_sp(r.raw_bytes()), hex_sp(&m.bytes()), "bytes of low-level record {i}");
                    ensure_eq!(r.data_record_header_hex(), hex_sp(&m.header), "header of low-level record {i}");
                    ensure_eq!(r.data_hex(), hex_sp(&m.data), "data of low-level record {i}");
                }
                ensure_eq!(it.position(), m.offset + m.bytes().len(), "position after low-level record {i}");
            }
            Some(Err(e)) => fail!("low-level record {i} [{}] refused: {e:?}", hex_sp(&m.bytes())),
            None => fail!("low-level iteration ended before record {i} [{}]", hex_sp(&m.bytes())),
        }
    }
    match p.end {
        End::Complete => ensure!(it.next().is_none(), "low-level iteration yields more than {} records", p.records.len()),
        End::Bad(at) => {
            match it.next() {
                Some(Err(_)) => {}
                other => fail!("low-level iteration at the undecodable record (offset {at}) gave {other:?}"),
            }
            ensure_eq!(it.position(), at, "position after the undecodable record");
            ensure!(it.next().is_none(), "low-level iteration continues after an error");
        }
        End::Open(_) => {}
    }
    Ok(())
}

fn classify(ctx: &mut Ctx, p: &model::Parse) {
    ctx.class(match p.records.len() {
        0 => "0 records",
        1 => "1 record",
        2..=4 => "2-4 records",
        _ => "5+ records",
    });
    for r in &p.records {
        ctx.class(&format!("coding: {}", r.coding));
        if r.difes.len() > 2 {
            ctx.class("3+ DIFEs");
        }
        if r.vifes.len() > 2 {
            ctx.class("3+ VIFEs");
        }
        if r.plain.is_some() {
            ctx.class("plain text unit");
        }
    }
    if p.fillers > 0 {
        ctx.class("fillers");
    }
    match p.end {
        End::Bad(_) => ctx.class("undecodable record"),
        End::Open(_) => ctx.class("open end"),
        End::Complete => {}
    }
}

// ------------------------------------------------------------------ C05

fn check_partition(block: &[u8], v: &[Value]) -> CheckResult {
    // Put the pieces back together, skipping fillers only between records.
    let mut pos = 0;
    for (i, r) in v.iter().enumerate() {
        while block.get(pos) == Some(&0x2F) {
            pos += 1;
        }
        let piece = crate::util::unhex(&format!("{}{}", r["header_hex"].as_str().unwrap_or(""), r["data_hex"].as_str().unwrap_or("")));
        let have = block.get(pos..pos + piece.len());
        ensure!(have == Some(&piece[..]), "record {i} [{}] does not lie at offset {pos} of the block", hex_sp(&piece));
        pos += piece.len();
    }
    while block.get(pos) == Some(&0x2F) {
        pos += 1;
    }
    ensure_eq!(pos, block.len(), "bytes covered by records and fillers");
    Ok(())
}

fn c05_frames(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let f = gen::clear_frame(s, &gen::FULL, 14);
    if f.ambiguous() {
        return Ok(());
    }
    ctx.sample(|| hex_sp(&f.bytes()));
    let p = frame_vs_model(&f, &[Aspect::Bytes])?;
    if p.end != End::Complete {
        ctx.class("open frame");
        return Ok(());
    }
    let v = decode_ok(&f.bytes())?;
    in_ctx("frame", &f.bytes(), check_partition(&f.block, sut::records(&v)))?;
    ensure_eq!(v["decode_state"], "complete", "decode state of [{}]", hex_sp(&f.bytes()));
    classify(ctx, &p);
    if p.records.len() >= 2 {
        ctx.nontrivial(&f.block);
    }
    Ok(())
}

fn c05_truncate(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let recs = gen::records(s, &gen::FULL, 5, 220);
    let block = gen::join(s, &recs, 220);
    if block.is_empty() {
        return Ok(());
    }
    ctx.sample(|| hex_sp(&block));
    // Every truncation point, or a sample of them in longer blocks.
    let cuts: Vec<usize> = if block.len() <= 24 { (0..=block.len()).collect() } else { (0..16).map(|_| s.below(block.len() + 1)).collect() };
    let hdr = Hdr::Short(0x7A, gen::short(s));
    for cut in cuts {
        let b = &block[..cut];
        let p = standalone_vs_model(b, &[Aspect::Bytes])?;
        in_ctx("block", b, low_level_vs_model(b))?;
        let f = Frame { link: Link::Wired { c: 8, a: 1 }, hdr: hdr.clone(), block: b.to_vec() };
        frame_vs_model(&f, &[Aspect::Bytes])?;
        classify(ctx, &p);
        if matches!(p.end, End::Bad(_)) {
            ctx.nontrivial(b);
        }
    }
    Ok(())
}

fn c05_bytes(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let block = mutated_block(s);
    if block.is_empty() {
        return Ok(());
    }
    ctx.sample(|| hex_sp(&block));
    let p = standalone_vs_model(&block, &[Aspect::Bytes])?;
    in_ctx("block", &block, low_level_vs_model(&block))?;
    classify(ctx, &p);
    if !p.records.is_empty() {
        ctx.nontrivial(&block);
    }
    Ok(())
}

/// Random bytes, or records with a few bytes changed, removed or added.
pub fn mutated_block(s: &mut Source) -> Vec<u8> {
    if s.chance(1, 4) {
        let n = s.range(0, 60);
        return (0..n).map(|_| s.edgy_byte()).collect();
    }
    let mut b = gen::block(s, &gen::FULL, 6, 200);
    for _ in 0..s.range(1, 4) {
        if b.is_empty() {
            break;
        }
        let i = s.below(b.len());
        match s.below(5) {
            0 => b[i] = s.byte(),
            1 => b[i] ^= 1 << s.below(8),
            2 => {
                b.remove(i);
            }
            3 => b.insert(i, s.edgy_byte()),
            _ => b.truncate(i),
        }
    }
    b
}

/// Every data field code with every announced variable length.
fn c05_lengths(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    for code in 0..15u8 {
        for lvar in 0..=255u8 {
            if (usize::from(code) * 256 + usize::from(lvar)) % shards != shard || (code != 13 && lvar > 0) {
                continue;
            }
            for vif in [0x13u8, 0x6C, 0x6D, 0x78] {
                let mut rec = vec![code, vif];
                if code == 13 {
                    rec.push(lvar);
                }
                rec.extend(std::iter::repeat(0x11).take(300));
                // The next record starts right after the announced length.
                let p = model::parse(&rec);
                ctx.evaluations += 1;
                let Some(first) = p.records.first() else {
                    ensure!(sut::standalone(&rec).is_err(), "[{}] reserved length accepted", hex_sp(&rec[..6]));
                    continue;
                };
                let mut block = first.bytes();
                let n = block.len();
                block.extend([0x01, 0x13, 0x05]);
                standalone_vs_model(&block, &[Aspect::Bytes])?;
                in_ctx("block", &block, low_level_vs_model(&block))?;
                ctx.nontrivial(&block);
                for cut in [n - 1, n] {
                    if cut >= 1 {
                        standalone_vs_model(&block[..cut], &[Aspect::Bytes])?;
                        in_ctx("block", &block[..cut], low_level_vs_model(&block[..cut]))?;
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "Record blocks are built from all data field codes with up to 10 DIFEs and VIFEs, fillers, manufacturer data and truncations; a case is non-trivial when it has at least two records (frames), a cut inside a record (truncations) or at least one record (mutated bytes).",
        both_builds: true,
        assumptions: &[
            "reserved DIFs xFh, more than 10 DIFEs or VIFEs, plain text longer than 9 characters, reserved VIFs 6Fh/7Dh and VIF 7Ch in the default build are left open",
        ],
        parts: vec![
            Part { name: "frames", kind: Kind::Random { quick: 288_000, thorough: 3_456_000, tape: (10, 260), f: c05_frames } },
            Part { name: "truncations", kind: Kind::Random { quick: 64_000, thorough: 768_000, tape: (10, 160), f: c05_truncate } },
            Part { name: "mutated bytes", kind: Kind::Random { quick: 480_000, thorough: 5_760_000, tape: (10, 200), f: c05_bytes } },
            Part { name: "all lengths", kind: Kind::Exhaustive { f: c05_lengths } },
        ],
    }
}

// ------------------------------------------------------------------ C06

fn low_level_dif(block: &[u8]) -> CheckResult {
    let p = model::parse(block);
    let it = DataRecords::new(block, None);
    for (i, (m, r)) in p.records.iter().zip(it).enumerate() {
        let Ok(r) = r else { fail!("low-level record {i} refused") };
        if m.special() {
            continue;
        }
        let Some(d) = r.data_information() else { fail!("low-level record {i} has no data information") };
        ensure_eq!(d.storage_number, m.storage.unwrap_or(0), "low-level storage number of record {i}");
        ensure_eq!(d.tariff, m.tariff, "low-level tariff of record {i}");
        ensure_eq!(d.device, m.subunit, "low-level subunit of record {i}");
        let want = ["Inst", "Max", "Min", "Value During Error State"][usize::from(m.dif >> 4 & 3)];
        ensure_eq!(d.function_field.to_string(), want, "low-level function of record {i}");
    }
    Ok(())
}

fn c06_random(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    // Same DIF chain under two unrelated value informations and data.
    let n = s.below(11);
    let difes: Vec<u8> = (0..n).map(|i| (s.edgy_byte() & 0x7F) | if i + 1 < n { 0x80 } else { 0 }).collect();
    let upper = (s.byte() & 7) << 4 | if n > 0 { 0x80 } else { 0 };
    let mut block = vec![];
    for _ in 0..2 {
        let code = (s.raw() % 15) as u8;
        let (v, vifes) = gen::vib(s, &gen::SHORT);
        block.push(upper | code);
        block.extend(&difes);
        block.push(v);
        block.extend(vifes);
        block.extend(gen::data_for(s, code, &gen::SHORT));
    }
    ctx.sample(|| hex_sp(&block));
    let p = standalone_vs_model(&block, &[Aspect::Dif])?;
    in_ctx("block", &block, low_level_dif(&block))?;
    let f = Frame { link: gen::link(s), hdr: gen::clear_header(s), block };
    if f.app().len() <= f.link.room() && !f.ambiguous() {
        frame_vs_model(&f, &[Aspect::Dif])?;
    }
    ctx.class(&format!("{n:02} DIFEs"));
    if p.records.len() == 2 && p.records[0].storage == p.records[1].storage && n > 0 {
        ctx.nontrivial(&(upper, &difes));
    }
    Ok(())
}

fn c06_exhaustive(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    for dif in 0..=255u8 {
        if dif & 15 == 15 || usize::from(dif) % shards != shard {
            continue;
        }
        let data: Vec<u8> = match dif & 15 {
            13 => vec![0x02, b'a', b'b'],
            c => vec![0x12; [0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6][usize::from(c)]],
        };
        let chains: Vec<Vec<u8>> = if dif & 0x80 == 0 {
            vec![vec![]]
        } else {
            let mut c: Vec<Vec<u8>> = (0..128u8).map(|d| vec![d]).collect();
            // Walking values at every position of a chain of ten.
            for pos in 0..10usize {
                for v in [0x01u8, 0x08, 0x0F, 0x10, 0x20, 0x30, 0x40, 0x7F] {
                    let mut chain = vec![0x80u8; 10];
                    chain[pos] |= v;
                    chain[9] &= 0x7F;
                    c.push(chain);
                }
            }
            c
        };
        for chain in chains {
            let mut b = vec![dif];
            b.extend(&chain);
            b.push(0x13);
            b.extend(&data);
            ctx.evaluations += 1;
            ctx.nontrivial(&b);
            standalone_vs_model(&b, &[Aspect::Dif])?;
            in_ctx("block", &b, low_level_dif(&b))?;
        }
    }
    Ok(())
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "DIF chains of 0..10 extension bytes under unrelated value informations and data; non-trivial: at least one DIFE (random part), every enumerated chain (exhaustive part).",
        both_builds: false,
        assumptions: &["chains of more than ten DIFEs and the storage number of a global readout request are left open"],
        parts: vec![
            Part { name: "random chains", kind: Kind::Random { quick: 720_000, thorough: 8_640_000, tape: (10, 80), f: c06_random } },
            Part { name: "enumerated chains", kind: Kind::Exhaustive { f: c06_exhaustive } },
        ],
    }
}

// ------------------------------------------------------------------ C07

fn c07_random(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let o = gen::RecOpts { long: true, ..gen::SHORT };
    let code = *s.pick(&[1u8, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14]);
    let (v, vifes) = gen::vib(s, &o);
    let mut rec = vec![code, v];
    rec.extend(vifes);
    if code == 13 {
        let kind = s.below(4);
        let n;
        match kind {
            0 => {
                n = s.range(0, 9);
                rec.push(0xC0 + n as u8);
            }
            1 => {
                n = s.range(0, 9);
                rec.push(0xD0 + n as u8);
            }
            2 => {
                n = s.range(0, 15);
                rec.push(0xE0 + n as u8);
            }
            _ => {
                let l = 0xF0 + s.below(7) as u8;
                n = match l {
                    0xF5 => 48,
                    0xF6 => 64,
                    _ => 4 * usize::from(l - 0xEC),
                };
                rec.push(l);
            }
        }
        if kind < 2 {
            rec.extend(gen::bcd(s, n));
        } else {
            let grown = s.grown(3 * n);
            let mut s = Source::new(&grown);
            rec.extend((0..n).map(|_| s.edgy_byte()));
        }
    } else {
        rec.extend(gen::data_for(s, code, &o));
    }
    ctx.sample(|| hex_sp(&rec));
    let p = standalone_vs_model(&rec, &[Aspect::Value])?;
    let f = Frame { link: gen::link(s), hdr: gen::clear_header(s), block: rec.clone() };
    if !f.ambiguous() {
        frame_vs_model(&f, &[Aspect::Value])?;
    }
    if let Some(r) = p.records.first() {
        ctx.class(r.coding);
        match &r.value {
            Val::Decimal(d) => {
                ctx.class(if d.starts_with('-') { "negative" } else { "non-negative" });
                if d.len() > 18 {
                    ctx.class("more than 17 digits");
                }
                if d.contains('.') {
                    ctx.class("fraction");
                }
                if r.info.as_ref().is_some_and(|i| i.offset.is_some()) {
                    ctx.class("additive correction");
                }
                if d != "0" {
                    ctx.nontrivial(&rec);
                }
            }
            Val::Float(_) => ctx.nontrivial(&rec),
            _ => {}
        }
    }
    Ok(())
}

fn c07_bad_bcd(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (code, n) = *s.pick(&[(9u8, 1usize), (10, 2), (11, 3), (12, 4), (14, 6), (13, 0)]);
    let (v, vifes) = gen::vib(s, &gen::SHORT);
    let mut rec = vec![code, v];
    rec.extend(vifes);
    let n = if code == 13 {
        let n = s.range(1, 9);
        rec.push(*s.pick(&[0xC0, 0xD0]) + n as u8);
        n
    } else {
        n
    };
    let start = rec.len();
    rec.extend(gen::bcd(s, n));
    let i = start + s.below(n);
    let digit = s.range(10, 15) as u8;
    rec[i] = if s.chance(1, 2) { rec[i] & 0x0F | digit << 4 } else { rec[i] & 0xF0 | digit };
    ctx.sample(|| hex_sp(&rec));
    ctx.nontrivial(&rec);
    let f = Frame { link: Link::Wired { c: 8, a: 1 }, hdr: Hdr::None, block: rec.clone() };
    let v = decode_ok(&f.bytes())?;
    for r in sut::records(&v) {
        ensure!(
            !matches!(r["value"]["kind"].as_str(), Some("decimal" | "float")),
            "[{}]: non-decimal digit reported as number {}",
            hex_sp(&rec),
            r["value"]
        );
    }
    if let Ok(recs) = sut::standalone(&rec) {
        for r in &recs {
            ensure!(!matches!(r["value"]["kind"].as_str(), Some("decimal" | "float")), "[{}]: non-decimal digit reported as number {}", hex_sp(&rec), r["value"]);
        }
    }
    Ok(())
}

/// Every 8- and 16-bit pattern and every 2- and 4-digit BCD number, over the
/// scales of one energy and one volume family.
fn c07_exhaustive(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    for raw in 0..=0xFFFFu32 {
        if raw as usize % shards != shard {
            continue;
        }
        let b = (raw as u16).to_le_bytes();
        let vif = (raw.wrapping_mul(7) % 0x70) as u8;
        let vif = if vif == 0x6F || vif == 0x6C || vif == 0x6D { 0x13 } else { vif };
        let mut recs = vec![vec![0x02, vif, b[0], b[1]], vec![0x0A, vif, b[0], b[1]]];
        if raw < 256 {
            for v in 0..0x6C {
                recs.push(vec![0x01, v, b[0]]);
                recs.push(vec![0x09, v, b[0]]);
            }
        }
        for rec in recs {
            ctx.evaluations += 1;
            standalone_vs_model(&rec, &[Aspect::Value])?;
            if b[0] != 0 {
                ctx.nontrivial(&rec);
            }
        }
    }
    Ok(())
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "Single numeric records over all codings, value informations and correction extensions; expected decimals come from own big-number arithmetic; non-trivial: the expected value is not zero, is a real, or the record carries a non-decimal BCD digit.",
        both_builds: false,
        assumptions: &["two additive corrections in one record, and data declared manufacturer specific by VIFE FFh, are left open"],
        parts: vec![
            Part { name: "random numbers", kind: Kind::Random { quick: 1_440_000, thorough: 17_280_000, tape: (10, 60), f: c07_random } },
            Part { name: "bad digits", kind: Kind::Random { quick: 120_000, thorough: 1_440_000, tape: (10, 40), f: c07_bad_bcd } },
            Part { name: "enumerated numbers", kind: Kind::Exhaustive { f: c07_exhaustive } },
        ],
    }
}

// ------------------------------------------------------------------ C08

fn c08_one(vif: u8, vifes: &[u8], ctx: &mut Ctx) -> CheckResult {
    let mut rec = vec![0x04, vif];
    rec.extend(vifes);
    rec.extend([0xD2, 0x04, 0x00, 0x00]);
    ctx.evaluations += 1;
    match vif::lookup(vif, vifes) {
        vif::Vib::Known(_) => {
            standalone_vs_model(&rec, &[Aspect::Meaning, Aspect::Value])?;
            ctx.nontrivial(&rec);
        }
        vif::Vib::Invalid => {
            // Error, or a record without a quantity of another code.
            if let Ok(recs) = sut::standalone(&rec) {
                let r = &recs[0];
                let q = r["quantities"].as_array().cloned().unwrap_or_default();
                ensure!(
                    q.iter().all(|x| matches!(x.as_str(), Some("Reserved" | "Invalid"))) && r["unit"].is_null(),
                    "reserved code [{}] reported as {} {}",
                    hex_sp(&rec),
                    r["quantities"],
                    r["unit"]
                );
            }
            ctx.class("reserved");
        }
    }
    Ok(())
}

fn c08_exhaustive(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    // Base codes: (vif, first extensions) without the extension bit on the last byte.
    let mut bases: Vec<Vec<u8>> = (0..0x80u8).filter(|v| !matches!(v, 0x7B | 0x7C)).map(|v| vec![v]).collect();
    for c in 0..0x80u8 {
        if c != 0x7D {
            bases.push(vec![0xFD, c]);
        }
        bases.push(vec![0xFD, 0xFD, c]);
        bases.push(vec![0xFB, c]);
    }
    for (i, b) in bases.iter().enumerate() {
        if i % shards != shard {
            continue;
        }
        c08_one(b[0], &b[1..], ctx)?;
        let mut ext = b.clone();
        *ext.last_mut().unwrap() |= 0x80;
        for e in 0..0x80u8 {
            let mut v = ext.clone();
            v.push(e);
            c08_one(v[0], &v[1..], ctx)?;
            let mut v = ext.clone();
            v.extend([0xFC, e]);
            c08_one(v[0], &v[1..], ctx)?;
        }
    }
    Ok(())
}

fn c08_random(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (v, vifes) = gen::vib(s, &gen::SHORT);
    ctx.sample(|| format!("VIF {v:02X}, VIFEs {}", hex_sp(&vifes)));
    ctx.class(&format!("{} VIFEs", vifes.len()));
    let mut rec = vec![*s.pick(&[0x01u8, 0x02, 0x04, 0x0C, 0x05, 0x00]), v];
    let code = rec[0];
    rec.extend(&vifes);
    rec.extend(gen::data_for(s, code, &gen::SHORT));
    standalone_vs_model(&rec, &[Aspect::Meaning, Aspect::Value])?;
    let f = Frame { link: gen::link(s), hdr: gen::clear_header(s), block: rec.clone() };
    if !f.ambiguous() {
        frame_vs_model(&f, &[Aspect::Meaning, Aspect::Value])?;
    }
    if vifes.len() >= 2 {
        ctx.nontrivial(&(v, vifes));
    }
    Ok(())
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        rule: "All primary, FDh and FBh codes alone and with every single combinable extension and every FCh extension (enumerated), plus random combinations; expectations come from a table written from EN 13757-3; non-trivial: enumerated cases with a known meaning, random cases with at least two extension bytes.",
        both_builds: false,
        assumptions: &[
            "names of quantities and units are those the library uses for the standard's entries",
            "VIF 7Bh, plain text units (C10), VIFE FFh and repeated FCh are left open; reserved VIFs may be refused or unlabelled",
        ],
        parts: vec![
            Part { name: "tables", kind: Kind::Exhaustive { f: c08_exhaustive } },
            Part { name: "combinations", kind: Kind::Random { quick: 720_000, thorough: 8_640_000, tape: (6, 40), f: c08_random } },
        ],
    }
}

// ------------------------------------------------------------------ C09

fn c09_one(rec: &[u8]) -> Result<model::Parse, Fail> {
    let p = standalone_vs_model(rec, &[Aspect::Value, Aspect::Bytes])?;
    // A component coded as every or invalid never becomes part of a concrete date.
    Ok(p)
}

fn c09_exhaustive(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    for raw in 0..=0xFFFFu32 {
        if raw as usize % shards != shard {
            continue;
        }
        let b = (raw as u16).to_le_bytes();
        let other = (raw.wrapping_mul(2_654_435_761) >> 7).to_le_bytes();
        for rec in [
            vec![0x02, 0x6C, b[0], b[1]],
            vec![0x04, 0x6D, other[0], other[1], b[0], b[1]],
            vec![0x04, 0x6D, b[0], b[1], 0x21, 0x35],
            vec![0x06, 0x6D, other[0], other[1], other[2], b[0], b[1], other[3]],
            vec![0x06, 0x6D, b[0], b[1], 0x0A, 0x21, 0x35, 0x00],
            vec![0x06, 0x6D, 0x11, b[0], b[1], 0x21, 0x35, 0x00],
            vec![0x03, 0x6D, b[0], b[1], other[0] & 0x1F],
            vec![0x03, 0x6D, other[0] & 0x3F, b[0], b[1]],
        ] {
            ctx.evaluations += 1;
            c09_one(&rec)?;
            ctx.nontrivial(&rec);
        }
    }
    Ok(())
}

fn c09_random(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (code, vif, n) = *s.pick(&[(2u8, 0x6Cu8, 2usize), (4, 0x6D, 4), (3, 0x6D, 3), (6, 0x6D, 6)]);
    let mut difes = gen::dif_chain(s, false);
    let mut rec = vec![code | (s.byte() & 7) << 4 | if difes.is_empty() { 0 } else { 0x80 }];
    rec.append(&mut difes);
    if s.chance(1, 4) {
        rec.extend([vif | 0x80, *s.pick(&[0x13, 0x39, 0x7E, 0x42])]);
    } else {
        rec.push(vif);
    }
    rec.extend((0..n).map(|_| s.edgy_byte()));
    ctx.sample(|| hex_sp(&rec));
    let p = c09_one(&rec)?;
    let f = Frame { link: gen::link(s), hdr: gen::clear_header(s), block: rec.clone() };
    if !f.ambiguous() {
        frame_vs_model(&f, &[Aspect::Value, Aspect::Bytes])?;
    }
    if let Some(r) = p.records.first() {
        ctx.class(r.coding);
        let complete = model::temporal_json(&r.value).is_some_and(|(_, v)| v.is_string());
        ctx.class(if complete { "complete" } else { "with every/invalid part" });
        ctx.nontrivial(&rec);
        in_ctx("record", &rec, low_level_date(&rec, &r.value))?;
    }
    Ok(())
}

/// Low-level value against the model.
fn low_level_date(rec: &[u8], want: &Val) -> CheckResult {
    use model::Comp;
    use m_bus_parser::user_data::data_information::SingleEveryOrInvalid as S;
    fn num<T: Copy + Into<u16>>(c: &S<T>) -> Comp {
        match c {
            S::Single(x) => Comp::Single((*x).into()),
            S::Every() => Comp::Every,
            _ => Comp::Invalid,
        }
    }
    fn month(c: &S<m_bus_parser::user_data::data_information::Month>) -> Comp {
        match c {
            S::Single(m) => Comp::Single(*m as u16 + 1),
            S::Every() => Comp::Every,
            _ => Comp::Invalid,
        }
    }
    let Some(Ok(r)) = DataRecords::new(rec, None).next() else { fail!("low-level record refused") };
    let got = match r.value() {
        Some(DataType::Date(d, m, y)) => Val::Date { day: num(d), month: month(m), year: num(y) },
        Some(DataType::Time(s, m, h)) => Val::Time { hour: num(h), minute: num(m), second: num(s) },
        Some(DataType::DateTime(d, m, y, h, mi)) => {
            Val::DateTime { day: num(d), month: month(m), year: num(y), hour: num(h), minute: num(mi), second: None }
        }
        Some(DataType::DateTimeWithSeconds(d, m, y, h, mi, s)) => {
            Val::DateTime { day: num(d), month: month(m), year: num(y), hour: num(h), minute: num(mi), second: Some(num(s)) }
        }
        other => fail!("low-level value {other:?} is not a date or time"),
    };
    ensure_eq!(&got, want, "low-level date or time");
    Ok(())
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: "All 65536 type G patterns, all 16-bit halves of types F, I and J (enumerated), and random full patterns with DIFEs and extensions; every case carries a date or time and counts once per distinct record.",
        both_builds: false,
        assumptions: &["status bits outside the calendar fields (IV, summer time, hundred year, week) are ignored, as the library does", "hours 24..30 and minutes or seconds 60..62 are reported as coded"],
        parts: vec![
            Part { name: "enumerated", kind: Kind::Exhaustive { f: c09_exhaustive } },
            Part { name: "random", kind: Kind::Random { quick: 480_000, thorough: 5_760_000, tape: (6, 40), f: c09_random } },
        ],
    }
}

// ------------------------------------------------------------------ C10

fn c10_text(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let t = gen::text(s, &gen::TEXTY);
    let (v, vifes) = gen::vib(s, &gen::SHORT);
    let mut rec = vec![0x0D, v];
    rec.extend(vifes);
    rec.push(t.len() as u8);
    rec.extend(t.iter().rev());
    ctx.sample(|| hex_sp(&rec));
    let mut block = rec.clone();
    block.extend([0x01, 0x13, 0x2A]);
    standalone_vs_model(&block, &[Aspect::Value, Aspect::Bytes])?;
    let f = Frame { link: gen::link(s), hdr: gen::clear_header(s), block: block.clone() };
    if f.app().len() <= f.link.room() && !f.ambiguous() {
        frame_vs_model(&f, &[Aspect::Value, Aspect::Bytes])?;
    }
    // Low-level text.
    let Some(Ok(r)) = DataRecords::new(&rec, None).next() else { fail!("[{}] refused", hex_sp(&rec)) };
    let Some(DataType::Text(u)) = r.value() else { fail!("[{}]: low-level value is no text: {:?}", hex_sp(&rec), r.value()) };
    let rev: Vec<u8> = t.iter().rev().copied().collect();
    ensure_eq!(u.to_string(), model::text(&rev), "low-level text of [{}]", hex_sp(&rec));
    ctx.class(if std::str::from_utf8(&t).is_err() {
        "Latin-1"
    } else if t.is_ascii() {
        "ASCII"
    } else {
        "UTF-8"
    });
    if !t.is_empty() {
        ctx.nontrivial(&t);
    }
    Ok(())
}

fn c10_plain(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (vib, text, vifes) = gen::plain_vib(s, model::plain_first());
    let code = (s.raw() % 15) as u8;
    let difes = gen::dif_chain(s, false);
    let dif = code | (s.byte() & 7) << 4 | if difes.is_empty() { 0 } else { 0x80 };
    let data = gen::data_for(s, code, &gen::SHORT);
    let mut rec = vec![dif];
    rec.extend(&difes);
    rec.extend(&vib);
    rec.extend(&data);
    let mut block = rec.clone();
    let next = gen::record(s, &gen::SHORT);
    block.extend(&next);
    ctx.sample(|| hex_sp(&block));
    standalone_vs_model(&block, model::ALL)?;
    let f = Frame { link: gen::link(s), hdr: gen::clear_header(s), block: block.clone() };
    if f.app().len() <= f.link.room() && !f.ambiguous() {
        frame_vs_model(&f, model::ALL)?;
    }
    let Some(Ok(r)) = DataRecords::new(&rec, None).next() else { fail!("[{}] refused", hex_sp(&rec)) };
    let b = r.data_record_header.raw_data_record_header.value_information_block.as_ref();
    let got: Option<String> = b.and_then(|b| b.plaintext_vife.as_ref()).map(|t| t.iter().collect());
    let want: String = text.iter().map(|b| char::from(*b)).collect();
    ensure_eq!(got, Some(want), "plain text unit of [{}]", hex_sp(&rec));
    // The same record with a longer or shorter text, and with a different position, differs in nothing else.
    let mut other = vec![dif];
    other.extend(&difes);
    other.push(0xFC);
    if model::plain_first() {
        other.extend([1, b'x']);
        other.extend(&vifes);
    } else {
        other.extend(&vifes);
        other.extend([1, b'x']);
    }
    other.extend(&data);
    other.extend(&next);
    let strip = |mut v: Value| {
        v.as_object_mut().unwrap().remove("header_hex");
        v
    };
    let a = sut::standalone(&block).map_err(|e| Fail::new(format!("[{}]: {e}", hex_sp(&block))))?;
    let b = sut::standalone(&other).map_err(|e| Fail::new(format!("[{}]: {e}", hex_sp(&other))))?;
    ensure_eq!(a.len(), b.len(), "number of records with another plain text");
    for (i, (x, y)) in a.into_iter().zip(b).enumerate() {
        let (x, y) = if i == 0 { (strip(x), strip(y)) } else { (x, y) };
        ensure_eq!(x, y, "record {i} of [{}] with another plain text", hex_sp(&block));
    }
    ctx.class(&format!("plain text of {} characters", text.len()));
    ctx.nontrivial(&rec);
    Ok(())
}

/// VIF 7Ch, which has no extension: the text follows the VIF.
fn c10_plain_7c(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let n = s.range(1, 9);
    let text = s.bytes(n);
    let code = (s.raw() % 13) as u8;
    let data = gen::data_for(s, code, &gen::SHORT);
    let mut rec = vec![code, 0x7C, n as u8];
    rec.extend(&text);
    rec.extend(&data);
    let mut block = rec.clone();
    block.extend([0x01, 0x13, 0x2A]);
    ctx.sample(|| hex_sp(&block));
    let p = model::parse_with(&block, true);
    ctx.nontrivial(&block);
    let r = sut::standalone(&block);
    let ok = compare_standalone(&p, &block, r, model::ALL).and_then(|()| {
        let Some(Ok(r)) = DataRecords::new(&rec, None).next() else { fail!("[{}] refused", hex_sp(&rec)) };
        let b = r.data_record_header.raw_data_record_header.value_information_block.as_ref();
        let got: Option<String> = b.and_then(|b| b.plaintext_vife.as_ref()).map(|t| t.iter().collect());
        let want: String = text.iter().map(|b| char::from(*b)).collect();
        ensure_eq!(got, Some(want), "plain text unit of [{}]", hex_sp(&rec));
        Ok(())
    });
    if let Err(e) = ok {
        // The listed finding: the text is not taken out at all.
        let known = !model::plain_first() && {
            let got = DataRecords::new(&block, None).next();
            let no_text = |r: &m_bus_parser::user_data::DataRecord| {
                r.data_record_header_hex() == hex_sp(&[code, 0x7C])
                    && r.data_record_header
                        .raw_data_record_header
                        .value_information_block
                        .as_ref()
                        .is_some_and(|b| b.plaintext_vife.is_none())
            };
            match got {
                Some(Ok(r)) => no_text(&r) && r.data_hex() == hex_sp(&block[2..2 + data.len()]),
                // BCD codings may trip over the text bytes.
                Some(Err(_)) => matches!(code, 9..=12),
                None => false,
            }
        };
        if known {
            return Err(Fail::signed("plain-text-vif-7c", e.message));
        }
        return Err(e);
    }
    Ok(())
}

fn c10_lengths(shard: usize, shards: usize, ctx: &mut Ctx) -> CheckResult {
    for n in 0..=191usize {
        if n % shards != shard {
            continue;
        }
        for style in 0..4 {
            let t: Vec<u8> = (0..n)
                .map(|i| match style {
                    0 => b'A' + (i % 26) as u8,
                    1 => 0x80 + (i % 128) as u8,
                    2 => "é".as_bytes()[i % 2],
                    _ => (i * 37 % 256) as u8,
                })
                .collect();
            let mut b = vec![0x0D, 0x78, n as u8];
            b.extend(t.iter().rev());
            b.extend([0x01, 0x13, 0x2A]);
            ctx.evaluations += 1;
            ctx.nontrivial(&b);
            standalone_vs_model(&b, &[Aspect::Value, Aspect::Bytes])?;
        }
    }
    Ok(())
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        rule: "Text records of all lengths 0..191 (enumerated) and random contents (ASCII, markup, UTF-8, Latin-1, raw bytes), plain text units of 1..9 characters with extensions, each followed by another record; non-trivial: the text is not empty.",
        both_builds: true,
        assumptions: &["plain text units longer than nine characters are left open"],
        parts: vec![
            Part { name: "texts", kind: Kind::Random { quick: 360_000, thorough: 4_320_000, tape: (6, 150), f: c10_text } },
            Part { name: "plain text units", kind: Kind::Random { quick: 360_000, thorough: 4_320_000, tape: (10, 80), f: c10_plain } },
            Part { name: "plain text after 7Ch", kind: Kind::Random { quick: 20_000, thorough: 240_000, tape: (6, 40), f: c10_plain_7c } },
            Part { name: "all text lengths", kind: Kind::Exhaustive { f: c10_lengths } },
        ],
    }
}

// ------------------------------------------------------------------ C19

fn damaged_record(s: &mut Source) -> (Vec<u8>, &'static str) {
    match s.below(5) {
        0 => {
            let (code, n) = *s.pick(&[(9u8, 1usize), (10, 2), (11, 3), (12, 4), (14, 6)]);
            let mut r = vec![code, (s.raw() % 0x60) as u8];
            r.extend(gen::bcd(s, n));
            let i = 2 + s.below(n);
            let digit = s.range(10, 15) as u8;
            r[i] = if s.chance(1, 2) { r[i] & 0x0F | digit << 4 } else { r[i] & 0xF0 | digit };
            (r, "bad BCD digit")
        }
        1 => {
            let n = s.range(1, 9);
            let mut r = vec![0x0D, 0x78, *s.pick(&[0xC0, 0xD0]) + n as u8];
            r.extend(gen::bcd(s, n));
            let i = 3 + s.below(n);
            r[i] |= 0xA0;
            (r, "bad variable-length BCD digit")
        }
        2 => (vec![0x0D, 0x78, 0xF7 + s.below(9) as u8, 1, 2, 3], "reserved variable length"),
        3 => {
            let mut r = gen::record(s, &gen::SHORT);
            if r.len() < 2 {
                r = vec![0x04, 0x13, 1, 2, 3, 4];
            }
            let n = s.range(1, r.len() - 1);
            r.truncate(n);
            (r, "cut off")
        }
        _ => {
            let n = s.range(1, 5);
            let mut r = vec![0x84];
            r.extend(std::iter::repeat(0x80).take(n));
            (r, "unfinished DIFE chain")
        }
    }
}

fn c19_records(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let link = gen::link(s);
    let hdr = gen::clear_header(s);
    let room = link.room() - hdr.bytes().len();
    let recs = gen::records(s, &gen::FULL, 6, room / 2);
    let mut block = vec![];
    for r in &recs {
        if s.chance(1, 4) {
            block.push(0x2F);
        }
        block.extend(r);
    }
    for _ in 0..s.below(3) {
        block.push(0x2F);
    }
    if s.chance(1, 12) {
        // Many records in front of the bad one.
        let one = s.pick(&[vec![0x01, 0x13, 0x05], vec![0x00, 0x13], vec![0x02, 0x5B, 0x2C, 0x01]]).clone();
        for _ in 0..s.range(1, 122) {
            if block.len() + 12 < room {
                block.extend(&one);
            }
        }
    }
    let (bad, kind) = damaged_record(s);
    let damaged = s.chance(5, 6);
    let at = block.len();
    if damaged {
        block.extend(&bad);
        if kind != "cut off" && kind != "unfinished DIFE chain" {
            for r in gen::records(s, &gen::SHORT, 3, 40) {
                block.extend(r);
            }
        }
    }
    if block.len() > room {
        return Ok(());
    }
    let f = Frame { link, hdr, block };
    let bytes = f.bytes();
    if f.ambiguous() {
        return Ok(());
    }
    let p = model::parse(&f.block);
    if matches!(p.end, End::Open(_)) {
        return Ok(());
    }
    ctx.sample(|| hex_sp(&bytes));
    if damaged && p.end == End::Bad(at) {
        ctx.class(kind);
        ctx.nontrivial(&bytes);
    }
    in_ctx("frame", &bytes, c19_compare(&p, &f, &bytes))?;
    if f.block.is_empty() {
        return Ok(());
    }
    standalone_vs_model(&f.block, model::ALL)?;
    Ok(())
}

fn c19_compare(p: &model::Parse, f: &Frame, bytes: &[u8]) -> CheckResult {
    let v = decode_ok(bytes)?;
    check_records(p, sut::records(&v), model::ALL)?;
    let diags = v["diagnostics"].as_array().cloned().unwrap_or_default();
    let partial: Vec<&Value> = diags.iter().filter(|d| d["code"] == "application.record_partial").collect();
    match p.end {
        End::Complete => {
            ensure_eq!(v["decode_state"], "complete", "decode state");
            ensure!(partial.is_empty(), "record warning on a complete block: {:?}", partial);
        }
        End::Bad(at) => {
            ensure_eq!(v["decode_state"], "partial", "decode state");
            ensure_eq!(partial.len(), 1, "number of record warnings");
            ensure_eq!(partial[0]["severity"], "warning", "severity");
            // The offset counts within the record block.
            ensure_eq!(partial[0]["offset_start"], json!(at), "offset of the record that cannot be decoded");
        }
        End::Open(_) => {}
    }
    ensure_eq!(v["raw"]["payload_hex"].as_str().unwrap_or("?"), crate::util::hex(&f.app()), "raw payload");
    Ok(())
}

/// Any control information byte and any cut of a header: partial output, never an error.
fn c19_headers(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let link = gen::link(s);
    let mut app;
    let kind;
    if s.chance(1, 2) {
        let ci = s.byte();
        app = vec![ci];
        let n = s.below(24);
        app.extend(s.bytes(n));
        kind = "any control information";
    } else {
        let f = gen::any_frame(s, &gen::SHORT, 2);
        app = f.hdr.bytes();
        let n = s.below(app.len());
        app.truncate(n.max(1));
        kind = "cut header";
    }
    let bytes = link.frame(&app);
    if gen::ambiguous(&link, &app) {
        return Ok(());
    }
    ctx.sample(|| hex_sp(&bytes));
    ctx.class(kind);
    ctx.nontrivial(&bytes);
    in_ctx("frame", &bytes, c19_header_compare(&bytes, &app, kind))
}

/// Control information bytes with a decoded header.
fn supported_ci(ci: u8) -> bool {
    matches!(ci, 0x50 | 0x72 | 0x73 | 0x76 | 0x77 | 0x78 | 0x7A | 0x8C | 0x8D | 0x8E | 0xA0..=0xAF)
}

fn c19_header_compare(bytes: &[u8], app: &[u8], kind: &str) -> CheckResult {
    let v = decode_ok(bytes)?;
    ensure_eq!(v["raw"]["payload_hex"].as_str().unwrap_or("?"), crate::util::hex(app), "raw payload");
    let warned = v["diagnostics"].as_array().is_some_and(|d| d.iter().any(|x| x["code"] == "application.partial" && x["severity"] == "warning"));
    if warned {
        ensure_eq!(v["decode_state"], "partial", "decode state");
        ensure!(sut::records(&v).is_empty(), "records reported although the header cannot be decoded");
    }
    if !supported_ci(app[0]) {
        ensure!(warned, "unsupported control information {:02X} without application warning", app[0]);
    }
    if kind == "cut header" && app.len() < min_header(app) {
        ensure!(warned, "cut header [{}] without application warning", hex_sp(app));
        for section in ["access_numbers", "statuses"] {
            let list = &v["transport"][section];
            ensure!(list.as_array().is_none_or(|a| a.is_empty()), "cut header reports {section}: {list}");
        }
    }
    Ok(())
}

fn min_header(app: &[u8]) -> usize {
    match app[0] {
        0x50 => 2,
        0x72 | 0x76 => 13,
        0x73 | 0x77 => 17,
        0x78 => 1,
        0x7A | 0xA1..=0xAF => 5,
        0xA0 => 6,
        0x8C => match app.get(3) {
            None => 4,
            Some(0x7A) => 8,
            Some(0x78) => 4,
            Some(_) => 0,
        },
        0x8D => 9,
        0x8E => 17,
        _ => 0,
    }
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        rule: "Frames with one damaged record (bad digit, reserved length, cut, unfinished chain) at any position among good records and fillers, and frames with any control information byte or a header cut anywhere; non-trivial: the damage is where the generator put it.",
        both_builds: false,
        assumptions: &["reserved VIFs are not used as damage (they may be refused or unlabelled)", "offsets of record warnings count from the first byte after the transport header"],
        parts: vec![
            Part { name: "damaged records", kind: Kind::Random { quick: 480_000, thorough: 5_760_000, tape: (20, 240), f: c19_records } },
            Part { name: "headers", kind: Kind::Random { quick: 480_000, thorough: 5_760_000, tape: (6, 60), f: c19_headers } },
        ],
    }
}

// ------------------------------------------------------------------ C24

fn without_index(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(o) = v.as_object_mut() {
        o.remove("index");
    }
    v
}

fn c24_random(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let manufacturer = s.chance(1, 12);
    let rec = if manufacturer {
        let n = s.below(12);
        let mut r = vec![*s.pick(&[0x0F, 0x1F])];
        r.extend(s.bytes(n));
        r
    } else if s.chance(1, 20) {
        vec![0x7F]
    } else {
        gen::record(s, &gen::FULL)
    };
    let alone = sut::standalone(&rec).map_err(|e| Fail::new(format!("record [{}] alone refused: {e}", hex_sp(&rec))));
    let p = model::parse(&rec);
    if p.end != End::Complete || p.records.len() != 1 {
        ctx.class("open record");
        return Ok(());
    }
    let alone = alone?;
    ensure_eq!(alone.len(), 1, "records in [{}]", hex_sp(&rec));
    let want = without_index(&alone[0]);
    ctx.sample(|| hex_sp(&rec));
    for _ in 0..3 {
        let link = gen::link(s);
        let hdr = gen::clear_header(s);
        let room = (link.room() - hdr.bytes().len()).saturating_sub(rec.len() + 4);
        let most = s.chance(1, 2);
        let before = gen::records(s, &gen::FULL, 4, if most { room } else { room / 2 });
        let left = room - before.iter().map(Vec::len).sum::<usize>();
        // Manufacturer data takes all that follows.
        let after = if manufacturer { vec![] } else { gen::records(s, &gen::FULL, 3, left) };
        let mut block = vec![];
        let mut open = false;
        for r in &before {
            block.extend(r);
            open |= model::parse(r).end != End::Complete;
        }
        if open {
            continue;
        }
        let index = before.len();
        for _ in 0..s.below(3) {
            block.push(0x2F);
        }
        block.extend(&rec);
        if s.chance(1, 3) && !manufacturer {
            block.push(0x2F);
        }
        for r in &after {
            block.extend(r);
        }
        let f = Frame { link, hdr, block };
        if f.app().len() > f.link.room() || f.ambiguous() {
            continue;
        }
        let bytes = f.bytes();
        let v = decode_ok(&bytes)?;
        let Some(got) = sut::records(&v).get(index) else {
            fail!("frame [{}]: no record {index}", hex_sp(&bytes));
        };
        ensure_eq!(got["index"], json!(index), "index in frame [{}]", hex_sp(&bytes));
        ensure_eq!(without_index(got), want, "record [{}] in frame [{}]", hex_sp(&rec), hex_sp(&bytes));
        if let Ok(list) = sut::standalone(&f.block) {
            let got = list.get(index).cloned().unwrap_or(Value::Null);
            ensure_eq!(without_index(&got), want, "record [{}] in block [{}]", hex_sp(&rec), hex_sp(&f.block));
        }
        ctx.class(f.hdr.name());
        ctx.class(if f.link.is_wired() { "wired" } else { "wireless" });
        if index > 0 {
            ctx.nontrivial(&f.block);
        }
    }
    Ok(())
}

/// Stand-alone blocks longer than any frame: many records and fillers before the record.
fn c24_long(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let (short, rec) = (gen::record(s, &gen::FULL), gen::record(s, &gen::FULL));
    let fillers = if s.chance(1, 4) { s.below(600) } else { s.below(3) };
    let n = s.below(1 + 1400 / short.len());
    let (a, b) = (model::parse(&short), model::parse(&rec));
    if [&a, &b].iter().any(|p| p.end != End::Complete || p.records.len() != 1) {
        ctx.class("open record");
        return Ok(());
    }
    let mut block = short.repeat(n);
    block.resize(block.len() + fillers, 0x2F);
    block.extend(&rec);
    let at = format!("{n} times [{}], {fillers} fillers, [{}]", hex_sp(&short), hex_sp(&rec));
    ctx.sample(|| at.clone());
    let refused = |e: m_bus_parser::OutputError| Fail::new(format!("{at}: refused: {e}"));
    let got = sut::standalone(&block).map_err(refused)?;
    ensure_eq!(got.len(), n + 1, "{at}: records");
    let alone = [sut::standalone(&short).map_err(refused)?, sut::standalone(&rec).map_err(refused)?];
    for (i, r) in got.iter().enumerate() {
        ensure_eq!(r["index"], json!(i), "{at}: index");
        ensure_eq!(without_index(r), without_index(&alone[usize::from(i == n)][0]), "{at}: record {i}");
    }
    if block.len() > 255 {
        ctx.class("longer than a frame");
        ctx.nontrivial(&block);
    }
    Ok(())
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        rule: "One generated record is decoded alone and in three contexts (other records before and after, fillers, other header and link), and at the end of stand-alone blocks of up to 2000 bytes; non-trivial: at least one record stands before it, or the block is longer than a frame.",
        both_builds: false,
        assumptions: &["CI 76h (most significant byte first) is left out: its values are byte-reversed by design"],
        parts: vec![
            Part { name: "contexts", kind: Kind::Random { quick: 288_000, thorough: 3_456_000, tape: (20, 300), f: c24_random } },
            Part { name: "long blocks", kind: Kind::Random { quick: 4_000, thorough: 60_000, tape: (10, 80), f: c24_long } },
        ],
    }
}

