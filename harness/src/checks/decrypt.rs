//! C38: the low-level decryption calls give the cleartext or name why not.

use std::cell::RefCell;

use m_bus_core::decryption::{DecryptionError as E, EncryptedPayload, KeyContext, KeyProvider};
use m_bus_core::{DeviceType, ManufacturerCode, SecurityMode};
use m_bus_parser::user_data::UserDataBlock;

use crate::gen::{self, Hdr};
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::util::{hex, hex_sp};

/// Hands out what it is given and remembers whom it was asked for.
struct Desk {
    key: Option<Vec<u8>>,
    asked: RefCell<Vec<KeyContext>>,
}

impl KeyProvider for Desk {
    fn get_key(&self, context: &KeyContext) -> Result<&[u8], E> {
        self.asked.borrow_mut().push(context.clone());
        self.key.as_deref().ok_or(E::KeyNotFound)
    }
}

fn header(s: &mut Source) -> Hdr {
    match s.weighted(&[8, 6, 4, 1, 1, 1, 1]) {
        0 => Hdr::Long(gen::ident(s), gen::short(s)),
        1 => Hdr::Short(0x7A, gen::short(s)),
        2 => Hdr::Ell1(s.byte(), s.byte(), Some(gen::short(s))),
        3 => Hdr::None,
        4 => Hdr::Ell1(s.byte(), s.byte(), None),
        5 => gen::fixed(s),
        _ => Hdr::Reset(s.byte()),
    }
}

fn c38(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let call = s.below(3);
    let mode = match s.weighted(&[6, 4, 2, 2]) {
        0 => 5,
        1 => 7,
        2 => 0,
        _ => s.below(32) as u8,
    };
    let key: [u8; 16] = s.bytes(16).try_into().unwrap();
    let desk_key = match s.weighted(&[8, 1, 1]) {
        0 => Some(key.to_vec()),
        1 => None,
        _ => {
            let n = *s.pick(&[0usize, 1, 8, 15, 17, 24, 32, 33]);
            Some(key.iter().cycle().take(n).copied().collect())
        }
    };
    let (blocks, tail) = match s.weighted(&[6, 4, 2, 1]) {
        0 => (s.range(1, 14), 0),
        1 => (s.range(1, 13), s.range(1, 15)),
        2 => (0, s.range(1, 15)),
        _ => (0, 0),
    };
    let (spare, short_by) = match s.weighted(&[3, 3, 2]) {
        0 => (s.range(1, 80), 0),
        1 => (0, 0),
        _ => (0, s.range(1, 20)),
    };
    let bad_man = s.chance(1, 16);
    let mut hdr = header(s);
    let mut other = gen::ident(s);
    // The caller often names nearly whom the header names.
    if let (Hdr::Long(i, _), true) = (&hdr, s.chance(1, 2)) {
        let field = s.below(5);
        let differs = |f: usize| field == f || field == 4;
        other = gen::Ident {
            man: if differs(0) { other.man } else { i.man },
            id: if differs(1) { other.id } else { i.id },
            version: if differs(2) { other.version } else { i.version },
            device: if differs(3) { other.device } else { i.device },
        };
    }
    if let Some(mut c) = hdr.conf() {
        c[1] = c[1] & 0xE0 | mode;
        hdr.set_conf(c);
    }
    if let (Hdr::Long(i, _), true) = (&mut hdr, bad_man) {
        i.man[1] |= 0x80;
    }
    // Whose data it is: a long header says so itself.
    let ident = match &hdr {
        Hdr::Long(i, _) if call != 2 => i.clone(),
        _ => other.clone(),
    };
    let headed = hdr.conf().is_some();
    let access = hdr.access().unwrap_or(0);
    let n = blocks * 16 + tail;
    let clear = s.bytes(n);
    let mut block = if matches!(mode, 5 | 7) { gen::encrypt(mode, &key, &ident, access, &clear[..blocks * 16]) } else { clear[..blocks * 16].to_vec() };
    block.extend(&clear[blocks * 16..]);
    let mut app = hdr.bytes();
    let carried = !matches!(hdr, Hdr::Fixed { .. } | Hdr::Reset(_));
    if carried {
        app.extend(&block);
    }
    let at = || format!("call {call} mode {mode} on [{}]", hex_sp(&app));
    let user = match UserDataBlock::try_from(app.as_slice()) {
        Ok(u) => u,
        Err(e) => fail!("{} refused: {e:?}", at()),
    };
    ctx.sample(|| at());
    ctx.nontrivial(&(call, &app, key, &desk_key, spare, short_by));
    ensure_eq!(user.variable_data_len(), if carried { n } else { 0 }, "payload length, {}", at());
    match (&hdr, user.is_encrypted()) {
        (Hdr::Long(..), e) => ensure_eq!(e, Some(mode != 0), "is_encrypted, {}", at()),
        (_, None) => {}
        (_, Some(e)) => ensure_eq!(e, headed && mode != 0, "is_encrypted, {}", at()),
    }
    let of = |i: &gen::Ident| ManufacturerCode::from_id(u16::from_le_bytes(i.man)).map_err(|e| Fail::new(format!("manufacturer of {i:?} refused: {e:?}")));
    let man = of(&other)?;
    let security = SecurityMode::from_bits(mode);
    let room = (n + spare).saturating_sub(short_by);
    let mut out = vec![0xA5u8; room];
    let desk = Desk { key: desk_key.clone(), asked: RefCell::new(vec![]) };
    let number = |i: &gen::Ident| i.digits().parse::<u32>().unwrap();

    // The reasons to refuse, of which any may be given.
    let mut reasons = vec![];
    let got = match call {
        0 => user.decrypt_variable_data(&desk, &mut out),
        1 => user.decrypt_variable_data_with_context(&desk, man, number(&other), other.version, DeviceType::from(other.device), &mut out),
        _ => {
            let context = KeyContext {
                manufacturer: man,
                identification_number: number(&other),
                version: other.version,
                device_type: DeviceType::from(other.device),
                security_mode: security,
                access_number: access,
            };
            EncryptedPayload::new(&block, context).decrypt_into(&desk, &mut out)
        }
    };
    let reachable = call == 2 || matches!(hdr, Hdr::Long(..)) || headed && call == 1;
    if call < 2 && headed && mode == 0 {
        reasons.push(E::NotEncrypted);
    } else if !reachable {
        reasons.push(E::UnknownEncryptionState);
    } else {
        if bad_man && call < 2 && matches!(hdr, Hdr::Long(..)) {
            reasons.push(E::DecryptionFailed);
        }
        match &desk_key {
            None => reasons.push(E::KeyNotFound),
            Some(k) if k.len() != 16 && mode != 0 => reasons.push(E::InvalidKeyLength),
            _ => {}
        }
        if !matches!(mode, 0 | 5 | 7) {
            reasons.push(E::UnsupportedMode(security));
        }
        if room < n || n == 0 && mode != 0 {
            reasons.push(E::InvalidDataLength);
        }
    }
    ctx.class(match reasons.len() {
        0 => "decrypted",
        1 => "one reason to refuse",
        _ => "several reasons",
    });
    if let [r] = reasons[..] {
        ctx.class(&format!("refused: {}", format!("{r:?}").split('(').next().unwrap()));
    }
    if !reasons.is_empty() {
        match got {
            Ok(n) => fail!("{}: {n} bytes decrypted, wanted one of {reasons:?}", at()),
            Err(e) => ensure!(reasons.contains(&e), "{}: refused as {e:?}, wanted one of {reasons:?}", at()),
        }
        ensure!(got.is_err_and(|e| !e.to_string().is_empty()), "{}: nothing to say", at());
    } else {
        ensure_eq!(got, Ok(n), "{}", at());
        ensure_eq!(hex(&out[..n]), hex(&clear), "cleartext, {}", at());
        ensure!(out[n..].iter().all(|b| *b == 0xA5), "{}: bytes behind the cleartext changed", at());
    }
    // Whoever is asked for the key is told whose data it is.
    for c in desk.asked.borrow().iter() {
        let want = KeyContext {
            manufacturer: of(&ident)?,
            identification_number: number(&ident),
            version: ident.version,
            device_type: DeviceType::from(ident.device),
            security_mode: security,
            access_number: access,
        };
        ensure_eq!(*c, want, "key asked for, {}", at());
    }
    Ok(())
}

pub fn c38_property() -> Property {
    Property {
        id: "C38",
        rule: "User data of every header kind with an own AES-128-CBC ciphertext is decrypted by the low-level calls with a key provider that records its requests; the expected outcome or set of applicable refusals is derived from the chosen mode, key, payload and buffer; non-trivial: distinct (call, user data, key, buffer) cases.",
        both_builds: false,
        assumptions: &[
            "when several reasons to refuse apply, any of them may be given",
            "a payload shorter than one block is in the clear, as the bytes behind the last whole block are",
            "protection by the extended link layer itself is left to C11 and C12",
        ],
        parts: vec![Part { name: "low-level decryption", kind: Kind::Random { quick: 2_400_000, thorough: 24_000_000, tape: (30, 90), f: c38 } }],
    }
}
