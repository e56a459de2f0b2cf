//! Independent helpers: hex, CRC-16 EN 13757, AES-128.

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect()
}
pub fn hex_sp(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ")
}
pub fn unhex(s: &str) -> Vec<u8> {
    let c: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    c.chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect()
}

/// CRC-16 of EN 13757-4: polynomial 3D65h, initial value 0, inverted result.
pub fn crc16(data: &[u8]) -> u16 {
    let mut crc = 0u16;
    for b in data {
        for bit in (0..8).rev() {
            let top = (crc >> 15) & 1 == 1;
            let input = (b >> bit) & 1 == 1;
            crc <<= 1;
            if top != input {
                crc ^= 0x3D65;
            }
        }
    }
    !crc
}

fn xtime(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1B } else { 0 }
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}
fn sbox_table() -> &'static [u8; 256] {
    static T: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u8; 256];
        for (i, slot) in t.iter_mut().enumerate() {
            let x = i as u8;
            let mut inv = 0u8;
            if x != 0 {
                for y in 1..=255u8 {
                    if gmul(x, y) == 1 {
                        inv = y;
                        break;
                    }
                }
            }
            *slot = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        t
    })
}

fn expand(key: &[u8; 16]) -> [[u8; 16]; 11] {
    let s = sbox_table();
    let mut w = [[0u8; 4]; 44];
    for i in 0..4 {
        w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
    }
    let mut rcon = 1u8;
    for i in 4..44 {
        let mut t = w[i - 1];
        if i % 4 == 0 {
            t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
            rcon = xtime(rcon);
        }
        for k in 0..4 {
            w[i][k] = w[i - 4][k] ^ t[k];
        }
    }
    let mut out = [[0u8; 16]; 11];
    for r in 0..11 {
        for c in 0..4 {
            out[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
        }
    }
    out
}

/// Encrypts one AES-128 block.
pub fn aes_encrypt_block(key: &[u8; 16], block: &[u8; 16]) -> [u8; 16] {
    let s = sbox_table();
    let rk = expand(key);
    let mut st = *block;
    for i in 0..16 {
        st[i] ^= rk[0][i];
    }
    for round in 1..=10 {
        let mut t = [0u8; 16];
        for c in 0..4 {
            for r in 0..4 {
                t[4 * c + r] = s[st[4 * ((c + r) % 4) + r] as usize];
            }
        }
        if round < 10 {
            for c in 0..4 {
                let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                for r in 0..4 {
                    t[4 * c + r] = gmul(a[r], 2) ^ gmul(a[(r + 1) % 4], 3) ^ a[(r + 2) % 4] ^ a[(r + 3) % 4];
                }
            }
        }
        for i in 0..16 {
            st[i] = t[i] ^ rk[round][i];
        }
    }
    st
}

/// CBC encryption of whole blocks.
pub fn aes_cbc_encrypt(key: &[u8; 16], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    assert!(data.len() % 16 == 0);
    let mut prev = *iv;
    let mut out = Vec::new();
    for chunk in data.chunks(16) {
        let mut b = [0u8; 16];
        for i in 0..16 {
            b[i] = chunk[i] ^ prev[i];
        }
        prev = aes_encrypt_block(key, &b);
        out.extend_from_slice(&prev);
    }
    out
}

/// Adds the frame check sequence and stop byte of a wired long frame.
pub fn wired_long(c: u8, a: u8, user: &[u8]) -> Vec<u8> {
    let l = (user.len() + 2) as u8;
    let mut f = vec![0x68, l, l, 0x68, c, a];
    f.extend_from_slice(user);
    let sum = f[4..].iter().fold(0u8, |s, b| s.wrapping_add(*b));
    f.push(sum);
    f.push(0x16);
    f
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn aes_fips197() {
        let key: [u8; 16] = unhex("000102030405060708090a0b0c0d0e0f").try_into().unwrap();
        let pt: [u8; 16] = unhex("00112233445566778899aabbccddeeff").try_into().unwrap();
        assert_eq!(hex(&aes_encrypt_block(&key, &pt)), "69C4E0D86A7B0430D8CDB78070B4C55A");
    }
}
