//! Small helpers shared by every family: deterministic randomness, content ids, an independent CRC-32, JSON shapes.
use serde_json::{json, Value};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, a: u64, b: u64) -> Rng {
        let mut r = Rng(seed ^ a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03));
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

pub fn all_zero(b: &[u8]) -> bool {
    let (p, m, s) = unsafe { b.align_to::<u64>() };
    p.iter().all(|x| *x == 0) && m.iter().all(|x| *x == 0) && s.iter().all(|x| *x == 0)
}

/// Content identity: two byte strings get the same id iff they are equal (up to a 64+ bit hash collision).
pub fn id(b: &[u8]) -> String {
    if b.is_empty() {
        return "E".into();
    }
    if all_zero(b) {
        return format!("Z{}", b.len());
    }
    let mut h: u64 = 0xcbf29ce484222325;
    let mut g: u64 = 0x84222325cbf29ce4;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        let w = u64::from_le_bytes(c.try_into().unwrap());
        h = (h ^ w).wrapping_mul(0x100000001b3).rotate_left(23);
        g = (g.rotate_left(9) ^ w).wrapping_mul(0x9E3779B97F4A7C15);
        g ^= g >> 29;
    }
    for x in it.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        g = (g.rotate_left(9) ^ *x as u64).wrapping_mul(0x9E3779B97F4A7C15);
    }
    g ^= h >> 32;
    format!("{}-{:016x}{:08x}", b.len(), h, g as u32)
}

pub fn limbs(n: u64) -> Value {
    json!([n & 0xffff, (n >> 16) & 0xffff, (n >> 32) & 0xffff, n >> 48])
}
pub fn unlimbs(v: &Value) -> u64 {
    let a = v.as_array().unwrap();
    (0..4).map(|i| a[i].as_u64().unwrap() << (16 * i)).sum()
}
pub fn hx32(n: u32) -> String {
    format!("{n:08x}")
}
pub fn hx16(n: u16) -> String {
    format!("{n:04x}")
}

static CRC: std::sync::OnceLock<[[u32; 256]; 8]> = std::sync::OnceLock::new();
fn table() -> &'static [[u32; 256]; 8] {
    CRC.get_or_init(|| {
        let mut t = [[0u32; 256]; 8];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
            t[0][i as usize] = c;
        }
        for i in 0..256 {
            for k in 1..8 {
                t[k][i] = (t[k - 1][i] >> 8) ^ t[0][(t[k - 1][i] & 0xff) as usize];
            }
        }
        t
    })
}
/// CRC-32 (IEEE), written independently of the crate under test.
pub fn crc32(b: &[u8]) -> u32 {
    !crc_update(!0, b)
}
pub fn crc_update(mut c: u32, b: &[u8]) -> u32 {
    let t = table();
    let mut it = b.chunks_exact(8);
    for w in &mut it {
        let x = c ^ u32::from_le_bytes([w[0], w[1], w[2], w[3]]);
        c = t[7][(x & 0xff) as usize] ^ t[6][((x >> 8) & 0xff) as usize] ^ t[5][((x >> 16) & 0xff) as usize]
            ^ t[4][(x >> 24) as usize] ^ t[3][w[4] as usize] ^ t[2][w[5] as usize] ^ t[1][w[6] as usize] ^ t[0][w[7] as usize];
    }
    for x in it.remainder() {
        c = t[0][((c ^ *x as u32) & 0xff) as usize] ^ (c >> 8);
    }
    c
}
/// Sets the last four bytes so that the CRC-32 becomes `want`.
pub fn crc_force(v: &mut [u8], want: u32) {
    let n = v.len() - 4;
    let before = crc_update(!0, &v[..n]);
    let mut c = !want;
    for _ in 0..32 {
        c = if c >> 31 == 1 { ((c ^ 0xedb8_8320) << 1) | 1 } else { c << 1 };
    }
    v[n..].copy_from_slice(&(c ^ before).to_le_bytes());
    assert_eq!(crc32(v), want, "harness: crc");
}
/// CRC-32 of n zero bytes (matrix-free: square-and-multiply over the register).
pub fn crc32_zeros(n: u64) -> u32 {
    // advance the register by one zero byte is linear; use repeated squaring on 32x32 GF(2) matrices
    fn mat_vec(m: &[u32; 32], mut v: u32) -> u32 {
        let mut r = 0;
        let mut i = 0;
        while v != 0 {
            if v & 1 == 1 {
                r ^= m[i];
            }
            v >>= 1;
            i += 1;
        }
        r
    }
    fn sq(m: &[u32; 32]) -> [u32; 32] {
        let mut r = [0; 32];
        for i in 0..32 {
            r[i] = mat_vec(m, m[i]);
        }
        r
    }
    let t = table();
    let mut m = [0u32; 32];
    for (i, x) in m.iter_mut().enumerate() {
        let v = 1u32 << i;
        *x = t[0][(v & 0xff) as usize] ^ (v >> 8);
    }
    let mut c = !0u32;
    let mut k = n;
    while k > 0 {
        if k & 1 == 1 {
            c = mat_vec(&m, c);
        }
        m = sq(&m);
        k >>= 1;
    }
    !c
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
pub fn n(v: &Value, k: &str) -> u64 {
    v.get(k).and_then(|x| x.as_u64()).unwrap_or(0)
}
pub fn b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map(|x| &x[..]).unwrap_or(&[])
}

/// Short stable name of an error of the crate (variant name; I/O errors carry their kind).
pub fn errname(e: &async_zip::error::ZipError) -> String {
    use async_zip::error::ZipError::*;
    match e {
        UpstreamReadError(io) => crate::io::ioname(io),
        other => {
            let d = format!("{other:?}");
            let end = d.find(|c: char| !c.is_alphanumeric()).unwrap_or(d.len());
            d[..end].to_string()
        }
    }
}
