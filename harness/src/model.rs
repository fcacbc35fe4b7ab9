//! Concrete entries for abstract classes, and their abstract ("truth") rendering for the specification.
use crate::util::*;
use async_zip::{Compression, DeflateOption, StringEncoding, ZipDateTime, ZipDateTimeBuilder, ZipEntry, ZipEntryBuilder, ZipString};
use serde_json::{json, Value};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Text {
    pub bytes: Vec<u8>,
    pub utf8: bool,
    pub alt: Option<Vec<u8>>,
}
impl Text {
    pub fn u(s: &str) -> Text {
        Text { bytes: s.as_bytes().to_vec(), utf8: true, alt: None }
    }
    pub fn raw(b: &[u8]) -> Text {
        Text { bytes: b.to_vec(), utf8: false, alt: None }
    }
    pub fn alt(s: &str, a: &[u8]) -> Text {
        Text { bytes: s.as_bytes().to_vec(), utf8: true, alt: Some(a.to_vec()) }
    }
    pub fn zip(&self) -> ZipString {
        match &self.alt {
            Some(a) => ZipString::new_with_alternative(String::from_utf8(self.bytes.clone()).unwrap(), a.clone()),
            None if self.utf8 => String::from_utf8(self.bytes.clone()).unwrap().into(),
            None => ZipString::new(self.bytes.clone(), StringEncoding::Raw),
        }
    }
    pub fn basic(&self) -> &[u8] {
        self.alt.as_deref().unwrap_or(&self.bytes)
    }
    pub fn truth(&self) -> Value {
        json!({"id": id(&self.bytes), "U": self.utf8, "ascii": self.bytes.is_ascii(), "alt": self.alt.as_ref().map(|a| id(a)).unwrap_or("none".into()),
               "b": id(self.basic()), "bl": self.basic().len(), "l": self.bytes.len()})
    }
}
/// What a ZipString shows of itself.
pub fn seen(z: &ZipString) -> Value {
    let u = matches!(z.encoding(), StringEncoding::Utf8);
    let st = z.as_str();
    let ok = match (&st, u) {
        // as_str must be valid UTF-8 and be exactly the bytes; only for Utf8
        (Ok(x), true) => std::str::from_utf8(x.as_bytes()).is_ok() && x.as_bytes() == z.as_bytes(),
        (Err(_), false) => true,
        _ => false,
    };
    let into = match z.clone().into_string() {
        Ok(x) => u && std::str::from_utf8(x.as_bytes()).is_ok() && x.as_bytes() == z.as_bytes(),
        Err(_) => !u,
    };
    let alt2 = z.clone().into_alternative();
    let wo = z.is_utf8_without_alternative() == (u && z.alternative().is_none());
    json!({"id": id(z.as_bytes()), "u8": std::str::from_utf8(z.as_bytes()).is_ok(), "U": u, "ok": ok && into && wo && alt2.as_deref() == z.alternative(), "alt": z.alternative().map(id).unwrap_or("none".into())})
}

#[derive(Clone)]
pub struct Ent {
    pub name: Text,
    pub comment: Text,
    pub m: u16,
    pub level: Option<i32>,
    pub date: u16,
    pub time: u16,
    pub ia: u16,
    pub ea: u32,
    pub data: Rc<Vec<u8>>,
    /// an entry obtained from a reader, whose extra fields are carried over
    pub base: Option<ZipEntry>,
    /// its extra fields as they were in the bytes: (id, body)
    pub xs: Vec<(u16, Vec<u8>)>,
    pub us_override: Option<u64>,
    /// hand the base entry to the writer as it is
    pub asis: bool,
    /// compressed bytes to use when writing precompressed
    pub comp: Option<Rc<Vec<u8>>>,
}
pub fn comp(m: u16) -> Compression {
    match m {
        0 => Compression::Stored,
        8 => Compression::Deflate,
        9 => Compression::Deflate64,
        12 => Compression::Bz,
        14 => Compression::Lzma,
        93 => Compression::Zstd,
        95 => Compression::Xz,
        _ => panic!("harness: method"),
    }
}
pub fn dosdate(date: u16, time: u16) -> ZipDateTime {
    ZipDateTimeBuilder::new()
        .year((date >> 9) as i32 + 1980)
        .month((date >> 5 & 15) as u32)
        .day((date & 31) as u32)
        .hour((time >> 11) as u32)
        .minute((time >> 5 & 63) as u32)
        .second((time & 31) as u32 * 2)
        .build()
}
pub fn words(d: &ZipDateTime) -> (u16, u16) {
    let date = ((d.year() - 1980) as u16) << 9 | (d.month() as u16) << 5 | d.day() as u16;
    let time = (d.hour() as u16) << 11 | (d.minute() as u16) << 5 | (d.second() / 2) as u16;
    (date, time)
}
impl Ent {
    pub fn simple(name: &str, m: u16, data: Vec<u8>) -> Ent {
        Ent { name: Text::u(name), comment: Text::u(""), m, level: None, date: 0x5821, time: 0x6a0b, ia: 0, ea: 0, data: Rc::new(data), base: None, xs: vec![], us_override: None, asis: false, comp: None }
    }
    pub fn builder(&self, pre: bool) -> ZipEntryBuilder {
        if self.asis {
            let e = self.base.clone().unwrap();
            let known = e.crc32() == crc32(&self.data) && e.uncompressed_size() == self.us();
            let b = ZipEntryBuilder::from(e);
            // an entry with a data descriptor, met in a stream, does not know these yet
            return if pre && !known { b.crc32(crc32(&self.data)).uncompressed_size(self.us()) } else { b };
        }
        let mut b = match &self.base {
            Some(e) => ZipEntryBuilder::from(e.clone()).filename(self.name.zip()).compression(comp(self.m)),
            None => ZipEntryBuilder::new(self.name.zip(), comp(self.m)),
        };
        b = b
            .comment(self.comment.zip())
            .last_modification_date(dosdate(self.date, self.time))
            .internal_file_attribute(self.ia)
            .external_file_attribute(self.ea);
        if self.date & 1 == 1 {
            // the same attributes through the dedicated setter
            b = b.external_file_attribute(self.ea ^ 0x5555_0000).unix_permissions((self.ea >> 16) as u16);
        }
        if let Some(l) = self.level {
            b = b.deflate_option(DeflateOption::Other(l));
        }
        if !pre && self.date % 5 == 2 {
            // left-overs of another life of this entry, which the writer has to find out for itself
            b = b.crc32(0x1234_5678u32).uncompressed_size(77u64);
        }
        if self.date % 3 == 1 {
            // never the caller's business
            b = b.compressed_size(self.time as u64 % 200);
        }
        if pre {
            b = b.crc32(async_zip::base::write::crc32(&self.data)).uncompressed_size(self.us());
        }
        b
    }
    pub fn us(&self) -> u64 {
        self.us_override.unwrap_or(self.data.len() as u64)
    }
    pub fn xlen(&self) -> usize {
        self.xs.iter().filter(|f| f.0 != 1).map(|f| 4 + f.1.len()).sum()
    }
    pub fn truth(&self, dd: bool) -> Value {
        json!({"name": self.name.truth(), "cmt": self.comment.truth(), "m": self.m, "dt": format!("{:04x}-{:04x}", self.date, self.time),
            "ia": hx16(self.ia), "ea": hx32(self.ea), "perm": self.ea >> 16, "dir": self.name.bytes.last() == Some(&b'/'),
            "crc": hx32(crc32(&self.data)), "us": limbs(self.us()), "data": id(&self.data), "dd": dd, "real": self.us_override.is_none(),
            "xs": self.xs.iter().filter(|f| f.0 != 1).map(|f| json!([f.0, f.1.len(), id(&f.1)])).collect::<Vec<_>>(), "xl": self.xlen()})
    }
}

pub fn any_char(r: &mut Rng) -> char {
    let top = r.pick(&[0x80u64, 0x800, 0x1_0000, 0x11_0000]);
    char::from_u32(r.below(top) as u32).unwrap_or('\u{fffd}')
}
pub fn odd(r: &mut Rng, i: usize) -> String {
    let a = r.pick(&["", "", "\0", " ", "\u{feff}", "/", "//", "./", "../", "\\", "C:\\", "C:/", "~/", "-", "\r\n", "\t", "\u{301}", "\u{200f}", "%00", "\u{10ffff}", "#", "*?", ".", "\"", "__MACOSX/"]);
    let b = r.pick(&["", "", "\0", " ", "  ", "/", "//", "\\", "\n", "\r", ".", "..", "/.", "/..", "\0\0", "\u{feff}", "e\u{301}", "\u{7ff}\u{800}\u{ffff}", "?", "\t", ":", "K\u{212a}", "ﬁ", "%2f"]);
    format!("{a}{i}{}{b}", r.pick(&["", "a\0b", "a//b", "a\\b", "a b", "ÅÅ", "日", "a\nb", "..", "A"]))
}
pub fn blank(r: &mut Rng) -> &'static str {
    r.pick(&[" ", "\0", "\n", "\r\n", "\t", "  ", "\0\0", "\u{a0}", "\u{3000}", "\u{200b}", ".", "/", "\u{feff}", "0"])
}
pub fn text(r: &mut Rng, class: &str, i: usize) -> Text {
    let t = r.below(1000);
    match class {
        "none" | "empty" => Text::u(""),
        "ascii" => Text::u(&format!("dir{}/f{i}-{t}.txt", t % 7)),
        "dir" => Text::u(&format!("d{t}/sub{i}/")),
        "utf8" => Text::u(&format!("naïve-{i}-日本{t}-😀.txt")),
        "utf8dir" => Text::u(&format!("ünï{i}/{t}/")),
        "raw" => {
            let mut v = vec![0x83, 0x65, 0x83, 0x58, 0xff, 0xfe, b'0' + (i % 10) as u8];
            v.extend_from_slice(&r.bytes(5));
            v.push(0xc0);
            Text::raw(&v)
        }
        // valid UTF-8 that is declared raw: must come back raw, byte for byte
        "longraw" => {
            let n = r.pick(&[200usize, 600, 1100, 2100, 4200, 9000]);
            let mut v = r.pick(&["q", "ä", "日"]).repeat(n / 2).into_bytes();
            let k = v.len() - 1 - r.below(20) as usize;
            v[k] = r.pick(&[0xff, 0x80, 0xc0]);
            v.extend_from_slice(format!("{i}").as_bytes());
            Text::raw(&v)
        }
        "rawutf8" => Text::raw(format!("é-{i}-{t}").as_bytes()),
        "rawascii" => Text::raw(format!("plain{i}-{t}").as_bytes()),
        "alt" => {
            let mut a = vec![0x93, 0xfa, 0x96, 0x7b, b'0' + (i % 10) as u8];
            a.extend_from_slice(format!("{t}").as_bytes());
            Text::alt(&format!("日本{i}{t}"), &a)
        }
        "altascii" => Text::alt(&format!("Ä{i}{t}"), format!("A{i}{t}").as_bytes()),
        "altsame" => {
            let x = format!("ß{i}{t}");
            Text::alt(&x, x.as_bytes())
        }
        "alt2" => Text::alt(&format!("plain{i}{t}"), &[0xe9, 0xe8, b'a' + (i % 26) as u8]),
        "long" => Text::u(&format!("{i}/{}", "abcdefgh/".repeat(300 + t as usize))),
        "max" => {
            let mut x = format!("{i}-");
            while x.len() < 65535 {
                x.push((b'a' + (x.len() % 26) as u8) as char);
            }
            Text::u(&x)
        }
        // one name for several entries
        "same" => Text::u("same/name.txt"),
        // lengths around those a smaller field or buffer would hold
        "medium" => {
            let any = 1 + r.below(1500) as usize;
            let n = r.pick(&[1usize, 2, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, any, any, any]);
            let c: char = r.pick(&['a', 'Z', 'é', '語']);
            let mut x: String = std::iter::repeat(c).take(n / c.len_utf8()).collect();
            while x.len() < n {
                x.push((b'0' + (x.len() + i) as u8 % 10) as char);
            }
            Text::u(&x)
        }
        "toolong" => Text::u(&"n".repeat(65536 + r.pick(&[0, 0, 1, 65535]) as usize)),
        "sig" => Text::u(&format!("PK\u{1}\u{2}PK\u{3}\u{4}{i}PK\u{7}\u{8}PK\u{6}\u{6}-{t}")),
        // its last 20 bytes look like a ZIP64 locator
        "loc" => Text::u(&format!("{i}PK\u{6}\u{7}0123456789abcdef")),
        // spellings some tool could want to tidy up
        "odd" => Text::u(&odd(r, i)),
        "blank" => Text::u(blank(r)),
        "oddraw" => {
            let mut v = r.pick(&[&b"\0"[..], b" ", b"\xef\xbb\xbf", b"\xff\xfe", b"/", b"\\", b"\x1b", b"\x80"]).to_vec();
            v.extend_from_slice(format!("{i}").as_bytes());
            v.push(0xa0);
            v.extend_from_slice(r.pick(&[&b""[..], b"\0", b" ", b"\n", b".", b"/", b"\\", b"\xff"]));
            Text::raw(&v)
        }
        "oddalt" => {
            let a = odd(r, i);
            let u = odd(r, i + 1);
            let mut b = if r.below(2) == 0 { a.into_bytes() } else { vec![0x8e, 0xff] };
            if r.below(2) == 0 {
                b.push(r.below(256) as u8);
            }
            Text::alt(&u, &b)
        }
        // anything
        "rand" => Text::u(&(0..1 + r.below(40)).map(|_| any_char(r)).collect::<String>()),
        "bytes" => {
            let n = 1 + r.below(40) as usize;
            Text::raw(&r.bytes(n))
        }
        "ctl" => Text::u(&format!("a\\b\0c\n{i}\u{7f}../x{t}")),
        _ => panic!("harness: text class {class}"),
    }
}
pub const NAMES: &[&str] = &["ascii", "ascii", "dir", "utf8", "utf8", "raw", "rawutf8", "rawascii", "alt", "altascii", "altsame", "alt2", "long", "sig", "ctl", "utf8dir", "empty", "same", "medium", "odd", "oddraw", "oddalt", "rand", "bytes", "blank", "longraw"];
pub const COMMENTS: &[&str] = &["none", "none", "blank", "longraw", "ascii", "utf8", "raw", "rawutf8", "alt", "altascii", "alt2", "long", "sig", "same", "medium", "odd", "oddraw", "oddalt", "rand", "bytes"];

pub fn data(r: &mut Rng, class: &str) -> Vec<u8> {
    let some = r.below(3) == 0;
    let n = match class {
        "zero" => 0,
        "one" => 1,
        "tiny" => 1 + r.below(64) as usize,
        "mid" if some => 65 + r.below(5000) as usize,
        "big" if some => 5000 + r.below(66_000) as usize,
        "giant" => r.pick(&[1 << 20, (1 << 20) + 1, 1_500_000, 2_300_000]),
        "mid" => r.pick(&[100, 255, 256, 511, 512, 1000, 2047, 2048, 2049, 3000, 4095, 4096, 4097]),
        "big" => r.pick(&[8191, 8192, 8193, 16384, 20000, 32767, 32768, 65535, 65536, 65537, 70000]),
        "huge" => 150_000 + r.below(150_000) as usize,
        _ => panic!("harness: size class {class}"),
    };
    let kind = r.below(5);
    let mut v = match kind {
        0 => vec![0; n],
        1 => r.bytes(n),
        2 => b"The quick brown fox jumps over the lazy dog. ".iter().cycle().take(n).cloned().collect(),
        // data full of record signatures (but that of the ZIP64 locator, which may be mistaken 20 bytes before the end
        // record: see C10-locator)
        3 => {
            let sigs: [&[u8]; 5] = [b"PK\x03\x04", b"PK\x01\x02", b"PK\x05\x06", b"PK\x07\x08", b"PK\x06\x06"];
            let mut v = vec![];
            while v.len() < n {
                v.extend_from_slice(r.pick(&sigs));
                let k = r.below(20) as usize;
                v.extend_from_slice(&r.bytes(k));
            }
            v.truncate(n);
            v
        }
        _ => (0..n).map(|i| ((i / 7) ^ (i >> 3)) as u8).collect(),
    };
    // a CRC-32 that may be mistaken for something else
    if n >= 4 && r.below(6) == 0 {
        let c = r.pick(&[0u32, !0, 1, 0x0403_4b50, 0x0201_4b50, 0x0605_4b50, 0x0606_4b50, 0x0807_4b51, 0x1234_4b50, 0x0807_1234, 0x8000_0000]);
        crate::util::crc_force(&mut v, c);
    }
    v
}
pub fn method(r: &mut Rng, class: &str) -> u16 {
    match class {
        "stored" => 0,
        "deflate" => 8,
        "bz" => 12,
        "lzma" => 14,
        "zstd" => 93,
        "xz" => 95,
        "other" => r.pick(&[12, 93, 12, 93, 93, 14, 95]),
        "fast" => r.pick(&[0, 8, 93]),
        "any" => r.pick(&[0, 0, 8, 8, 8, 12, 93, 93, 14, 95]),
        _ => panic!("harness: method class {class}"),
    }
}
/// An entry for an abstract operation; attributes the operation leaves open are drawn from `r`.
pub fn entry(r: &mut Rng, op: &Value, i: usize) -> Ent {
    let pick = |r: &mut Rng, k: &str, d: &[&str]| -> String {
        let v = s(op, k);
        if v.is_empty() { r.pick(d).to_string() } else { v.to_string() }
    };
    let m = { let c = pick(r, "m", &["any"]); method(r, &c) };
    let nm = { let c = pick(r, "nm", NAMES); text(r, &c, i) };
    let cm = { let c = pick(r, "cm", COMMENTS); let mut t = text(r, &c, i + 500); if c == "ascii" { t.bytes.extend_from_slice(b" comment") }; t };
    let d = { let c = pick(r, "sz", &["zero", "one", "tiny", "tiny", "mid", "mid", "big"]); data(r, &c) };
    let dates = [0x0021u16, 0xff9f, 0x5821, 0x0000, 0xffff, 0x4a6f];
    let times = [0u16, 0xbf7d, 0xffff, 0x6a0b, 0x0001];
    let (dr, tr) = (r.next() as u16, r.next() as u16);
    Ent {
        name: nm,
        comment: cm,
        m,
        level: match r.below(4) {
            0 if m == 8 || m == 12 => Some(r.pick(&[1, 5, 9])),
            1 if m == 93 => Some(r.pick(&[1, 3, 7])),
            _ => None,
        },
        date: if r.below(2) == 0 { r.pick(&dates) } else { dr },
        time: if r.below(2) == 0 { r.pick(&times) } else { tr },
        ia: r.pick(&[0, 1, 0xffff, 0x1234]),
        ea: r.pick(&[0, 0o100644 << 16, 0o40755 << 16 | 0x10, 0xffff_ffff, 0xdead_beef, 0x20]),
        data: Rc::new(d),
        base: None,
        xs: vec![],
        us_override: None,
        asis: false,
        comp: None,
    }
}
