//! Independent view of an archive's bytes: a parser that follows the format specification only, and a builder with
//! full control over every field for archives "other tools" (or attackers) could produce.
use crate::io::Bytes;
use crate::util::*;
use serde_json::{json, Value};

fn u16a(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
fn u32a(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn u64a(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
pub const M32: u64 = 0xffff_ffff;

pub struct Extra {
    pub exact: bool,
    pub fields: Vec<(u16, Vec<u8>)>,
}
pub fn split_extra(b: &[u8]) -> Extra {
    let mut o = 0;
    let mut fields = vec![];
    while o + 4 <= b.len() {
        let (i, n) = (u16a(b, o), u16a(b, o + 2) as usize);
        if o + 4 + n > b.len() {
            return Extra { exact: false, fields };
        }
        fields.push((i, b[o + 4..o + 4 + n].to_vec()));
        o += 4 + n;
    }
    Extra { exact: o == b.len(), fields }
}
fn uni(fields: &[(u16, Vec<u8>)], which: u16, basic: &[u8]) -> Value {
    let fs: Vec<_> = fields.iter().filter(|f| f.0 == which).collect();
    match fs.first() {
        None => json!({"n": 0, "ver": 0, "crcok": false, "utf8": false, "id": "none"}),
        Some((_, d)) if d.len() >= 5 => json!({"n": fs.len(), "ver": d[0], "crcok": u32a(d, 1) == crc32(basic),
            "utf8": std::str::from_utf8(&d[5..]).is_ok(), "id": id(&d[5..])}),
        Some(_) => json!({"n": fs.len(), "ver": 255, "crcok": false, "utf8": false, "id": "bad"}),
    }
}
pub fn extra_json(b: &[u8], name: &[u8], comment: &[u8]) -> Value {
    let x = split_extra(b);
    let show = |f: &(u16, Vec<u8>)| json!([f.0, f.1.len(), id(&f.1)]);
    let z: Vec<_> = x.fields.iter().filter(|f| f.0 == 1).collect();
    let zv: Vec<Value> = z.first().map(|f| f.1.chunks_exact(8).map(|c| limbs(u64a(c, 0))).collect()).unwrap_or_default();
    json!({
        "ok": x.exact,
        "all": x.fields.iter().filter(|f| f.0 != 1).map(show).collect::<Vec<_>>(),
        "xs": x.fields.iter().filter(|f| ![1, 0x7075, 0x6375].contains(&f.0)).map(show).collect::<Vec<_>>(),
        "zn": z.len(), "zl": z.first().map(|f| f.1.len()).unwrap_or(0), "z": zv,
        "up": uni(&x.fields, 0x7075, name), "uc": uni(&x.fields, 0x6375, comment),
    })
}
/// (uncompressed, compressed, offset) after resolving deferred values in the order the format prescribes.
fn resolve(u: u32, c: u32, o: Option<u32>, extra: &[u8]) -> (u64, u64, u64) {
    let x = split_extra(extra);
    let z = x.fields.iter().find(|f| f.0 == 1).map(|f| f.1.clone()).unwrap_or_default();
    let mut at = 0;
    let mut take = |v: u32| {
        if v as u64 == M32 && at + 8 <= z.len() {
            at += 8;
            u64a(&z, at - 8)
        } else {
            v as u64
        }
    };
    (take(u), take(c), o.map(take).unwrap_or(0))
}

pub struct RawOpts {
    /// decompress and identify the data of every entry
    pub data: bool,
    /// list at most this many records in full
    pub max: usize,
}

/// Parses the archive; `clen` is the length of the archive comment the writer was given.
pub fn parse<B: Bytes>(b: &B, clen: u64, opt: &RawOpts) -> Value {
    let total = b.size();
    let mut out = json!({"total": limbs(total), "cd": [], "loc": [], "cdend": limbs(0), "n": 0});
    let eoff = total.wrapping_sub(22 + clen);
    let e = match b.get(eoff, 22) {
        Some(e) if u32a(&e, 0) == 0x06054b50 => e,
        _ => {
            out["end"] = json!({"ok": false});
            return out;
        }
    };
    let (nd, nt, cs, co, cl) = (u16a(&e, 8), u16a(&e, 10), u32a(&e, 12), u32a(&e, 16), u16a(&e, 20));
    out["end"] = json!({"ok": true, "off": limbs(eoff), "disk": u16a(&e, 4), "cdd": u16a(&e, 6), "nd": limbs(nd as u64), "nt": limbs(nt as u64),
        "cs": limbs(cs as u64), "co": limbs(co as u64), "cl": cl, "cid": b.range_id(eoff + 22, clen).unwrap_or_default()});
    let (mut count, mut cdo) = (nt as u64, co as u64);
    let loc = eoff.checked_sub(20).and_then(|o| b.get(o, 20)).filter(|l| u32a(l, 0) == 0x07064b50);
    out["z64"] = json!({"has": false});
    if let Some(l) = loc {
        let rel = u64a(&l, 8);
        let r = b.get(rel, 56).filter(|r| u32a(r, 0) == 0x06064b50);
        let rok = r.is_some();
        let r = r.unwrap_or(vec![0; 56]);
        out["z64"] = json!({"has": true, "loff": limbs(eoff - 20), "ldisk": limbs(u32a(&l, 4) as u64), "lrel": limbs(rel), "ltot": limbs(u32a(&l, 16) as u64),
            "rok": rok, "rsz": limbs(u64a(&r, 4)), "rdisk": limbs(u32a(&r, 16) as u64), "rcdd": limbs(u32a(&r, 20) as u64),
            "rnd": limbs(u64a(&r, 24)), "rnt": limbs(u64a(&r, 32)), "rcs": limbs(u64a(&r, 40)), "rco": limbs(u64a(&r, 48))});
        if nt == 0xffff {
            count = u64a(&r, 32);
        }
        if co as u64 == M32 {
            cdo = u64a(&r, 48);
        }
    }
    let (mut cds, mut locs) = (vec![], vec![]);
    let mut off = cdo;
    let mut parsed = 0u64;
    let mut full = true;
    let mut names_digest = 0u64;
    let mut prev_end = 0u64;
    let mut tiled = true;
    for i in 0..count.min(10_000_000) {
        let h = match b.get(off, 46) {
            Some(h) if u32a(&h, 0) == 0x02014b50 => h,
            _ => {
                full = false;
                break;
            }
        };
        let (nl, xl, ccl) = (u16a(&h, 28) as usize, u16a(&h, 30) as usize, u16a(&h, 32) as usize);
        let (name, extra, comment) = match (b.get(off + 46, nl), b.get(off + 46 + nl as u64, xl), b.get(off + 46 + (nl + xl) as u64, ccl)) {
            (Some(a), Some(b), Some(c)) => (a, b, c),
            _ => {
                full = false;
                break;
            }
        };
        let (us, csz, lo) = resolve(u32a(&h, 24), u32a(&h, 20), Some(u32a(&h, 42)), &extra);
        for x in &name {
            names_digest = (names_digest ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(11);
        }
        names_digest = names_digest.wrapping_add(i);
        let mut l = json!({"ok": false, "off": limbs(lo)});
        if let Some(g) = b.get(lo, 30).filter(|g| u32a(g, 0) == 0x04034b50) {
            let (lnl, lxl) = (u16a(&g, 26) as usize, u16a(&g, 28) as usize);
            let dof = lo + 30 + (lnl + lxl) as u64;
            if let (Some(ln), Some(lx)) = (b.get(lo + 30, lnl), b.get(lo + 30 + lnl as u64, lxl)) {
                let fl = u16a(&g, 6);
                let end = dof.saturating_add(csz);
                tiled &= lo == prev_end;
                prev_end = end + if fl & 8 != 0 { 16 } else { 0 };
                if (i as usize) < opt.max {
                    let mut dd = vec![];
                    if fl & 8 != 0 {
                        if let Some(d) = b.get(end, 16) {
                            dd.push(json!({"n": 16, "sig": u32a(&d, 0) == 0x08074b50, "crc": hx32(u32a(&d, 4)), "c": limbs(u32a(&d, 8) as u64), "u": limbs(u32a(&d, 12) as u64)}));
                        }
                        if let Some(d) = b.get(end, 24) {
                            dd.push(json!({"n": 24, "sig": u32a(&d, 0) == 0x08074b50, "crc": hx32(u32a(&d, 4)), "c": limbs(u64a(&d, 8)), "u": limbs(u64a(&d, 16))}));
                        }
                    }
                    let (lu, lc, _) = resolve(u32a(&g, 22), u32a(&g, 18), None, &lx);
                    l = json!({"ok": true, "off": limbs(lo), "ver": u16a(&g, 4), "fl": fl, "m": u16a(&g, 8), "dt": format!("{:04x}-{:04x}", u16a(&g, 12), u16a(&g, 10)),
                        "crc": hx32(u32a(&g, 14)), "c32": limbs(u32a(&g, 18) as u64), "u32": limbs(u32a(&g, 22) as u64), "eu": limbs(lu), "ec": limbs(lc),
                        "nl": lnl, "xl": lxl, "nb": id(&ln), "nascii": ln.is_ascii(), "x": extra_json(&lx, &ln, &comment), "doff": limbs(dof), "dend": limbs(end), "dd": dd,
                        "did": b.range_id(dof, csz).unwrap_or("short".into()), "pid": "-", "plen": limbs(0), "pcrc": "-"});
                    if opt.data {
                        let m = u16a(&h, 10);
                        if csz > 1 << 28 {
                            let idv = s(&l, "did").to_string();
                            if m == 0 && idv.starts_with('Z') {
                                l["pid"] = json!(idv);
                                l["plen"] = limbs(csz);
                                l["pcrc"] = json!(hx32(crc32_zeros(csz)));
                            }
                        } else if let Some(d) = b.get(dof, csz as usize) {
                            match crate::codec::decompress(m, &d) {
                                Ok(p) => {
                                    l["pid"] = json!(id(&p));
                                    l["plen"] = limbs(p.len() as u64);
                                    l["pcrc"] = json!(hx32(crc32(&p)));
                                }
                                Err(_) => l["pid"] = json!("undecodable"),
                            }
                        }
                    }
                }
            }
        } else {
            tiled = false;
        }
        if (i as usize) < opt.max {
            cds.push(json!({"ok": true, "off": limbs(off), "made": u16a(&h, 4), "ver": u16a(&h, 6), "fl": u16a(&h, 8), "m": u16a(&h, 10),
                "dt": format!("{:04x}-{:04x}", u16a(&h, 14), u16a(&h, 12)), "crc": hx32(u32a(&h, 16)), "c32": limbs(u32a(&h, 20) as u64), "u32": limbs(u32a(&h, 24) as u64),
                "nl": nl, "xl": xl, "cl": ccl, "dk": u16a(&h, 34), "ia": hx16(u16a(&h, 36)), "ea": hx32(u32a(&h, 38)), "o32": limbs(u32a(&h, 42) as u64),
                "nb": id(&name), "cb": id(&comment), "nascii": name.is_ascii(), "cascii": comment.is_ascii(), "x": extra_json(&extra, &name, &comment),
                "eu": limbs(us), "ec": limbs(csz), "eo": limbs(lo)}));
            locs.push(l);
        }
        off += (46 + nl + xl + ccl) as u64;
        parsed += 1;
    }
    out["cd"] = json!(cds);
    out["loc"] = json!(locs);
    out["cdend"] = limbs(off);
    out["count"] = limbs(parsed);
    out["full"] = json!(full);
    out["tiled"] = json!(tiled && (count == 0 && cdo == 0 || prev_end == cdo));
    out["names"] = json!(format!("{names_digest:016x}"));
    out
}

/// Digest of a list of names the way `parse` folds them.
pub fn names_digest<'a>(names: impl Iterator<Item = &'a [u8]>) -> String {
    let mut d = 0u64;
    for (i, nm) in names.enumerate() {
        for x in nm {
            d = (d ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(11);
        }
        d = d.wrapping_add(i as u64);
    }
    format!("{d:016x}")
}

// ------------------------------------------------------------------------------------------------ foreign builder

#[derive(Clone, Debug)]
pub struct FEntry {
    pub name: Vec<u8>,
    pub comment: Vec<u8>,
    pub lextra: Vec<u8>,
    pub cextra: Vec<u8>,
    pub method: u16,
    pub lmethod: Option<u16>,
    pub flags: u16,
    pub cflags: Option<u16>,
    pub date: u16,
    pub time: u16,
    pub crc: u32,
    pub lcrc: Option<u32>,
    pub lc32: u32,
    pub lu32: u32,
    pub cc32: u32,
    pub cu32: u32,
    pub o32: Option<u32>,
    pub disk: u16,
    pub ia: u16,
    pub ea: u32,
    pub data: Vec<u8>,
    pub dd: Vec<u8>,
    pub lsig: u32,
    pub csig: u32,
    pub pre: Vec<u8>,
    pub made: u16,
    pub ver: u16,
}
impl FEntry {
    /// A plain, conforming entry for `content` under `method`.
    pub fn plain(name: &[u8], method: u16, content: &[u8]) -> FEntry {
        let data = crate::codec::compress(method, content, true);
        FEntry {
            name: name.to_vec(),
            comment: vec![],
            lextra: vec![],
            cextra: vec![],
            method,
            lmethod: None,
            flags: 0x800,
            cflags: None,
            date: 0x58_21,
            time: 0x6a_0b,
            crc: crc32(content),
            lcrc: None,
            lc32: data.len() as u32,
            lu32: content.len() as u32,
            cc32: data.len() as u32,
            cu32: content.len() as u32,
            o32: None,
            disk: 0,
            ia: 0,
            ea: 0,
            data,
            dd: vec![],
            lsig: 0x04034b50,
            csig: 0x02014b50,
            pre: vec![],
            made: 0x033f,
            ver: 20,
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct FEnd {
    pub comment: Vec<u8>,
    pub disk: u16,
    pub cdd: u16,
    pub nd: Option<u16>,
    pub nt: Option<u16>,
    pub cs: Option<u32>,
    pub co: Option<u32>,
    pub z64: Option<FZ64>,
    pub sig: Option<u32>,
    pub prefix: Vec<u8>,
    pub gap: Vec<u8>,
    /// between the directory and the records at the end
    pub gap2: Vec<u8>,
    /// the order in which the entries lie in the file (as indices of the directory), if another than the directory's
    pub phys: Vec<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct FZ64 {
    pub sector: Vec<u8>,
    pub disk: u32,
    pub cdd: u32,
    pub nd: Option<u64>,
    pub nt: Option<u64>,
    pub cs: Option<u64>,
    pub co: Option<u64>,
    pub rel: Option<u64>,
    pub lsig: Option<u32>,
    pub rsig: Option<u32>,
}
#[derive(Clone, Debug)]
pub struct Span {
    pub rec: &'static str,
    pub field: &'static str,
    pub i: usize,
    pub off: usize,
    pub len: usize,
}
pub struct Built {
    pub bytes: Vec<u8>,
    pub spans: Vec<Span>,
    /// offset of each local header, offset of its end (incl. descriptor)
    pub loc: Vec<(u64, u64)>,
    pub cdo: u64,
    pub eocd: u64,
}
pub fn build(es: &[FEntry], end: &FEnd) -> Built {
    let mut v = end.prefix.clone();
    let mut spans = vec![];
    let mut loc = vec![(0, 0); es.len()];
    let phys: Vec<usize> = if end.phys.is_empty() { (0..es.len()).collect() } else { end.phys.clone() };
    macro_rules! put {
        ($rec:expr, $i:expr, $f:expr, $b:expr) => {{
            let b: &[u8] = &$b;
            if !b.is_empty() {
                spans.push(Span { rec: $rec, field: $f, i: $i, off: v.len(), len: b.len() });
            }
            v.extend_from_slice(b);
        }};
    }
    for i in phys {
        let e = &es[i];
        v.extend_from_slice(&e.pre);
        let o = v.len() as u64;
        put!("lfh", i, "sig", e.lsig.to_le_bytes());
        put!("lfh", i, "ver", e.ver.to_le_bytes());
        put!("lfh", i, "flags", e.flags.to_le_bytes());
        put!("lfh", i, "method", e.lmethod.unwrap_or(e.method).to_le_bytes());
        put!("lfh", i, "time", e.time.to_le_bytes());
        put!("lfh", i, "date", e.date.to_le_bytes());
        put!("lfh", i, "crc", e.lcrc.unwrap_or(e.crc).to_le_bytes());
        put!("lfh", i, "csize", e.lc32.to_le_bytes());
        put!("lfh", i, "usize", e.lu32.to_le_bytes());
        put!("lfh", i, "namelen", (e.name.len() as u16).to_le_bytes());
        put!("lfh", i, "extralen", (e.lextra.len() as u16).to_le_bytes());
        put!("lfh", i, "name", e.name);
        put!("lfh", i, "extra", e.lextra);
        put!("lfh", i, "data", e.data);
        put!("lfh", i, "dd", e.dd);
        loc[i] = (o, v.len() as u64);
    }
    v.extend_from_slice(&end.gap);
    let cdo = v.len() as u64;
    for (i, e) in es.iter().enumerate() {
        put!("cdh", i, "sig", e.csig.to_le_bytes());
        put!("cdh", i, "made", e.made.to_le_bytes());
        put!("cdh", i, "ver", e.ver.to_le_bytes());
        put!("cdh", i, "flags", e.cflags.unwrap_or(e.flags).to_le_bytes());
        put!("cdh", i, "method", e.method.to_le_bytes());
        put!("cdh", i, "time", e.time.to_le_bytes());
        put!("cdh", i, "date", e.date.to_le_bytes());
        put!("cdh", i, "crc", e.crc.to_le_bytes());
        put!("cdh", i, "csize", e.cc32.to_le_bytes());
        put!("cdh", i, "usize", e.cu32.to_le_bytes());
        put!("cdh", i, "namelen", (e.name.len() as u16).to_le_bytes());
        put!("cdh", i, "extralen", (e.cextra.len() as u16).to_le_bytes());
        put!("cdh", i, "commentlen", (e.comment.len() as u16).to_le_bytes());
        put!("cdh", i, "disk", e.disk.to_le_bytes());
        put!("cdh", i, "ia", e.ia.to_le_bytes());
        put!("cdh", i, "ea", e.ea.to_le_bytes());
        put!("cdh", i, "offset", e.o32.unwrap_or(loc[i].0 as u32).to_le_bytes());
        put!("cdh", i, "name", e.name);
        put!("cdh", i, "extra", e.cextra);
        put!("cdh", i, "comment", e.comment);
    }
    let cds = v.len() as u64 - cdo;
    v.extend_from_slice(&end.gap2);
    let n = es.len() as u64;
    if let Some(z) = &end.z64 {
        let ro = v.len() as u64;
        put!("z64r", 0, "sig", z.rsig.unwrap_or(0x06064b50).to_le_bytes());
        put!("z64r", 0, "size", (44 + z.sector.len() as u64).to_le_bytes());
        put!("z64r", 0, "made", 0x033fu16.to_le_bytes());
        put!("z64r", 0, "ver", 45u16.to_le_bytes());
        put!("z64r", 0, "disk", z.disk.to_le_bytes());
        put!("z64r", 0, "cddisk", z.cdd.to_le_bytes());
        put!("z64r", 0, "nd", z.nd.unwrap_or(n).to_le_bytes());
        put!("z64r", 0, "nt", z.nt.unwrap_or(n).to_le_bytes());
        put!("z64r", 0, "cs", z.cs.unwrap_or(cds).to_le_bytes());
        put!("z64r", 0, "co", z.co.unwrap_or(cdo).to_le_bytes());
        put!("z64r", 0, "sector", z.sector);
        put!("z64l", 0, "sig", z.lsig.unwrap_or(0x07064b50).to_le_bytes());
        put!("z64l", 0, "disk", 0u32.to_le_bytes());
        put!("z64l", 0, "rel", z.rel.unwrap_or(ro).to_le_bytes());
        put!("z64l", 0, "disks", 1u32.to_le_bytes());
    }
    let eocd = v.len() as u64;
    put!("eocd", 0, "sig", end.sig.unwrap_or(0x06054b50).to_le_bytes());
    put!("eocd", 0, "disk", end.disk.to_le_bytes());
    put!("eocd", 0, "cddisk", end.cdd.to_le_bytes());
    put!("eocd", 0, "nd", end.nd.unwrap_or(n as u16).to_le_bytes());
    put!("eocd", 0, "nt", end.nt.unwrap_or(n as u16).to_le_bytes());
    put!("eocd", 0, "cs", end.cs.unwrap_or(cds as u32).to_le_bytes());
    put!("eocd", 0, "co", end.co.unwrap_or(cdo as u32).to_le_bytes());
    put!("eocd", 0, "commentlen", (end.comment.len() as u16).to_le_bytes());
    put!("eocd", 0, "comment", end.comment);
    Built { bytes: v, spans, loc, cdo, eocd }
}
pub fn field(id: u16, body: &[u8]) -> Vec<u8> {
    let mut v = id.to_le_bytes().to_vec();
    v.extend_from_slice(&(body.len() as u16).to_le_bytes());
    v.extend_from_slice(body);
    v
}
