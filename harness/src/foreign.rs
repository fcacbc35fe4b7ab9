//! Archives other tools (or nobody) would make, from the knobs of an abstract case, plus the facts about their records
//! from which the specification derives what the readers must do.
use crate::codec;
use crate::model;
use crate::rawzip::*;
use crate::util::*;
use serde_json::{json, Value};

pub struct Foreign {
    pub es: Vec<FEntry>,
    pub end: FEnd,
    pub built: Built,
    pub plain: Vec<Vec<u8>>,
}
fn has(v: &Value, k: &str, x: &str) -> bool {
    arr(v, k).iter().any(|y| y.as_str() == Some(x))
}
/// header bytes for a text class: (bytes, utf-8 variant of the same text)
pub fn basic(r: &mut Rng, class: &str, i: usize) -> (Vec<u8>, String) {
    let t = r.below(1000);
    match class {
        // nothing in the header; a Unicode field, if any, is a left-over
        "none" => (vec![], format!("stale-{t}")),
        "" | "ascii" => (format!("f{i}-{t}.txt").into_bytes(), format!("ü{i}-{t}.txt")),
        "dir" => (format!("d{i}-{t}/").into_bytes(), format!("ü{i}-{t}/")),
        // ends in a slash only in the Unicode variant, or only in the header
        "udir" => (format!("d{i}-{t}").into_bytes(), format!("ü{i}-{t}/")),
        "bdir" => (format!("d{i}-{t}/").into_bytes(), format!("ü{i}-{t}")),
        "utf8" => (format!("ä{i}-日本{t}").into_bytes(), format!("Ω{i}-{t}")),
        "raw" => {
            let mut v = vec![0x83, 0x65, 0xff, b'0' + (i % 10) as u8];
            v.extend_from_slice(format!("{t}").as_bytes());
            (v, format!("テ{i}-{t}"))
        }
        "odd" => (model::odd(r, i).into_bytes(), model::odd(r, i + 1)),
        "blank" => (model::blank(r).into(), model::blank(r).into()),
        "bytes" => {
            let n = 1 + r.below(40) as usize;
            (r.bytes(n), (0..1 + r.below(40)).map(|_| model::any_char(r)).collect())
        }
        "big" => (format!("{i}{}", "w".repeat(40_000)).into_bytes(), "é".repeat(100)),
        "same" => (b"same.bin".to_vec(), "sàme.bin".into()),
        "medium" => {
            let n = r.pick(&[1usize, 2, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096]);
            ("w".repeat(n).into_bytes(), "é".repeat(n))
        }
        // text but for a late byte, or two
        "longraw" => {
            let n = r.pick(&[200usize, 600, 1100, 2100, 4200, 9000, 33_000]);
            let mut v = r.pick(&["q", "ä", "日"]).repeat(n / 2).into_bytes();
            let k = v.len() - 1 - r.below(20) as usize;
            v[k] = r.pick(&[0xff, 0x80, 0xc0]);
            (v, "ö".repeat(n.min(9000)))
        }
        "long" => ("q".repeat(3000 + t as usize).into_bytes(), "ö".repeat(1500)),
        x => panic!("harness: basic {x}"),
    }
}
fn unifield(id: u16, how: &str, basic: &[u8], uni: &str) -> Vec<u8> {
    let mut b = vec![1];
    b.extend_from_slice(&crc32(basic).to_le_bytes());
    match how {
        "" | "none" => return vec![],
        "ok" => b.extend_from_slice(uni.as_bytes()),
        "same" => b.extend_from_slice(basic),
        "void" => (),
        "badcrc" => {
            b[1] ^= 0x40;
            b.extend_from_slice(uni.as_bytes())
        }
        "zerocrc" => {
            b[1..5].fill(0);
            b.extend_from_slice(uni.as_bytes())
        }
        "unicrc" => {
            // CRC of the Unicode text instead of the header bytes
            b = vec![1];
            b.extend_from_slice(&crc32(uni.as_bytes()).to_le_bytes());
            b.extend_from_slice(uni.as_bytes())
        }
        "nonutf8" => b.extend_from_slice(&[b'x', 0xff, 0xfe, b'y']),
        "ver2" => {
            b[0] = 2;
            b.extend_from_slice(uni.as_bytes())
        }
        "ver0" => {
            b[0] = 0;
            b.extend_from_slice(uni.as_bytes())
        }
        "short4" => b.truncate(4),
        "short1" => b.truncate(1),
        "empty" => b.clear(),
        x => panic!("harness: unicode field {x}"),
    }
    field(id, &b)
}
fn other(r: &mut Rng, k: u64) -> Vec<u8> {
    match k {
        0 => field(0x5455, &{ let mut b = vec![3]; b.extend_from_slice(&r.bytes(8)); b }),
        1 => field(0x7875, &[1, 4, 0, 0, 0, 0, 4, 0, 0, 0, 0]),
        2 => { let n = r.below(300) as usize + 1; field(0xcafe, &r.bytes(n)) }
        _ => field(0x000a, &r.bytes(32)),
    }
}
fn sigval(r: &mut Rng, how: &str, good: u32) -> u32 {
    match how {
        "" => good,
        "zero" => 0,
        "lfh" => 0x04034b50,
        "cdh" => 0x02014b50,
        "eocd" => 0x06054b50,
        "z64" => 0x06064b50,
        "dd" => 0x08074b50,
        "swap" => good.swap_bytes(),
        "bit" => good ^ (1 << r.below(32)),
        "rnd" => { let x = r.next() as u32; if x == good { !x } else { x } }
        x => panic!("harness: signature {x}"),
    }
}
fn num(v: &Value) -> Option<u64> {
    v.as_u64()
}

/// bytes no record claims: nothing in particular, a deleted entry, an old directory record
fn gap(r: &mut Rng) -> Vec<u8> {
    let n = 1 + r.below(40) as usize;
    match r.below(4) {
        0 => vec![0; n],
        1 => r.bytes(n),
        k => {
            let f = FEntry::plain(b"deleted", 0, &r.bytes(n));
            let x = build(&[f], &FEnd::default());
            let (o, e) = x.loc[0];
            if k == 2 { x.bytes[o as usize..e as usize].to_vec() } else { x.bytes[x.cdo as usize..x.eocd as usize].to_vec() }
        }
    }
}
pub fn make(case: &Value, seed: u64, idx: u64) -> Foreign {
    let mut es = vec![];
    let mut plain = vec![];
    let mut r = Rng::new(seed, idx, 500);
    // sizes of what is laid down before, to know the true offset of each local header
    let mut at = 0u64;
    let prefix: Vec<u8> = match s(&case["end"], "prefix") {
        "" => vec![],
        "stub" => b"#!/bin/sh\nexit 0\n".to_vec(),
        "decoy" => {
            // a complete empty archive, and signatures, in front
            let mut v = build(&[], &FEnd { comment: b"not this one".to_vec(), ..Default::default() }).bytes;
            v.extend_from_slice(b"PK\x05\x06PK\x06\x07PK\x06\x06PK\x01\x02");
            v
        }
        x => panic!("harness: prefix {x}"),
    };
    at += prefix.len() as u64;
    let gaps = has(&case["end"], "arr", "gaps");
    for (i, o) in arr(case, "ents").iter().enumerate() {
        let mut er = Rng::new(seed, idx, 600 + i as u64);
        let m = { let c = s(o, "m"); if c == "deflate64" { 9 } else { model::method(&mut er, if c.is_empty() { "fast" } else { c }) } };
        let mut data = model::data(&mut er, { let c = s(o, "sz"); if c.is_empty() { "tiny" } else { c } });
        if b(o, "text") {
            data = format!("text ñ {}", er.below(1_000_000)).into_bytes();
        }
        let (nb, nu) = basic(&mut er, s(o, "nm"), i);
        let (cb, cu) = basic(&mut er, { let c = s(o, "cm"); if c.is_empty() { "none" } else { c } }, i + 100);
        let mut f = FEntry::plain(&nb, m, &data);
        f.comment = cb.clone();
        f.date = er.next() as u16;
        f.time = er.next() as u16;
        f.ia = er.pick(&[0, 1, 0xffff]);
        f.ea = er.pick(&[0, 0o100644 << 16, 0xffff_ffff, 0x8000_0001]);
        f.flags = (if b(o, "flag") { 0x800 } else { 0 }) | (if b(o, "enc") { 1 } else { 0 }) | (num(&o["gp"]).unwrap_or(0) as u16);
        if let Some(x) = o.get("cgp").and_then(num) {
            f.cflags = Some(x as u16 | f.flags);
        }
        f.made = er.pick(&[0x033f, 0x033f, 0x0014, 0x0b17, 0x1314, 0xff3f]);
        f.ver = er.pick(&[20, 20, 10, 45, 63]);
        if gaps && er.below(3) > 0 {
            f.pre = gap(&mut er);
            at += f.pre.len() as u64;
        }
        // crc
        // another CRC-32: some bits flipped, or one that a careless comparison takes for the right one
        let flip = |r: &mut Rng, c: u32| {
            let bit = c ^ (1 << r.below(32));
            let x = r.pick(&[bit, bit, bit, !c, c.swap_bytes(), c.rotate_left(16), c & 0xffff, c & 0xff_ffff, c.wrapping_add(1), c.wrapping_neg(), c.reverse_bits(), u32::MAX, 0]);
            if x == c { bit } else { x }
        };
        match s(o, "crc") {
            "" | "ok" => (),
            "zero" => f.crc = 0,
            "flip" => f.crc = flip(&mut er, f.crc),
            "one" => f.crc = 0xffff_ffff,
            "prefix" => f.crc = crc32(&data[..data.len() - data.len().min(1)]),
            "void" => f.crc = crc32(&[]),
            x => panic!("harness: crc {x}"),
        }
        match s(o, "lcrc") {
            "" => (),
            "zero" => f.lcrc = Some(0),
            "flip" => f.lcrc = Some(flip(&mut er, f.crc)),
            x => panic!("harness: lcrc {x}"),
        }
        let us = match s(o, "us") {
            "" => data.len() as u64,
            "big" => er.pick(&[1u64 << 32, (1 << 32) + 7, 1 << 40, u64::MAX, M32]),
            "mid" => er.pick(&[0u64, M32 - 1, 1 << 31]),
            x => panic!("harness: us {x}"),
        };
        let cs = f.data.len() as u64;
        // directory record: deferred fields
        let mut z = vec![];
        f.cu32 = us as u32;
        if has(o, "dfr", "u") || us >= M32 {
            f.cu32 = M32 as u32;
            z.extend_from_slice(&us.to_le_bytes());
        }
        if has(o, "dfr", "c") {
            f.cc32 = M32 as u32;
            z.extend_from_slice(&cs.to_le_bytes());
        }
        if has(o, "dfr", "o") {
            f.o32 = Some(M32 as u32);
            z.extend_from_slice(&at.to_le_bytes());
        }
        if b(o, "zx") && !has(o, "dfr", "o") {
            // a value the record does not defer to the field
            z.extend_from_slice(&er.bytes(8));
        }
        if has(o, "dfr", "d") {
            f.disk = 0xffff;
            z.extend_from_slice(&0u32.to_le_bytes());
        }
        let zf = if z.is_empty() && !b(o, "zempty") { vec![] } else { field(1, &z) };
        // local record
        let dd = s(o, "dd");
        f.lu32 = data.len() as u32;
        let mut lz = vec![];
        if b(o, "ldfr") {
            let (u, c) = if dd.is_empty() { (data.len() as u64, cs) } else { (0, 0) };
            f.lu32 = M32 as u32;
            f.lc32 = M32 as u32;
            lz.extend_from_slice(&u.to_le_bytes());
            lz.extend_from_slice(&c.to_le_bytes());
        }
        if b(o, "zx") {
            lz.extend_from_slice(&er.bytes(if b(o, "ldfr") { 8 } else { 0 }));
        }
        let lzf = if lz.is_empty() { vec![] } else { field(1, &lz) };
        if !dd.is_empty() {
            f.flags |= 8;
            if !b(o, "ddsizes") {
                f.lcrc = Some(0);
                if !b(o, "ldfr") {
                    f.lc32 = 0;
                    f.lu32 = 0;
                }
            }
            let mut d = vec![];
            if dd == "sig" || dd == "sig64" {
                d.extend_from_slice(&0x08074b50u32.to_le_bytes());
            }
            d.extend_from_slice(&f.crc.to_le_bytes());
            if dd == "sig64" {
                d.extend_from_slice(&cs.to_le_bytes());
                d.extend_from_slice(&(data.len() as u64).to_le_bytes());
            } else {
                d.extend_from_slice(&(cs as u32).to_le_bytes());
                d.extend_from_slice(&(data.len() as u32).to_le_bytes());
            }
            f.dd = d;
        }
        // extra areas
        let up = unifield(0x7075, s(o, "up"), &nb, &nu);
        let uc = unifield(0x6375, s(o, "uc"), &cb, &cu);
        let xp = s(o, "xp");
        let mut area = |zf: &[u8], local: bool, er: &mut Rng| -> Vec<u8> {
            let mut v = vec![];
            if xp == "before" || xp == "both" {
                v.extend(other(er, 0));
                if er.below(2) == 0 { v.extend(other(er, 2)) }
            }
            if b(o, "ufirst") {
                v.extend_from_slice(&up);
                v.extend_from_slice(&uc);
                v.extend_from_slice(zf);
            } else {
                v.extend_from_slice(zf);
                v.extend_from_slice(&up);
                v.extend_from_slice(&uc);
            }
            if xp == "after" || xp == "both" || xp == "cafter" && !local {
                v.extend(other(er, 1));
                v.extend(other(er, 2));
            }
            if xp == "lonly" && local {
                v.extend(other(er, 3));
            }
            if xp == "mid0" {
                v.extend(field(0xbeef, &[]));
                v.extend(other(er, 0));
            }
            if xp == "dup" {
                // the same kind of field more than once, with the same and with other contents
                let q = other(er, 2);
                v.extend_from_slice(&q);
                v.extend_from_slice(&q);
                v.extend(other(er, 2));
                v.extend(other(er, 0));
                v.extend(other(er, 2));
            }
            if xp == "big" {
                v.extend(field(0xcafe, &vec![b'x'; 40_000]));
            }
            if xp == "end0" {
                v.extend(field(0xbeef, &[]));
            }
            match s(o, if local { "lmal" } else { "mal" }) {
                "" => (),
                "over1" => { let mut q = field(0x5455, &er.bytes(5)); q[2] += 1; v.extend(q) }
                "overmax" => { let mut q = field(0x5455, &er.bytes(5)); q[2] = 255; q[3] = 255; v.extend(q) }
                "overbig" => { let mut q = field(0x7075, &er.bytes(9)); q[2] = 60; v.extend(q) }
                "overz" => { let mut q = field(1, &er.bytes(8)); q[2] = 16; v.extend(q) }
                "over0" => { let mut q = field(0x5455, &[]); q[2] = 1; v.extend(q) }
                "trail1" => v.push(0),
                "trail2" => v.extend_from_slice(&[1, 0]),
                "trail3" => v.extend_from_slice(&[1, 0, 8]),
                x => panic!("harness: mal {x}"),
            }
            v
        };
        f.cextra = area(&zf, false, &mut er);
        f.lextra = area(&lzf, true, &mut er);
        if let Some(x) = num(&o["mnum"]) {
            f.lmethod = Some(f.method);
            f.method = x as u16;
            if !b(o, "conly") {
                f.lmethod = None;
            }
        }
        if let Some(x) = num(&o["lmnum"]) {
            f.lmethod = Some(x as u16);
        }
        f.csig = sigval(&mut er, s(o, "csig"), 0x02014b50);
        f.lsig = sigval(&mut er, s(o, "lsig"), 0x04034b50);
        if f.o32.is_none() {
            f.o32 = Some(at as u32);
        }
        at += 30 + f.name.len() as u64 + f.lextra.len() as u64 + f.data.len() as u64 + f.dd.len() as u64;
        es.push(f);
        plain.push(data);
    }
    let e = &case["end"];
    let mut end = FEnd { prefix, ..Default::default() };
    end.comment = match s(e, "cmt") {
        "" => vec![],
        "short" => b"archive comment".to_vec(),
        "blank" => model::blank(&mut r).into(),
        "bin" => vec![0xff, 0xfe, 0, 1, 2, b'P', b'K'],
        "utf8" => "Kommentar ñ".into(),
        "odd" => format!("{}{}", model::odd(&mut r, 1), model::odd(&mut r, 2)).into_bytes(),
        "bytes" => { let n = 1 + r.below(300) as usize; r.bytes(n) }
        "mid" => { let n = 1 + r.below(6000) as usize; vec![b'c'; n] }
        "max" => vec![b'm'; 65535],
        "sig" => { let n = r.pick(&[4, 30, 500, 2040, 2060, 5000]); let mut c = vec![b'.'; n]; crate::reading::signatures(&mut r, &mut c); c }
        x => panic!("harness: end cmt {x}"),
    };
    if let Some(n) = num(&e["clen"]) {
        end.comment = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    }
    end.disk = num(&e["disk"]).unwrap_or(0) as u16;
    end.cdd = num(&e["cdd"]).unwrap_or(0) as u16;
    let n = es.len() as i64;
    let delta = |k: &str| e.get(k).and_then(|x| x.as_i64()).map(|d| (n + d).max(0) as u64);
    end.nd = delta("nd").map(|x| x as u16);
    end.nt = delta("nt").map(|x| x as u16);
    if b(e, "z64") {
        let mut z = FZ64 { sector: { let k = num(&e["sector"]).unwrap_or(0) as usize; r.bytes(k) }, disk: end.disk as u32, cdd: end.cdd as u32, ..Default::default() };
        z.nd = delta("nd");
        z.nt = delta("nt");
        if let Some(x) = num(&e["zdisk"]) { z.disk = x as u32 }
        if let Some(x) = num(&e["zcdd"]) { z.cdd = x as u32 }
        for k in arr(e, "dfr") {
            match k.as_str().unwrap() {
                "nd" => end.nd = Some(0xffff),
                "nt" => end.nt = Some(0xffff),
                "cs" => end.cs = Some(M32 as u32),
                "co" => end.co = Some(M32 as u32),
                "disk" => end.disk = 0xffff,
                "cdd" => end.cdd = 0xffff,
                x => panic!("harness: end dfr {x}"),
            }
        }
        end.z64 = Some(z);
    }
    if s(e, "sig") == "none" {
        end.sig = Some(0x06054b51);
    }
    if gaps {
        end.gap = gap(&mut r);
    }
    if has(e, "arr", "after") {
        end.gap2 = gap(&mut r);
    }
    if es.is_empty() && s(e, "prefix") == "decoy" && !(end.gap.is_empty() && end.gap2.is_empty()) {
        // what lies where a ZIP64 locator would does not start in the decoy
        end.gap2.resize(end.gap2.len().max(20), 0);
    }
    if has(e, "arr", "perm") {
        // the directory lists the entries in another order than they lie in the file
        let mut p: Vec<usize> = (0..es.len()).collect();
        for i in (1..p.len()).rev() {
            p.swap(i, r.below(i as u64 + 1) as usize);
        }
        let (a, b): (Vec<_>, Vec<_>) = p.iter().map(|&i| (es[i].clone(), plain[i].clone())).unzip();
        es = a;
        plain = b;
        end.phys = vec![0; p.len()];
        for (j, i) in p.into_iter().enumerate() {
            end.phys[i] = j;
        }
    }
    let built = build(&es, &end);
    Foreign { es, end, built, plain }
}

fn extra_facts(x: &[u8], name: &[u8], comment: &[u8]) -> Value {
    let sp = split_extra(x);
    let used: usize = sp.fields.iter().map(|f| 4 + f.1.len()).sum();
    let over = x.len() - used >= 4;
    let short = |w: u16| sp.fields.iter().any(|f| f.0 == w && (f.1.is_empty() || f.1[0] == 1 && f.1.len() < 5));
    let j = extra_json(x, name, comment);
    json!({"over": over, "pshort": short(0x7075), "cshort": short(0x6375), "z": j["z"], "up": j["up"], "uc": j["uc"]})
}
pub fn facts(f: &Foreign) -> Value {
    let ents: Vec<Value> = f
        .es
        .iter()
        .enumerate()
        .map(|(i, e)| {
            let p = &f.plain[i];
            let uni_name = split_extra(&e.cextra).fields.iter().find(|x| x.0 == 0x7075).map(|x| x.1.clone()).unwrap_or_default();
            json!({"csig": e.csig == 0x02014b50, "lsig": e.lsig == 0x04034b50, "m": e.method, "lm": e.lmethod.unwrap_or(e.method), "fl": e.cflags.unwrap_or(e.flags), "lfl": e.flags,
                "nb": id(&e.name), "nutf8": std::str::from_utf8(&e.name).is_ok(), "nascii": e.name.is_ascii(), "dir": e.name.last() == Some(&b'/'), "udir": uni_name.get(5..).and_then(|x| x.last()) == Some(&b'/'),
                "cb": id(&e.comment), "cutf8": std::str::from_utf8(&e.comment).is_ok(), "cascii": e.comment.is_ascii(),
                "u32": limbs(e.cu32 as u64), "c32": limbs(e.cc32 as u64), "o32": limbs(e.o32.unwrap_or(f.built.loc[i].0 as u32) as u64), "cx": extra_facts(&e.cextra, &e.name, &e.comment),
                "lu32": limbs(e.lu32 as u64), "lc32": limbs(e.lc32 as u64), "lx": extra_facts(&e.lextra, &e.name, &e.comment),
                "crc": hx32(e.crc), "lcrc": hx32(e.lcrc.unwrap_or(e.crc)), "dt": format!("{:04x}-{:04x}", e.date, e.time), "ia": hx16(e.ia), "ea": hx32(e.ea), "perm": e.ea >> 16,
                "off": limbs(f.built.loc[i].0), "pid": id(p), "pcrc": hx32(crc32(p)), "plen": limbs(p.len() as u64), "hs": 30 + e.name.len() + e.cextra.len(), "xn": split_extra(&e.cextra).fields.len()})
        })
        .collect();
    let n = f.es.len() as u64;
    let cds = (f.built.bytes.len() as u64, f.built.cdo);
    let _ = cds;
    let z = match &f.end.z64 {
        None => json!({"has": false, "rnd": limbs(0), "rnt": limbs(0), "rcs": limbs(0), "rco": limbs(0), "rdisk": limbs(0), "rcdd": limbs(0)}),
        Some(z) => json!({"has": true, "rnd": limbs(z.nd.unwrap_or(n)), "rnt": limbs(z.nt.unwrap_or(n)), "rcs": limbs(0), "rco": limbs(z.co.unwrap_or(f.built.cdo)),
            "rdisk": limbs(z.disk as u64), "rcdd": limbs(z.cdd as u64)}),
    };
    json!({"e": "Given", "found": f.end.sig.is_none(), "cid": id(&f.end.comment), "ents": ents, "z64": z,
        "end": {"nd": limbs(f.end.nd.unwrap_or(n as u16) as u64), "nt": limbs(f.end.nt.unwrap_or(n as u16) as u64), "cs": limbs(f.end.cs.unwrap_or(0) as u64),
                "co": limbs(f.end.co.unwrap_or(f.built.cdo as u32) as u64), "disk": limbs(f.end.disk as u64), "cdd": limbs(f.end.cdd as u64)}})
}
#[allow(dead_code)]
pub fn decoded(m: u16, d: &[u8]) -> Vec<u8> {
    codec::decompress(m, d).unwrap_or_default()
}
