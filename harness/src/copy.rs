//! Entries taken from one archive and written into another (C15), and metadata around the length limits (C13).
use crate::exec::run;
use crate::fams::{emit, emits, laid_of};
use crate::foreign;
use crate::io::*;
use crate::model::*;
use crate::rawzip::{self, field, FEnd, FEntry};
use crate::util::*;
use crate::views::*;
use crate::writer::{self, Written};
use async_zip::base::read::{mem, seek, stream};
use async_zip::{ZipEntry, ZipEntryBuilder};
use serde_json::{json, Value};
use std::rc::Rc;

/// The entries of an archive as a reader hands them out.
fn obtain(bytes: &[u8], via: &str) -> Result<Vec<ZipEntry>, String> {
    run(async {
        match via {
            "mem" => Ok(mem::ZipFileReader::new(bytes.to_vec()).await.map_err(|e| errname(&e))?.file().entries().iter().map(|e| (**e).clone()).collect()),
            "seek" => Ok(seek::ZipFileReader::new(Src::new(bytes.to_vec(), Sched::free())).await.map_err(|e| errname(&e))?.file().entries().iter().map(|e| (**e).clone()).collect()),
            "stream" => {
                let mut z = stream::ZipFileReader::new(bytes);
                let mut v = vec![];
                while let Some(rd) = z.next_with_entry().await.map_err(|e| errname(&e))? {
                    v.push(rd.reader().entry().clone());
                    z = rd.skip().await.map_err(|e| errname(&e))?;
                }
                Ok(v)
            }
            x => panic!("harness: via {x}"),
        }
    })
}
/// What a constructed entry means, by the format alone.
fn meaning(f: &FEntry, plain: &[u8], via: &str) -> Ent {
    let local = via == "stream";
    let x = rawzip::split_extra(if local { &f.lextra } else { &f.cextra });
    let flag = (if local { f.flags } else { f.cflags.unwrap_or(f.flags) }) & 0x800 != 0;
    let text = |basic: &[u8], which: u16| -> Text {
        if flag {
            // bytes that are not UTF-8 in spite of the flag remain just bytes
            return Text { bytes: basic.to_vec(), utf8: std::str::from_utf8(basic).is_ok(), alt: None };
        }
        if let Some((_, b)) = x.fields.iter().find(|y| y.0 == which) {
            if b.len() >= 5 && b[0] == 1 && b[1..5] == crc32(basic).to_le_bytes() && std::str::from_utf8(&b[5..]).is_ok() {
                return Text { bytes: b[5..].to_vec(), utf8: true, alt: Some(basic.to_vec()) };
            }
        }
        Text { bytes: basic.to_vec(), utf8: basic.is_ascii(), alt: None }
    };
    Ent {
        name: text(&f.name, 0x7075),
        comment: if local { Text::u("") } else { text(&f.comment, 0x6375) },
        m: f.method,
        level: None,
        date: f.date,
        time: f.time,
        ia: if local { 0 } else { f.ia },
        ea: if local { 0 } else { f.ea },
        data: Rc::new(plain.to_vec()),
        base: None,
        xs: x.fields.iter().filter(|y| ![1, 0x7075, 0x6375].contains(&y.0)).cloned().collect(),
        us_override: None,
        asis: false,
        comp: Some(Rc::new(f.data.clone())),
    }
}
/// The stored bytes of entry i of an archive, by the independent parser.
fn stored(bytes: &Vec<u8>, clen: u64) -> Vec<Option<Vec<u8>>> {
    let raw = rawzip::parse(bytes, clen, &rawzip::RawOpts { data: false, max: 100_000 });
    arr(&raw, "cd")
        .iter()
        .zip(arr(&raw, "loc"))
        .map(|(c, l)| if b(l, "ok") { Bytes::get(bytes, unlimbs(&l["doff"]), unlimbs(&c["ec"]) as usize) } else { None })
        .collect()
}
fn show(w: &Written, r: &mut Rng) {
    let bytes = w.sink.bytes();
    let mut raw = rawzip::parse(&bytes, w.comment.len() as u64, &rawzip::RawOpts { data: true, max: 100_000 });
    let laid = laid_of(&raw);
    raw["e"] = json!("Raw");
    raw["cmtlen"] = json!(w.comment.len());
    emit(raw);
    emit(laid);
    emit(mem_view(&bytes, r));
    if !w.dead {
        // stale sizes in the local headers would show here
        let truth: Vec<Vec<u8>> = w.ents.iter().map(|e| e.0.data.to_vec()).collect();
        let plan: Vec<String> = (0..3).map(|_| r.pick(&["read", "skip", "checked", "part_wo", "inner"]).to_string()).collect();
        emits(stream_walk(&bytes, Sched::free(), &plan, &truth, r, None));
    }
}
pub fn copy(case: &Value, seed: u64, idx: u64) {
    let mut r = Rng::new(seed, idx, 31);
    let via0 = s(&arr(case, "gens")[0], "via");
    let (mut bytes, mut truth, mut clen): (Vec<u8>, Vec<Ent>, u64) = if case.get("ops").is_some() {
        let w = writer::program(case, seed, idx, Sched::free(), &mut |_, _, _| ());
        emits(w.ev.clone());
        let t = w.ents.iter().map(|e| {
            let mut x = e.0.clone();
            if via0 == "stream" {
                local_only(&mut x);
            }
            x
        }).collect();
        (w.sink.bytes(), t, w.comment.len() as u64)
    } else {
        let f = foreign::make(case, seed, idx);
        let t = f.es.iter().zip(&f.plain).map(|(e, p)| meaning(e, p, via0)).collect();
        let n = f.end.comment.len() as u64;
        (f.built.bytes, t, n)
    };
    for (g, gen) in arr(case, "gens").iter().enumerate() {
        let (via, mode, k) = (s(gen, "via"), s(gen, "mode"), s(gen, "k"));
        let got = match obtain(&bytes, via) {
            Ok(v) => v,
            Err(e) => {
                emit(json!({"e": "Panic", "why": format!("generation {g}: the source is refused with {e}")}));
                return;
            }
        };
        if got.len() != truth.len() {
            emit(json!({"e": "Panic", "why": format!("generation {g}: the source lists {} entries, not {}", got.len(), truth.len())}));
            return;
        }
        let raws = stored(&bytes, clen);
        let kinds: Vec<String> = truth.iter().enumerate().map(|(i, _)| if k == "mix" { ["W", "P", "S", "Q"][(i + g + seed as usize) % 4].to_string() } else { k.to_string() }).collect();
        let ops: Vec<Value> = kinds.iter().map(|k| json!({"k": k})).collect();
        let sub = json!({"mode": mode, "ops": ops, "cmt": "short"});
        let w = writer::program(&sub, seed, idx * 16 + g as u64, Sched::free(), &mut |e, _, i| {
            let mut t = truth[i].clone();
            if via == "stream" {
                local_only(&mut t);
            }
            t.base = Some(got[i].clone());
            t.asis = true;
            t.comp = raws.get(i).cloned().flatten().map(Rc::new);
            *e = t;
        });
        emits(w.ev.clone());
        if !w.ok {
            return;
        }
        show(&w, &mut r);
        truth = w.ents.iter().map(|e| e.0.clone()).collect();
        bytes = w.sink.bytes();
        clen = w.comment.len() as u64;
    }
}
/// A local header carries neither comment nor attributes.
fn local_only(e: &mut Ent) {
    e.comment = Text::u("");
    e.ia = 0;
    e.ea = 0;
}

// ------------------------------------------------------------------------------------------------ limits of metadata

fn txt(r: &mut Rng, kind: &str, n: usize) -> Text {
    match kind {
        "u" => Text::u(&(0..n).map(|i| (b'a' + ((i + n) % 26) as u8) as char).collect::<String>()),
        // two- and three-byte characters, padded to the exact length
        "mb" => {
            let mut x = String::new();
            while x.len() + 3 <= n {
                x.push(if x.len() % 2 == 0 { 'ü' } else { '日' });
            }
            while x.len() < n {
                x.push('z');
            }
            Text::u(&x)
        }
        "raw" => {
            let mut v = r.bytes(n);
            if let Some(x) = v.first_mut() {
                *x = 0xff;
            }
            Text::raw(&v)
        }
        // short text, long legacy bytes
        "alt" => {
            let mut v = r.bytes(n);
            if let Some(x) = v.first_mut() {
                *x = 0xff;
            }
            Text::alt("kürz", &v)
        }
        // long text (n bytes of Unicode field), short legacy bytes
        "altu" => {
            let t = txt(r, "mb", n.saturating_sub(9));
            Text { alt: Some(b"short".to_vec()), ..t }
        }
        x => panic!("harness: text kind {x}"),
    }
}
/// An entry whose extra fields take exactly n bytes, obtained by reading archives that carry them.
pub fn with_extra(r: &mut Rng, n: usize) -> (ZipEntry, Vec<(u16, Vec<u8>)>) {
    let mut left = n;
    let mut all: Vec<(u16, Vec<u8>)> = vec![];
    let mut got = None;
    let mut first: Option<ZipEntry> = None;
    while left > 0 {
        // one area of at most 65535 bytes; what is left afterwards must be able to hold a field
        let mut area = left.min(65535);
        if left > area && left - area < 5 {
            area -= 5;
        }
        left -= area;
        let mut fs = vec![];
        while area > 0 {
            let mut k = area;
            if area > 20 && r.below(3) > 0 {
                k = 5 + r.below(area as u64 - 10) as usize;
                if area - k < 5 {
                    k = area;
                }
            }
            fs.push((r.pick(&[0x5455u16, 0x7875, 0xcafe, 0x000a]), r.bytes(k - 4)));
            area -= k;
        }
        let mut f = FEntry::plain(b"x", 0, b"");
        f.cextra = fs.iter().flat_map(|x| field(x.0, &x.1)).collect();
        let z = run(mem::ZipFileReader::new(rawzip::build(&[f], &FEnd::default()).bytes)).expect("archive with extra fields refused");
        let e: ZipEntry = (*z.file().entries()[0]).clone();
        match &mut got {
            None => got = Some(e.extra_fields().to_vec()),
            Some(g) => g.extend(e.extra_fields().to_vec()),
        }
        first.get_or_insert(e);
        all.extend(fs);
    }
    let e = ZipEntryBuilder::from(first.unwrap()).extra_fields(got.unwrap()).build();
    (e, all)
}
pub fn tune_limits(e: &mut Ent, op: &Value, seed: u64, i: usize) {
    let mut r = Rng::new(seed, i as u64, 4711);
    if op.get("nl").is_some() {
        e.name = txt(&mut r, s(op, "nk"), n(op, "nl") as usize);
    }
    if op.get("cl").is_some() {
        e.comment = txt(&mut r, s(op, "ck"), n(op, "cl") as usize);
    }
    if n(op, "xl") > 0 {
        let (b, xs) = with_extra(&mut r, n(op, "xl") as usize);
        e.base = Some(b);
        e.xs = xs;
    }
}
