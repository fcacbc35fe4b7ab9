//! MS-DOS dates: words read from archives, the builder, and chrono.
use crate::exec::run;
use crate::fams::emit;
use crate::rawzip::{build, FEnd, FEntry};
use crate::util::*;
use async_zip::base::read::{mem, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::{Compression, ZipDateTime, ZipDateTimeBuilder, ZipEntryBuilder};
use chrono::{DateTime, Datelike, LocalResult, TimeZone, Timelike, Utc};
use serde_json::{json, Value};

fn fields(d: &ZipDateTime) -> Value {
    json!([d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second()])
}
fn chr(d: &ZipDateTime) -> Value {
    let show = |x: LocalResult<DateTime<Utc>>| match x {
        LocalResult::Single(c) => json!([c.year(), c.month(), c.day(), c.hour(), c.minute(), c.second()]),
        LocalResult::None => json!([]),
        LocalResult::Ambiguous(..) => json!([0]),
    };
    let a = show(d.as_chrono());
    let b = show(LocalResult::<DateTime<Utc>>::from(*d));
    let c = show(LocalResult::<DateTime<Utc>>::from(d));
    if a == b && b == c { a } else { json!([0]) }
}
/// An archive whose entries carry the given words.
fn carrying(ws: &[(u16, u16)]) -> Vec<u8> {
    let es: Vec<FEntry> = ws
        .iter()
        .enumerate()
        .map(|(i, (d, t))| {
            let mut f = FEntry::plain(format!("{i}").as_bytes(), 0, b"x");
            f.date = *d;
            f.time = *t;
            f
        })
        .collect();
    build(&es, &FEnd::default()).bytes
}
fn read_words(ws: &[(u16, u16)]) -> Vec<ZipDateTime> {
    let z = run(mem::ZipFileReader::new(carrying(ws))).expect("archive of dates refused");
    z.file().entries().iter().map(|e| *e.last_modification_date()).collect()
}
pub fn dos(case: &Value, seed: u64, idx: u64) {
    let mut r = Rng::new(seed, idx, 1);
    let hi = (n(case, "hi") as u16) << 8;
    let ws: Vec<(u16, u16)> = (0..256u16)
        .map(|lo| {
            let w = hi | lo;
            // the other word: sometimes anything, mostly a possible one
            let date = ((r.below(128) as u16) << 9) | ((1 + r.below(12) as u16) << 5) | (1 + r.below(28) as u16);
            let time = ((r.below(24) as u16) << 11) | ((r.below(60) as u16) << 5) | r.below(30) as u16;
            let any = r.next() as u16;
            let wild = r.below(8) == 0;
            if s(case, "what") == "date" { (w, if wild { any } else { time }) } else { (if wild { any } else { date }, w) }
        })
        .collect();
    let seen = read_words(&ws);
    let mut streamed = vec![];
    run(async {
        let bytes = carrying(&ws);
        let mut z = stream::ZipFileReader::new(&bytes[..]);
        while let Ok(Some(rd)) = z.next_with_entry().await {
            streamed.push(*rd.reader().entry().last_modification_date());
            match rd.skip().await {
                Ok(b) => z = b,
                Err(_) => return,
            }
        }
    });
    for got in [seen, streamed] {
        let cells: Vec<Value> = ws.iter().zip(&got).map(|((d, t), g)| json!({"d": d, "t": t, "f": fields(g), "ch": chr(g)})).collect();
        emit(json!({"e": "Obs", "fam": "dos", "n": got.len(), "want": ws.len(), "cells": cells}));
    }
}
pub fn builds(case: &Value, seed: u64, idx: u64) {
    let mut r = Rng::new(seed, idx, 1);
    let (d0, t0) = match s(case, "start") {
        "new" | "default" => (0, 0),
        "ones" => (0xffff, 0xffff),
        "zeros" => (0, 0),
        "word" => (r.next() as u16, r.next() as u16),
        x => panic!("harness: start {x}"),
    };
    let mut b = match s(case, "start") {
        "new" => ZipDateTimeBuilder::new(),
        "default" => ZipDateTimeBuilder::default(),
        _ => ZipDateTimeBuilder::from(read_words(&[(d0, t0)])[0]),
    };
    let mut calls = vec![];
    for c in arr(case, "calls") {
        let f = s(c, "f");
        let (lo, hi) = match f {
            "year" => (1980, 2107),
            "month" => (1, 12),
            "day" => (1, 31),
            "hour" => (0, 23),
            "minute" => (0, 59),
            _ => (0, 59),
        };
        let v = match s(c, "v") {
            "lo" => lo,
            "hi" => hi,
            "mid" => (lo + hi + 1) / 2,
            _ => lo + r.below(hi - lo + 1),
        };
        b = match f {
            "year" => b.year(v as i32),
            "month" => b.month(v as u32),
            "day" => b.day(v as u32),
            "hour" => b.hour(v as u32),
            "minute" => b.minute(v as u32),
            "second" => b.second(v as u32),
            x => panic!("harness: setter {x}"),
        };
        calls.push(json!({"f": f, "v": v}));
    }
    let dt = if r.below(2) == 0 { b.build() } else { ZipDateTime::from(b) };
    // into an archive, whole and streamed
    let bytes = run(async {
        let mut w = ZipFileWriter::new(Vec::<u8>::new());
        w.write_entry_whole(ZipEntryBuilder::new("a".into(), Compression::Stored).last_modification_date(dt), b"x").await?;
        let s = w.write_entry_stream(ZipEntryBuilder::from(ZipEntryBuilder::new("b".into(), Compression::Deflate).last_modification_date(dt).build())).await?;
        s.close().await?;
        w.close().await
    });
    let words = match bytes {
        Ok(bs) => {
            // local and central headers lie where this crate's own layout puts them; found by signature
            let mut v = vec![];
            for (sig, at) in [(b"PK\x03\x04", 10), (b"PK\x01\x02", 12)] {
                for i in 0..bs.len().saturating_sub(at + 4) {
                    if &bs[i..i + 4] == sig {
                        let w = |o: usize| bs[i + o] as u64 | (bs[i + o + 1] as u64) << 8;
                        v.push(json!([w(at + 2), w(at)]));
                    }
                }
            }
            v
        }
        Err(_) => vec![],
    };
    emit(json!({"e": "Obs", "fam": "build", "d0": d0, "t0": t0, "calls": calls, "f": fields(&dt), "ch": chr(&dt), "words": words}));
}
pub fn chronos(case: &Value, seed: u64, idx: u64) {
    let mut r = Rng::new(seed, idx, 1);
    let mut cells = vec![];
    let mut put = |c: DateTime<Utc>| {
        let g = json!([c.year(), c.month(), c.day(), c.hour(), c.minute(), c.second()]);
        let a = ZipDateTime::from_chrono(&c);
        let b: ZipDateTime = c.into();
        let d: ZipDateTime = (&c).into();
        let same = a == b && b == d;
        cells.push(json!({"g": g, "f": fields(&a), "ch": chr(&a), "same": same}));
    };
    match s(case, "kind") {
        "days" => {
            let y = n(case, "year") as i32;
            let mut c = Utc.with_ymd_and_hms(y, 1, 1, 0, 0, 0).unwrap();
            while c.year() == y {
                put(c + chrono::Duration::milliseconds(r.below(86_400_000) as i64));
                c += chrono::Duration::days(1);
            }
        }
        "secs" => {
            let h = n(case, "hour") as i64;
            for k in 0..1800 {
                let d = Utc.with_ymd_and_hms(1980 + r.below(128) as i32, 1 + r.below(12) as u32, 1 + r.below(28) as u32, 0, 0, 0).unwrap();
                put(d + chrono::Duration::milliseconds((h * 1800 + k) * 1000 + r.below(1000) as i64));
            }
        }
        x => panic!("harness: chrono {x}"),
    }
    emit(json!({"e": "Obs", "fam": "chrono", "cells": cells}));
}
