//! Independent use of the codecs (async-compression directly, never through the crate under test).
use async_compression::futures::{bufread, write};
use async_compression::Level;
use futures_lite::io::{AsyncReadExt, AsyncWriteExt, Cursor};

pub const STORED: u16 = 0;
pub const DEFLATE: u16 = 8;
pub const DEFLATE64: u16 = 9;
pub const BZ: u16 = 12;
pub const LZMA: u16 = 14;
pub const ZSTD: u16 = 93;
pub const XZ: u16 = 95;

pub fn compress(m: u16, data: &[u8], fast: bool) -> Vec<u8> {
    let q = if fast { Level::Fastest } else { Level::Default };
    macro_rules! go {
        ($t:ident) => {{
            crate::exec::run(async {
                let mut w = write::$t::with_quality(Cursor::new(Vec::new()), q);
                w.write_all(data).await.unwrap();
                w.close().await.unwrap();
                w.into_inner().into_inner()
            })
        }};
    }
    match m {
        STORED => data.to_vec(),
        DEFLATE => go!(DeflateEncoder),
        // deflate64 shares the stored-block format with deflate
        DEFLATE64 => {
            let mut v = vec![];
            let mut it = data.chunks(65535).peekable();
            if data.is_empty() {
                v.extend_from_slice(&[1, 0, 0, 0xff, 0xff]);
            }
            while let Some(c) = it.next() {
                v.push(it.peek().is_none() as u8);
                v.extend_from_slice(&(c.len() as u16).to_le_bytes());
                v.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
                v.extend_from_slice(c);
            }
            v
        }
        BZ => go!(BzEncoder),
        LZMA => go!(LzmaEncoder),
        ZSTD => go!(ZstdEncoder),
        XZ => go!(XzEncoder),
        _ => panic!("harness: method {m}"),
    }
}
pub fn decompress(m: u16, data: &[u8]) -> Result<Vec<u8>, String> {
    macro_rules! go {
        ($t:ident) => {{
            crate::exec::run(async {
                let mut o = vec![];
                bufread::$t::new(Cursor::new(data)).read_to_end(&mut o).await.map_err(|e| format!("{e:?}"))?;
                Ok(o)
            })
        }};
    }
    match m {
        STORED => Ok(data.to_vec()),
        DEFLATE => go!(DeflateDecoder),
        DEFLATE64 => go!(Deflate64Decoder),
        BZ => go!(BzDecoder),
        LZMA => go!(LzmaDecoder),
        ZSTD => go!(ZstdDecoder),
        XZ => go!(XzDecoder),
        _ => Err(format!("method {m}")),
    }
}
