//! Independent implementation of the file format: a strict decoder (conformance oracle) and an encoder
//! producing any block layout, including layouts the real writer only reaches with huge inputs.
use std::collections::BTreeMap;
use std::io::{Read, Write};

pub const MAGIC_V1: u32 = 0x76324D4C;
pub const MAGIC_V2: u32 = 0x6723D4C4;
pub const NONE: u8 = 0;
pub const SNAPPY_OLD: u8 = 1;
pub const ZLIB: u8 = 2;
pub const LZ4: u8 = 3;
pub const ZSTD: u8 = 4;
pub const SNAPPY: u8 = 5;
pub const CODECS: [u8; 6] = [NONE, SNAPPY_OLD, ZLIB, LZ4, ZSTD, SNAPPY];

pub type Ents = Vec<(Vec<u8>, Vec<u8>)>;

pub fn decompress(codec: u8, data: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let e = |x: &dyn std::fmt::Display| format!("codec {codec}: {x}");
    match codec {
        NONE => out.extend_from_slice(data),
        SNAPPY_OLD => out = snap::raw::Decoder::new().decompress_vec(data).map_err(|x| e(&x))?,
        ZLIB => {
            let mut d = flate2::bufread::ZlibDecoder::new(data);
            d.read_to_end(&mut out).map_err(|x| e(&x))?;
            if d.total_in() != data.len() as u64 {
                return Err(format!("codec {codec}: {} bytes after the zlib stream", data.len() as u64 - d.total_in()));
            }
        }
        LZ4 => {
            lz4_flex::frame::FrameDecoder::new(data).read_to_end(&mut out).map_err(|x| e(&x))?;
        }
        ZSTD => out = zstd::stream::decode_all(data).map_err(|x| e(&x))?,
        SNAPPY => {
            snap::read::FrameDecoder::new(data).read_to_end(&mut out).map_err(|x| e(&x))?;
        }
        c => return Err(format!("unknown codec {c}")),
    }
    Ok(out)
}

pub fn compress(codec: u8, data: &[u8]) -> Vec<u8> {
    match codec {
        NONE => data.to_vec(),
        SNAPPY_OLD => snap::raw::Encoder::new().compress_vec(data).unwrap(),
        ZLIB => {
            let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(3));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        LZ4 => {
            let mut e = lz4_flex::frame::FrameEncoder::new(Vec::new());
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        ZSTD => zstd::stream::encode_all(data, 1).unwrap(),
        SNAPPY => {
            let mut e = snap::write::FrameEncoder::new(Vec::new());
            e.write_all(data).unwrap();
            e.into_inner().unwrap()
        }
        _ => unreachable!(),
    }
}

pub fn varint(mut v: u32, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

/// Strict LEB128 of a u32: at most five bytes, value within range, no padding.
pub fn unvarint(b: &[u8]) -> Result<(u32, usize), String> {
    let mut v: u64 = 0;
    for i in 0..5 {
        let Some(&x) = b.get(i) else { return Err("truncated varint".into()) };
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            if v > u32::MAX as u64 {
                return Err("varint above 2^32-1".into());
            }
            if i > 0 && x == 0 {
                return Err("padded varint".into());
            }
            return Ok((v as u32, i + 1));
        }
    }
    Err("varint longer than five bytes".into())
}

pub fn encode_block(entries: &[(&[u8], &[u8])], interval: usize) -> Vec<u8> {
    let mut buf = vec![];
    let mut offs = vec![0u64];
    for (i, (k, v)) in entries.iter().enumerate() {
        if i > 0 && i % interval == 0 {
            offs.push(buf.len() as u64);
        }
        varint(k.len() as u32, &mut buf);
        varint(v.len() as u32, &mut buf);
        buf.extend_from_slice(k);
        buf.extend_from_slice(v);
    }
    for o in &offs {
        buf.extend_from_slice(&o.to_be_bytes());
    }
    buf.extend_from_slice(&(offs.len() as u32).to_be_bytes());
    buf
}

pub fn trailer_v2(root: u64, codec: u8, count: u64, levels: u8) -> Vec<u8> {
    let mut t = root.to_le_bytes().to_vec();
    t.push(codec);
    t.extend_from_slice(&count.to_le_bytes());
    t.push(levels);
    t.extend_from_slice(&MAGIC_V2.to_le_bytes());
    t
}
pub fn trailer_v1(root: u64, codec: u8, count: u64) -> Vec<u8> {
    let mut t = root.to_le_bytes().to_vec();
    t.push(codec);
    t.extend_from_slice(&count.to_le_bytes());
    t.extend_from_slice(&MAGIC_V1.to_le_bytes());
    t
}

/// Builds a version-2 file. `cuts[i]` (0..=levels+1) says which blocks end after entry `i`: 0 none,
/// 1 the data block, 2 the data block and the lowest index block, and so on up to the level below
/// the root. The last entry ends everything.
pub fn encode(ents: &Ents, levels: u8, cuts: &[u8], interval: usize, codec: u8) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    let l = levels as usize;
    // index[0] is the lowest index level, index[l] the root.
    let mut index: Vec<Vec<(Vec<u8>, u64)>> = vec![vec![]; l + 1];
    let mut data: Vec<(&[u8], &[u8])> = vec![];
    let emit = |out: &mut Vec<u8>, e: &[(&[u8], &[u8])]| -> u64 {
        let off = out.len() as u64;
        let raw = encode_block(e, interval);
        let c = compress(codec, &raw);
        out.extend_from_slice(&(c.len() as u64).to_be_bytes());
        out.extend_from_slice(&c);
        off
    };
    for (i, (k, v)) in ents.iter().enumerate() {
        data.push((k, v));
        let cut = if i + 1 == ents.len() { levels as usize + 1 } else { cuts[i] as usize };
        if cut >= 1 {
            let off = emit(&mut out, &data);
            data.clear();
            index[0].push((k.clone(), off));
        }
        for j in 1..cut.min(l + 1) {
            let off = {
                let offs: Vec<[u8; 8]> = index[j - 1].iter().map(|(_, o)| o.to_be_bytes()).collect();
                let e: Vec<(&[u8], &[u8])> =
                    index[j - 1].iter().zip(&offs).map(|((k, _), o)| (&k[..], &o[..])).collect();
                emit(&mut out, &e)
            };
            index[j - 1].clear();
            index[j].push((k.clone(), off));
        }
    }
    let offs: Vec<[u8; 8]> = index[l].iter().map(|(_, o)| o.to_be_bytes()).collect();
    let e: Vec<(&[u8], &[u8])> = index[l].iter().zip(&offs).map(|((k, _), o)| (&k[..], &o[..])).collect();
    let root = emit(&mut out, &e);
    out.extend(trailer_v2(root, codec, ents.len() as u64, levels));
    out
}

/// Turns a single-level version-2 file into the equivalent version-1 file.
pub fn to_v1(v2: &[u8]) -> Vec<u8> {
    let t = &v2[v2.len() - 22..];
    assert_eq!(t[17], 0, "version 1 files have a single index level");
    let mut out = v2[..v2.len() - 22].to_vec();
    out.extend_from_slice(&t[..17]);
    out.extend_from_slice(&MAGIC_V1.to_le_bytes());
    out
}

#[derive(Debug, Clone)]
pub struct BlockInfo {
    pub offset: u64,
    pub stored: u64,
    pub raw: usize,
    /// 0: data; 1: lowest index level; ...; levels + 1: root.
    pub level: usize,
    pub entries: usize,
    /// Raw size this block would have without its last entry (and the table slot that entry opened).
    pub raw_without_last: usize,
    /// Position among the blocks of its level.
    pub rank: usize,
}
#[derive(Debug, Clone)]
pub struct Decoded {
    pub version: u8,
    pub codec: u8,
    pub count: u64,
    pub levels: u8,
    pub root: u64,
    pub entries: Ents,
    pub blocks: Vec<BlockInfo>,
}

pub struct Trailer {
    pub version: u8,
    pub root: u64,
    pub codec: u8,
    pub count: u64,
    pub levels: u8,
    pub len: usize,
}
pub fn parse_trailer(b: &[u8]) -> Option<Trailer> {
    let n = b.len();
    if n < 4 {
        return None;
    }
    let magic = u32::from_le_bytes(b[n - 4..].try_into().unwrap());
    let (version, len) = match magic {
        MAGIC_V1 => (1, 21),
        MAGIC_V2 => (2, 22),
        _ => return None,
    };
    if n < len {
        return None;
    }
    let t = &b[n - len..];
    let codec = t[8];
    if codec > 5 {
        return None;
    }
    Some(Trailer {
        version,
        root: u64::from_le_bytes(t[..8].try_into().unwrap()),
        codec,
        count: u64::from_le_bytes(t[9..17].try_into().unwrap()),
        levels: if version == 2 { t[17] } else { 0 },
        len,
    })
}

struct RawBlock {
    offset: u64,
    stored: u64,
    raw: usize,
    entries: Ents,
    without_last: usize,
}

/// `interval`: the in-block index interval every block must use.
fn parse_block(b: &[u8], offset: u64, limit: u64, codec: u8, interval: usize) -> Result<RawBlock, String> {
    let at = |m: String| format!("block at {offset}: {m}");
    if offset.checked_add(8).map_or(true, |e| e > limit) {
        return Err(at("length prefix outside of the block area".into()));
    }
    let o = offset as usize;
    let stored = u64::from_be_bytes(b[o..o + 8].try_into().unwrap());
    if stored > limit - offset - 8 {
        return Err(at(format!("stored length {stored} outside of the block area")));
    }
    let raw = decompress(codec, &b[o + 8..o + 8 + stored as usize]).map_err(at)?;
    if raw.len() < 4 {
        return Err(at("no offsets count".into()));
    }
    let cnt = u32::from_be_bytes(raw[raw.len() - 4..].try_into().unwrap()) as usize;
    let table = cnt * 8 + 4;
    if table > raw.len() {
        return Err(at(format!("offsets count {cnt} too large")));
    }
    let payload = &raw[..raw.len() - table];
    let offs: Vec<u64> = raw[raw.len() - table..raw.len() - 4]
        .chunks(8)
        .map(|c| u64::from_be_bytes(c.try_into().unwrap()))
        .collect();
    let mut entries = vec![];
    let mut starts = vec![];
    let mut p = 0;
    while p < payload.len() {
        starts.push(p as u64);
        let (kl, a) = unvarint(&payload[p..]).map_err(at)?;
        p += a;
        let (vl, a) = unvarint(&payload[p..]).map_err(at)?;
        p += a;
        let (kl, vl) = (kl as usize, vl as usize);
        if payload.len() - p < kl + vl {
            return Err(at("entry outside of the payload".into()));
        }
        entries.push((payload[p..p + kl].to_vec(), payload[p + kl..p + kl + vl].to_vec()));
        p += kl + vl;
    }
    let mut want: Vec<u64> = starts.iter().copied().step_by(interval).collect();
    if want.is_empty() {
        want.push(0);
    }
    if offs != want {
        return Err(at(format!("offsets table {offs:?} instead of {want:?} ({} entries, interval {interval})", entries.len())));
    }
    let without_last = match starts.len() {
        0 => raw.len(),
        n => {
            let opened = n > 1 && (n - 1) % interval == 0;
            starts[n - 1] as usize + (offs.len() - opened as usize) * 8 + 4
        }
    };
    Ok(RawBlock { offset, stored, raw: raw.len(), entries, without_last })
}

/// Decodes and checks the whole file: trailer, block area exactly tiled by the blocks reachable from
/// the root, offsets tables, index entries equal to the last key of their child, strict key order.
pub fn decode(b: &[u8], interval: usize) -> Result<Decoded, String> {
    let t = parse_trailer(b).ok_or("no valid trailer")?;
    let limit = (b.len() - t.len) as u64;
    let mut blocks = vec![];
    let mut entries: Ents = vec![];
    let mut spans: BTreeMap<u64, u64> = BTreeMap::new();
    let mut ranks = vec![0usize; t.levels as usize + 2];
    // Depth first, left to right.
    fn walk(
        b: &[u8],
        off: u64,
        level: usize,
        limit: u64,
        t: &Trailer,
        interval: usize,
        blocks: &mut Vec<BlockInfo>,
        entries: &mut Ents,
        spans: &mut BTreeMap<u64, u64>,
        ranks: &mut Vec<usize>,
    ) -> Result<Option<Vec<u8>>, String> {
        let r = parse_block(b, off, limit, t.codec, interval)?;
        if spans.insert(r.offset, 8 + r.stored).is_some() {
            return Err(format!("block at {off} referenced twice"));
        }
        blocks.push(BlockInfo {
            offset: off,
            stored: r.stored,
            raw: r.raw,
            level,
            entries: r.entries.len(),
            raw_without_last: r.without_last,
            rank: ranks[level],
        });
        ranks[level] += 1;
        let is_root = level == t.levels as usize + 1;
        if r.entries.is_empty() && !is_root {
            return Err(format!("empty block at {off}, level {level}"));
        }
        for w in r.entries.windows(2) {
            if w[0].0 >= w[1].0 {
                return Err(format!("block at {off}, level {level}: keys {:02x?} then {:02x?}", w[0].0, w[1].0));
            }
        }
        let last = r.entries.last().map(|(k, _)| k.clone());
        if level == 0 {
            if let (Some((p, _)), Some((n, _))) = (entries.last(), r.entries.first()) {
                if p >= n {
                    return Err(format!("data block at {off} starts with {n:02x?} after {p:02x?}"));
                }
            }
            entries.extend(r.entries);
        } else {
            for (k, v) in &r.entries {
                let o: [u8; 8] = v[..].try_into().map_err(|_| format!("index value of {} bytes", v.len()))?;
                let o = u64::from_be_bytes(o);
                let lk = walk(b, o, level - 1, limit, t, interval, blocks, entries, spans, ranks)?;
                if lk.as_ref() != Some(k) {
                    return Err(format!("index block at {off}: key {k:02x?} for a child whose last key is {lk:02x?}"));
                }
            }
        }
        Ok(last)
    }
    walk(b, t.root, t.levels as usize + 1, limit, &t, interval, &mut blocks, &mut entries, &mut spans, &mut ranks)?;
    let mut p = 0;
    for (o, l) in &spans {
        if *o != p {
            return Err(format!("bytes {p}..{o} belong to no block"));
        }
        p += l;
    }
    if p != limit {
        return Err(format!("bytes {p}..{limit} belong to no block"));
    }
    if t.count != entries.len() as u64 {
        return Err(format!("trailer count {} but {} entries", t.count, entries.len()));
    }
    Ok(Decoded { version: t.version, codec: t.codec, count: t.count, levels: t.levels, root: t.root, entries, blocks })
}
