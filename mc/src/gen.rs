//! Deterministic generators of the enumerated spaces.
use crate::engine::rep;
use crate::fmt::{self, Ents};
use grenad::{CompressionType, WriterBuilder};
use std::num::NonZeroUsize;

/// Mixed-radix reading of a case number.
pub struct Radix(pub u64);
impl Radix {
    pub fn take(&mut self, n: usize) -> usize {
        let n = n as u64;
        let r = self.0 % n;
        self.0 /= n;
        r as usize
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        let i = self.take(v.len());
        v[i].clone()
    }
}
pub fn product(dims: &[usize]) -> u64 {
    dims.iter().map(|d| *d as u64).product()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub codec: u8,
    pub level: u32,
    /// `None`: keep the default.
    pub block: Option<usize>,
    pub interval: Option<usize>,
    pub levels: u8,
}
impl Cfg {
    pub const fn new(codec: u8, block: usize, interval: usize, levels: u8) -> Cfg {
        Cfg { codec, level: 0, block: Some(block), interval: Some(interval), levels }
    }
    pub fn interval(&self) -> usize {
        self.interval.unwrap_or_else(|| defaults().0)
    }
    pub fn block(&self) -> usize {
        self.block.unwrap_or_else(|| defaults().1).max(1024)
    }
    pub fn builder(&self) -> WriterBuilder {
        let mut b = WriterBuilder::new();
        b.compression_type(ctype(self.codec)).compression_level(self.level).index_levels(self.levels);
        if let Some(s) = self.block {
            b.block_size(s);
        }
        if let Some(i) = self.interval {
            b.index_key_interval(NonZeroUsize::new(i).unwrap());
        }
        b
    }
    pub fn write(&self, ents: &Ents) -> Result<Vec<u8>, String> {
        let mut w = self.builder().memory();
        for (i, (k, v)) in ents.iter().enumerate() {
            w.insert(k, v).map_err(rep).map_err(|e| format!("insert {i} failed: {e} ({self:?})"))?;
        }
        w.into_inner().map_err(rep).map_err(|e| format!("into_inner failed: {e} ({self:?})"))
    }
}

/// The default index interval and block size, which no property fixes: read off two small files.
pub fn defaults() -> (usize, usize) {
    static D: std::sync::OnceLock<(usize, usize)> = std::sync::OnceLock::new();
    *D.get_or_init(|| {
        let key = |i: u32| i.to_be_bytes().to_vec();
        let file = |c: &Cfg, e: &Ents| crate::engine::guard(|| c.write(e)).ok().and_then(|r| r.ok());
        let base = Cfg { codec: fmt::NONE, level: 0, block: Some(1 << 20), interval: None, levels: 0 };
        let ents: Ents = (0..2000).map(|i| (key(i), vec![])).collect();
        let interval = file(&base, &ents).and_then(|b| (1..=2000).find(|iv| fmt::decode(&b, *iv).is_ok())).unwrap_or(8);
        // Entries of six bytes up to the first cut, then a last but one that is longer byte by byte.
        let base = Cfg { block: None, interval: Some(1 << 20), ..base };
        let first = |e: &Ents| -> Option<(usize, usize)> {
            let d = fmt::decode(&file(&base, e)?, 1 << 20).ok()?;
            let x = d.blocks.iter().find(|x| x.level == 0)?;
            Some((x.entries, x.raw))
        };
        let ents: Ents = (0..20_000).map(|i| (key(i), vec![])).collect();
        let block = first(&ents).filter(|(n, _)| (2..20_000).contains(n)).and_then(|(n, raw)| {
            (0..7usize).find_map(|d| {
                let mut e = ents[..n + 1].to_vec();
                e[n - 2].1 = vec![0; d];
                first(&e).filter(|(m, _)| *m == n - 1).map(|(_, r)| r)
            }).or(Some(raw))
        });
        (interval, block.unwrap_or(8192))
    })
}

pub fn ctype(c: u8) -> CompressionType {
    match c {
        fmt::NONE => CompressionType::None,
        fmt::SNAPPY_OLD => CompressionType::SnappyPre05,
        fmt::ZLIB => CompressionType::Zlib,
        fmt::LZ4 => CompressionType::Lz4,
        fmt::ZSTD => CompressionType::Zstd,
        _ => CompressionType::Snappy,
    }
}
pub fn codec_id(c: CompressionType) -> u8 {
    match c {
        CompressionType::None => 0,
        CompressionType::SnappyPre05 => 1,
        CompressionType::Zlib => 2,
        CompressionType::Lz4 => 3,
        CompressionType::Zstd => 4,
        CompressionType::Snappy => 5,
    }
}

/// All strings over `alpha` of at most `max` bytes, in lexicographic order.
pub fn strings(alpha: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for a in alpha {
                let mut t = s.clone();
                t.push(*a);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all.sort();
    all
}

pub fn subset<T: Clone>(v: &[T], mask: u64) -> Vec<T> {
    v.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| x.clone()).collect()
}

/// Deterministic bytes: `kind` 0 constant, 1 short period, 2 incompressible.
pub fn bytes(seed: u64, len: usize, kind: u8) -> Vec<u8> {
    match kind {
        0 => vec![(seed as u8).wrapping_mul(37).wrapping_add(65); len],
        1 => (0..len).map(|i| ((i as u64 % 7) + seed) as u8).collect(),
        _ => {
            let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
            let mut v = Vec::with_capacity(len + 8);
            while v.len() < len {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                v.extend_from_slice(&x.wrapping_mul(0x2545_F491_4F6C_DD1D).to_be_bytes());
            }
            v.truncate(len);
            v
        }
    }
}

/// Small distinct value for entry `i`; entry 0 gets the empty value every other seed.
pub fn tiny(i: usize) -> Vec<u8> {
    match i % 5 {
        0 => vec![],
        r => bytes(i as u64 + 3, r, 2),
    }
}
pub fn with_tiny(keys: &[Vec<u8>]) -> Ents {
    keys.iter().enumerate().map(|(i, k)| (k.clone(), tiny(i + k.len()))).collect()
}

/// Key `stem` bytes of `p` followed by `suffix`.
pub fn stem(n: usize, suffix: &[u8]) -> Vec<u8> {
    let mut k = vec![b'p'; n];
    k.extend_from_slice(suffix);
    k
}

/// Lengths of a common prefix at which a comparison could change its ways.
/// Lengths of what keys share: (at the front, at the back).
pub fn prefix_lens(deep: bool) -> Vec<(usize, usize)> {
    let mut v: Vec<usize> = (0..=34).collect();
    v.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]);
    if deep {
        v.extend(35..63);
        v.extend([511, 512, 513, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537]);
    }
    let mut v: Vec<(usize, usize)> = v.into_iter().map(|n| (n, 0)).collect();
    for m in [1, 3, 4, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 256] {
        v.extend([(0, m), (1, m)]);
        if m < 20 || deep {
            v.extend([(7, m), (8, m), (16, m)]);
        }
    }
    v
}
/// `n` equal bytes followed by a short tail.
pub fn tailed(n: (usize, usize), tail: &[u8]) -> Vec<u8> {
    let mut k = vec![0x6b; n.0];
    k.extend_from_slice(tail);
    k.resize(k.len() + n.1, 0x30);
    k
}

pub fn sorted_unique(mut e: Ents) -> Ents {
    e.sort_by(|a, b| a.0.cmp(&b.0));
    e.dedup_by(|a, b| a.0 == b.0);
    e
}

/// The shapes a file entry can take when the real writer (1024-byte minimum block) must produce
/// one, two, three or many entries per data block and per index block.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    Tiny,
    /// Value of ~500 bytes, small key: 2–3 entries per data block, small index entries.
    Val500,
    /// Value above 1024: one entry per data block.
    Val1100,
    /// Key of ~340 bytes: 3 per block, also in index blocks.
    Key340,
    /// Key of ~520 bytes: 2 per block.
    Key520,
    /// Key above 1024: 1 per block at all levels.
    Key1100,
    Empty,
    Big5000,
}
pub const SHAPES: [Shape; 8] = [
    Shape::Tiny,
    Shape::Val500,
    Shape::Val1100,
    Shape::Key340,
    Shape::Key520,
    Shape::Key1100,
    Shape::Empty,
    Shape::Big5000,
];
/// Entry number `i` of a sequence, of the given shape, sorted after all entries of smaller `i`.
pub fn shaped(i: usize, s: Shape) -> (Vec<u8>, Vec<u8>) {
    let mut k = vec![(i >> 8) as u8, i as u8];
    let v = match s {
        Shape::Tiny => tiny(i),
        Shape::Empty => vec![],
        Shape::Val500 => bytes(i as u64, 500, 2),
        Shape::Val1100 => bytes(i as u64, 1100, (i % 3) as u8),
        Shape::Big5000 => bytes(i as u64, 5000, (i % 3) as u8),
        Shape::Key340 => {
            k.extend(bytes(i as u64, 340, (i % 3) as u8));
            tiny(i)
        }
        Shape::Key520 => {
            k.extend(bytes(i as u64, 520, 2));
            tiny(i)
        }
        Shape::Key1100 => {
            k.extend(bytes(i as u64, 1100, 1));
            tiny(i)
        }
    };
    (k, v)
}
/// First key of a shaped sequence may be the empty one.
pub fn shaped_seq(shapes: &[Shape], first_empty: bool) -> Ents {
    shapes
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let (k, v) = shaped(i + 1, *s);
            if i == 0 && first_empty {
                (vec![], v)
            } else {
                (k, v)
            }
        })
        .collect()
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 40 {
        return format!("{}..({} bytes)", hex(&b[..24]), b.len());
    }
    let mut s = String::with_capacity(b.len() * 2 + 2);
    s.push('<');
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s.push('>');
    s
}
pub fn show(e: Option<(&[u8], &[u8])>) -> String {
    match e {
        None => "None".into(),
        Some((k, v)) => format!("({}, {})", hex(k), hex(v)),
    }
}
pub fn show_keys(e: &Ents) -> String {
    let mut s = String::from("[");
    for (i, (k, v)) in e.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        if i == 12 {
            s.push_str(&format!("...{} entries", e.len()));
            break;
        }
        s.push_str(&format!("{}:{}", hex(k), v.len()));
    }
    s.push(']');
    s
}
