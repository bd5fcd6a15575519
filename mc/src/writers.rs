//! C01, C09, C13, C14, C15, C18: the writer side, the file format and the trailer.
use crate::engine::{family, guard, hash, Check, Ctx, Family, H};
use crate::fmt::{self, Ents};
use crate::gen::*;
use crate::io::{Sparse, Src};
use crate::model::*;
use grenad::Reader;
use std::io::Cursor;
use std::sync::Arc;

pub struct WCase {
    pub cfg: Cfg,
    pub ents: Ents,
    pub desc: String,
}
impl WCase {
    pub fn d(&self) -> String {
        format!("{} {:?} keys {}", self.desc, self.cfg, show_keys(&self.ents))
    }
}
pub type WCorpus = (String, u64, Box<dyn Fn(u64) -> WCase + Send + Sync>);

pub fn wfamily<F>(name: &'static str, extra: &str, c: WCorpus, f: F) -> Family
where
    F: Fn(&WCase, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let (b, n, make) = c;
    let extra = if extra.is_empty() { String::new() } else { format!("; {extra}") };
    family(name, format!("{b}{extra}"), n, move |case, ctx| f(&make(case), ctx))
}

// ------------------------------------------------------------- corpora

/// All sequences of at most `max_n` entry shapes.
pub fn shape_seqs(max_n: usize, shapes: &'static [Shape], codecs: Vec<u8>, levels: Vec<u8>, intervals: Vec<usize>, blocks: Vec<usize>) -> WCorpus {
    let mut total = 0u64;
    let mut starts = vec![];
    for n in 0..=max_n {
        starts.push(total);
        total += (shapes.len() as u64).pow(n as u32);
    }
    let per = product(&[codecs.len(), levels.len(), intervals.len(), blocks.len(), 2]);
    (
        format!("all sequences of <= {max_n} entries of shapes {shapes:?} (first key empty or not) x codecs {codecs:?} x levels {levels:?} x intervals {intervals:?} x block sizes {blocks:?}"),
        total * per,
        Box::new(move |case| {
            let mut r = Radix(case);
            let cfg = Cfg::new(r.pick(&codecs), r.pick(&blocks), r.pick(&intervals), r.pick(&levels));
            let cfg = Cfg { codec: cfg.codec, ..cfg };
            let first_empty = r.take(2) == 1;
            let s = r.0;
            let n = starts.partition_point(|x| *x <= s) - 1;
            let mut r = Radix(s - starts[n]);
            let sh: Vec<Shape> = (0..n).map(|_| r.pick(shapes)).collect();
            WCase { cfg, ents: shaped_seq(&sh, first_empty), desc: format!("shapes {sh:?}") }
        }),
    )
}

/// Every subset of a prefix tree, with tiny values.
pub fn key_subsets(alpha: &'static [u8], depth: usize, cfgs: Vec<Cfg>) -> WCorpus {
    let tree = strings(alpha, depth);
    let nc = cfgs.len() as u64;
    (
        format!("all 2^{} subsets of the strings of length <= {depth} over {alpha:02x?} x {nc} configurations", tree.len()),
        (1u64 << tree.len()) * nc,
        Box::new(move |case| {
            let keys = subset(&tree, case / nc);
            WCase { cfg: cfgs[(case % nc) as usize], ents: with_tiny(&keys), desc: "subset".into() }
        }),
    )
}

/// `n` small entries over the whole configuration grid.
pub fn grid(ns: Vec<usize>, codecs: Vec<u8>, levels: Vec<u8>, intervals: Vec<usize>, blocks: Vec<usize>) -> WCorpus {
    let dims = [ns.len(), codecs.len(), levels.len(), intervals.len(), blocks.len(), 3];
    (
        format!("n in {ns:?} entries x codecs {codecs:?} x levels {levels:?} x intervals {intervals:?} x block sizes {blocks:?} x 3 value kinds"),
        product(&dims),
        Box::new(move |case| {
            let mut r = Radix(case);
            let n = r.pick(&ns);
            let cfg = Cfg::new(r.pick(&codecs), 1024, 1, r.pick(&levels));
            let cfg = Cfg { interval: Some(r.pick(&intervals)), block: Some(r.pick(&blocks)), ..cfg };
            let kind = r.take(3);
            let ents: Ents = (0..n)
                .map(|i| {
                    let v = match kind {
                        0 => tiny(i),
                        1 => bytes(i as u64, (i * 7) % 90, 0),
                        _ => bytes(i as u64, (i * 31) % 300, 2),
                    };
                    (uniform_key(i), v)
                })
                .collect();
            WCase { cfg, ents, desc: format!("grid n={n} kind={kind}") }
        }),
    )
}

/// All 256 index depths.
pub fn all_levels(ns: Vec<usize>) -> WCorpus {
    let dims = [256, ns.len(), 2];
    (
        format!("all 256 index depths x {ns:?} entries of shapes Tiny, Key1100"),
        product(&dims),
        Box::new(move |case| {
            let mut r = Radix(case);
            let l = r.take(256) as u8;
            let n = r.pick(&ns);
            let s = r.pick(&[Shape::Tiny, Shape::Key1100]);
            let cfg = Cfg::new([0, 5, 3][l as usize % 3], 1024, 1 + l as usize % 2, l);
            WCase { cfg, ents: shaped_seq(&vec![s; n], false), desc: format!("levels n={n} {s:?}") }
        }),
    )
}

/// All compression levels that mean something, and out-of-range ones.
pub fn codec_levels() -> WCorpus {
    let mut l: Vec<(u8, u32)> = vec![];
    l.extend((0..=10).map(|x| (fmt::ZLIB, x)));
    l.extend([11, 12, 100, 255, 256, 65536, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX].map(|x| (fmt::ZLIB, x)));
    l.extend((0..=19).map(|x| (fmt::ZSTD, x)));
    l.extend([20, 21, 22, 23, 100, i32::MAX as u32, 1 << 31, u32::MAX - 6, u32::MAX].map(|x| (fmt::ZSTD, x)));
    for c in [fmt::NONE, fmt::SNAPPY_OLD, fmt::LZ4, fmt::SNAPPY] {
        l.extend([1, 9, 100, u32::MAX].map(|x| (c, x)));
    }
    (
        format!("{} (codec, level) pairs, in and out of the codec's range, x 0, 1, 40 entries x 2 value kinds", l.len()),
        l.len() as u64 * 6,
        Box::new(move |case| {
            let mut r = Radix(case);
            let n = r.pick(&[0usize, 1, 40]);
            let kind = r.take(2) as u8 * 2;
            let (c, lv) = r.pick(&l);
            let cfg = Cfg { level: lv, ..Cfg::new(c, 4096, 8, 1) };
            let ents = (0..n).map(|i| (uniform_key(i), bytes(i as u64, 200, kind))).collect();
            WCase { cfg, ents, desc: format!("codec level n={n}") }
        }),
    )
}

/// Entries whose key or value length sits at a boundary.
pub fn boundary_sizes(lens: Vec<usize>, cfgs: Vec<Cfg>) -> WCorpus {
    let nl = lens.len();
    let dims = [nl, cfgs.len(), 3, 3];
    (
        format!("one entry with key or value (or both) of length in {lens:?} between neighbours x {} configurations x 3 kinds of bytes", cfgs.len()),
        product(&dims),
        Box::new(move |case| {
            let mut r = Radix(case);
            let cfg = r.pick(&cfgs);
            let kind = r.take(3) as u8;
            let which = r.take(3);
            let len = r.pick(&lens);
            let mk = |tag: u8, len: usize| {
                let mut k = bytes(tag as u64, len, kind);
                if let Some(f) = k.first_mut() {
                    *f = tag;
                }
                k
            };
            let mut ents: Ents = vec![(mk(1, 3), vec![1, 2])];
            match which {
                0 => ents.push((mk(2, len), vec![9; 3])),
                1 => ents.push((mk(2, 2), bytes(77, len, kind))),
                _ => ents.push((mk(2, len), bytes(78, len, kind))),
            }
            ents.push((vec![3], vec![]));
            ents.push((vec![3, 0], vec![5; 5]));
            let ents = sorted_unique(ents);
            WCase { cfg, ents, desc: format!("boundary len={len} which={which} kind={kind}") }
        }),
    )
}

/// Multi-megabyte values.
pub fn huge_values(sizes: Vec<usize>) -> WCorpus {
    let dims = [sizes.len(), 6, 3, 2];
    (
        format!("values of {sizes:?} bytes, three per file, x 6 codecs x 3 kinds of bytes x 2 block sizes"),
        product(&dims),
        Box::new(move |case| {
            let mut r = Radix(case);
            let c = r.pick(&fmt::CODECS);
            let kind = r.take(3) as u8;
            let b = r.pick(&[8192usize, 64 << 20]);
            let s = r.pick(&sizes);
            let cfg = Cfg::new(c, b, 1, 1);
            let ents = vec![
                (vec![1], bytes(1, s, kind)),
                (vec![2], vec![2; 10]),
                (vec![3], bytes(3, s - 1, kind)),
                (vec![4], bytes(4, s + 1, kind)),
            ];
            WCase { cfg, ents, desc: format!("huge {s} kind={kind}") }
        }),
    )
}

/// Multi-megabyte values that compress thousandfold, at the levels that compress best.
pub fn compressible(sizes: Vec<usize>) -> WCorpus {
    let l: Vec<(u8, u32)> = vec![(fmt::ZLIB, 1), (fmt::ZLIB, 6), (fmt::ZLIB, 9), (fmt::ZSTD, 1), (fmt::ZSTD, 9), (fmt::ZSTD, 19), (fmt::ZSTD, 22), (fmt::LZ4, 0), (fmt::SNAPPY, 0), (fmt::SNAPPY_OLD, 0)];
    let dims = [sizes.len(), l.len(), 3];
    (
        format!("a constant or periodic value of {sizes:?} bytes alone, or two in one block, x (codec, level) {l:?}"),
        product(&dims),
        Box::new(move |case| {
            let mut r = Radix(case);
            let how = r.take(3);
            let (c, lv) = r.pick(&l);
            let s = r.pick(&sizes);
            let block = if how == 2 { 2 * s } else { 1024 };
            let cfg = Cfg { level: lv, ..Cfg::new(c, block, 2, how as u8) };
            let mut ents = vec![(vec![1], bytes(7, s, (how % 2) as u8))];
            if how == 2 {
                ents.push((vec![2], bytes(8, s, 1)));
            }
            ents.push((vec![3], vec![4; 3]));
            WCase { cfg, ents, desc: format!("compressible {s} how={how}") }
        }),
    )
}

/// Files with more entries, offsets or blocks than fit 16 bits, and long ones.
pub fn scale(ns: Vec<usize>) -> WCorpus {
    let cfgs = vec![
        Cfg::new(0, 1 << 40, 1, 0),
        Cfg::new(0, usize::MAX, 3, 0),
        Cfg::new(0, 1024, 1, 0),
        Cfg::new(5, 1024, 2, 3),
        Cfg::new(4, 65536, 100, 2),
        Cfg { codec: 0, level: 0, block: None, interval: None, levels: 0 },
    ];
    (
        format!("n in {ns:?} entries with 4-byte counters as keys x {} configurations (one huge block with an offset per entry, many small blocks, deep)", cfgs.len()),
        product(&[ns.len(), cfgs.len()]),
        Box::new(move |case| {
            let mut r = Radix(case);
            let n = r.pick(&ns);
            let cfg = r.pick(&cfgs);
            let ents = (0..n).map(|i| ((i as u32).to_be_bytes().to_vec(), vec![i as u8; i % 3])).collect();
            WCase { cfg, ents, desc: format!("scale n={n}") }
        }),
    )
}

fn intervals_all() -> Vec<usize> {
    vec![1, 2, 3, 7, 8, 9, 64, 1000]
}
fn blocks_all() -> Vec<usize> {
    vec![0, 1, 1023, 1024, 1025, 2000, 4096, 8192, 65536, 1 << 20]
}
fn tree_cfgs(deep: bool) -> Vec<Cfg> {
    let mut v = vec![];
    for c in fmt::CODECS {
        for l in [0u8, 1, 2] {
            for i in if deep { vec![1, 2, 3, 8] } else { vec![1, 3] } {
                v.push(Cfg::new(c, 1024, i, l));
            }
        }
    }
    v
}
pub fn boundary_lens(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 64, 126, 127, 128, 129, 255, 256, 257];
    v.extend(980..=1030);
    v.extend([2047, 2048, 4095, 4096, 8191, 8192, 8193, 16382, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537]);
    v.extend([131071, 131072, 1 << 20, 2097150, 2097151, 2097152, 2097153, 4194304, 4194305]);
    v.retain(|x| *x <= max);
    v
}

/// The writer families shared by C01, C09 and C15.
fn writer_families<F>(deep: bool, codecs: &[u8], f: F) -> Vec<Family>
where
    F: Fn(&WCase, &mut Ctx) -> Result<(), String> + Send + Sync + Clone + 'static,
{
    let all = codecs.to_vec();
    let full = codecs.len() > 1;
    let mut v = vec![];
    v.push(wfamily("shapes", "", shape_seqs(3, &SHAPES, all.clone(), vec![0, 1, 2], vec![1, 2, 8], vec![1024]), f.clone()));
    v.push(wfamily(
        "shapes-longer",
        "",
        shape_seqs(if deep { 5 } else { 4 }, &SHAPES, vec![0], vec![0, 1, 2, 3], if deep { vec![1, 2, 3, 8] } else { vec![1, 2] }, vec![1024]),
        f.clone(),
    ));
    v.push(wfamily(
        "shapes-long",
        "",
        shape_seqs(if deep { 12 } else { 9 }, &[Shape::Key520, Shape::Key1100], vec![0], vec![2, 3, 4], vec![1, 2], vec![1024]),
        f.clone(),
    ));
    if deep {
        v.push(wfamily("shapes-9", "", shape_seqs(8, &[Shape::Tiny, Shape::Val500, Shape::Key340, Shape::Key1100], vec![0, 5], vec![2], vec![1, 3], vec![1024]), f.clone()));
    }
    v.push(wfamily("key-subsets", "", key_subsets(&[0x00, 0xff], 2, tree_cfgs(deep).into_iter().filter(|c| codecs.contains(&c.codec)).collect()), f.clone()));
    v.push(wfamily("key-subsets-3", "", key_subsets(&[0x00, 0x7f, 0xff], 2, vec![Cfg::new(0, 1024, 2, 1)]), f.clone()));
    let ns = if deep { vec![0, 1, 2, 7, 8, 9, 50, 100, 333, 1000, 3000] } else { vec![0, 1, 9, 100, 400] };
    v.push(wfamily("grid", "", grid(ns, all.clone(), vec![0, 1, 2, 3, 4], if deep { intervals_all() } else { vec![1, 3, 8, 64] }, blocks_all()), f.clone()));
    if !deep {
        v.push(wfamily("grid-long", "", grid(vec![3000], vec![0], vec![0, 1, 2, 3, 4], intervals_all(), vec![0, 1024, 1025, 2000, 4096, 8192]), f.clone()));
    } else {
        v.push(wfamily("grid-long", "", grid(vec![10_000, 40_000], vec![0, 5], vec![0, 1, 2, 3, 4], intervals_all(), blocks_all()), f.clone()));
    }
    // Settings around what 8, 16 and 32 bits hold, over files long enough to tell.
    let (ivs, bss) = (vec![255, 256, 257, 65535, 65536, 65537, 1 << 32, (1 << 32) + 1, usize::MAX], vec![65535, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 1024, usize::MAX]);
    let ns = if deep { vec![300, 1000, 70_000, 140_000] } else { vec![300, 70_000] };
    v.push(wfamily("extreme-settings", "", grid(ns, if full { vec![0, 5] } else { vec![0] }, if deep { vec![0, 1, 2] } else { vec![0, 1] }, ivs, bss), f.clone()));
    v.push(wfamily("index-depths", "", all_levels(if deep { vec![0, 1, 2, 3, 5, 9] } else { vec![0, 1, 3] }), f.clone()));
    if full {
        v.push(wfamily("codec-levels", "", codec_levels(), f.clone()));
    }
    let cfgs: Vec<Cfg> = all.iter().map(|c| Cfg::new(*c, 1024, 1, 1)).chain([Cfg::new(0, 1 << 30, 1, 0), Cfg::new(0, 8192, 8, 2)]).collect();
    v.push(wfamily("boundary-sizes", "", boundary_sizes(boundary_lens(if deep { 1 << 30 } else { 70_000 }), cfgs.clone()), f.clone()));
    if full && !deep {
        v.push(wfamily("boundary-sizes-2^21", "", boundary_sizes(vec![2097151, 2097152], cfgs), f.clone()));
    }
    if full {
        v.push(wfamily("huge-values", "", huge_values(if deep { vec![70_000, 131_073, 1 << 20, 4 << 20, (8 << 20) + 1, 33 << 20] } else { vec![70_000, 131_073, (4 << 20) + 1] }), f.clone()));
    }
    if full {
        v.push(wfamily("compressible", "", compressible(if deep { vec![1 << 20, 5_000_001, 12 << 20, 40 << 20, 150 << 20] } else { vec![1 << 20, 12 << 20, 33 << 20] }), f.clone()));
    }
    {
        let dims = [all.len(), 3, 4, 2, 3];
        v.push(wfamily(
            "look-alikes",
            "",
            (
                "40 entries with keys equal but for two bytes at their end (100 or 300 bytes, incompressible), values of 0, 90, 1500 or 9000 bytes, incompressible or of one byte, equal but for one byte at their start, middle or end; index levels 0 to 2".into(),
                product(&dims),
                Box::new(move |case| {
                    let mut r = Radix(case);
                    let (codec, levels, len, kind, place) = (r.pick(&all), r.take(3) as u8, [0usize, 90, 1500, 9000][r.take(4)], [2u8, 0][r.take(2)], r.take(3));
                    WCase { cfg: Cfg::new(codec, 1024, 2, levels), ents: crate::readers::look_alikes(40, len, kind, place).1, desc: format!("look-alike entries, values of {len} bytes, kind {kind}, place {place}") }
                }),
            ),
            f.clone(),
        ));
    }
    v.push(wfamily("scale", "", scale(if deep { vec![65535, 65536, 65537, 70000, 200_000, 1_000_000] } else { vec![65535, 65536, 65537, 100_000] }), f));
    v
}

const RULE_W: &str = "a state is a distinct (configuration, entries) file, a transition one writer or reader call on the real code, a trace one complete file checked against its model";
fn assume() -> Vec<String> {
    vec![
        "small scope: entries act on the writer only through their lengths, order and compressibility, which the enumerated shapes, sizes and kinds exercise".into(),
        "the codec crates (flate2, snap, lz4_flex, zstd) are trusted as the reference for their own formats".into(),
    ]
}

fn note(w: &WCase, b: &[u8], ctx: &mut Ctx) {
    ctx.states_of(hash(b), 1);
    ctx.outcome(H::new().u(w.ents.len() as u64).u(b.len() as u64).u(hash(b)).get());
    ctx.nontrivial += (w.ents.len() > 1) as u64;
    ctx.traces += 1;
    ctx.sample(|| w.d());
}

// ------------------------------------------------------------------ C01

fn c01_case(w: &WCase, ctx: &mut Ctx) -> Result<(), String> {
    let d = w.d();
    let b = w.cfg.write(&w.ents).map_err(|e| format!("{e}; {d}"))?;
    ctx.transitions += w.ents.len() as u64 + 1;
    let b = Arc::new(b);
    // A step back costs up to an interval.
    let n = w.ents.len();
    let back = if w.cfg.interval().min(n) * n > 50_000_000 { 60 } else { n };
    // The source is handed over at any position.
    let mut src = Src::new(&b);
    src.pos = [0, b.len(), b.len() / 2, b.len() + 1000, 1][(b.len() + n) % 5] as u64;
    check_scans_of(src, &w.ents, w.cfg.codec, false, back, &d, ctx)?;
    note(w, &b, ctx);
    Ok(())
}
/// The ways to make and end a writer agree, and every finish reports success.
fn c01_api(w: &WCase, ctx: &mut Ctx) -> Result<(), String> {
    let d = w.d();
    let reference = w.cfg.write(&w.ents).map_err(|e| format!("{e}; {d}"))?;
    let mut sink = vec![];
    {
        // The same builder used twice, its setters called in another order, values overwritten.
        let mut b = grenad::Writer::builder();
        b.index_levels(9);
        if let Some(s) = w.cfg.block {
            b.block_size(77777);
            b.block_size(s);
        }
        if let Some(i) = w.cfg.interval {
            b.index_key_interval(std::num::NonZeroUsize::new(i + 1).unwrap());
            b.index_key_interval(std::num::NonZeroUsize::new(i).unwrap());
        }
        b.compression_type(grenad::CompressionType::Zlib).compression_level(7);
        b.index_levels(w.cfg.levels).compression_level(w.cfg.level).compression_type(ctype(w.cfg.codec));
        let mut first = b.memory();
        first.insert([0x55], [1, 2, 3]).map_err(|e| format!("{e} {d}"))?;
        first.finish().map_err(|e| format!("finish of another writer failed: {e} {d}"))?;
        let mut wr = b.build(&mut sink);
        for (k, v) in &w.ents {
            wr.insert(k.clone(), &v[..]).map_err(|e| format!("insert failed: {e} {d}"))?;
        }
        wr.finish().map_err(|e| format!("finish failed: {e} {d}"))?;
    }
    let b = Arc::new(sink);
    check_scans(Src::new(&b), &w.ents, w.cfg.codec, false, &format!("finish() {d}"), ctx)?;
    if *b != reference {
        return Err(format!("finish() and into_inner(), or two builders of one configuration, emit different bytes: {d}"));
    }
    let mut wr = w.cfg.builder().build(Cursor::new(vec![0xAA; 3]));
    for (k, v) in &w.ents {
        wr.insert(k, v).map_err(|e| format!("insert failed: {e} {d}"))?;
    }
    // Offsets are relative to the first byte written, not to the sink's own position.
    let c = wr.into_inner().map_err(|e| format!("into_inner failed: {e} {d}"))?;
    if c.get_ref()[..reference.len()] != reference[..] {
        return Err(format!("bytes differ over a Cursor sink: {d}"));
    }
    if w.cfg.codec == 0 && w.cfg.levels == 0 && w.cfg.block.is_none() && w.cfg.interval.is_none() {
        for which in 0..2 {
            let b = if which == 0 {
                let mut x = grenad::Writer::memory();
                for (k, v) in &w.ents {
                    x.insert(k, v).map_err(|e| format!("insert failed: {e} {d}"))?;
                }
                x.into_inner()
            } else {
                let mut x = grenad::Writer::new(vec![]);
                for (k, v) in &w.ents {
                    x.insert(k, v).map_err(|e| format!("insert failed: {e} {d}"))?;
                }
                x.into_inner()
            };
            let b = b.map_err(|e| format!("into_inner failed: {e} {d}"))?;
            check_scans(Src::new(&Arc::new(b)), &w.ents, 0, false, &format!("default writer {d}"), ctx)?;
        }
    }
    ctx.transitions += 4 * (w.ents.len() as u64 + 1);
    note(w, &reference, ctx);
    Ok(())
}

/// More than 4 GiB of data: zero-filled values into a sparse file.
fn four_gib(check_format: bool) -> Family {
    let mut f = family(
        "beyond-4GiB",
        "300 zero-filled values of 16 MiB (4.7 GiB) plus small entries around, codec None, levels 0, 2, into a sparse sink",
        2,
        move |case, ctx| {
            let cfg = Cfg::new(0, 8192, 2, [0, 2][case as usize]);
            let zero = vec![0u8; 16 << 20];
            let mut w = cfg.builder().build(Sparse::default());
            let d = format!("4 GiB file {cfg:?}");
            let key = |i: u32| (i * 3).to_be_bytes().to_vec();
            for i in 0..900u32 {
                let v: &[u8] = if i % 3 == 1 { &zero } else { &[7, 7, 7] };
                w.insert(key(i), v).map_err(|e| format!("{d}: insert {i}: {e}"))?;
            }
            let mut s = w.into_inner().map_err(|e| format!("{d}: {e}"))?;
            s.pos = 0;
            let r = Reader::new(s).map_err(|e| format!("{d}: open: {e}"))?;
            if r.len() != 900 {
                return Err(format!("{d}: len() = {}", r.len()));
            }
            let mut c = r.into_cursor().map_err(|e| format!("{d}: {e}"))?;
            let ok = |i: u32, e: Option<(&[u8], &[u8])>| {
                let v: &[u8] = if i % 3 == 1 { &zero } else { &[7, 7, 7] };
                match e {
                    Some((k, x)) if k == &key(i)[..] && x == v => Ok(()),
                    e => Err(format!("{d}: entry {i} read as {}", show(e))),
                }
            };
            let n = if check_format { 0 } else { 900u32 };
            for i in 0..n {
                ok(i, c.move_on_next().map_err(|e| format!("{d}: {e}"))?)?;
            }
            for i in [0u32, 1, 2, 450, 760, 767, 768, 769, 800, 898, 899, 5] {
                ok(i, c.move_on_key_equal_to(key(i)).map_err(|e| format!("{d}: {e}"))?)?;
                if i > 0 {
                    ok(i - 1, c.move_on_prev().map_err(|e| format!("{d}: {e}"))?)?;
                }
            }
            ctx.transitions += 900 + n as u64 + 24;
            ctx.traces += 1;
            ctx.states_of(H::new().u(0x4617).u(case).get(), 900);
            ctx.sample(|| d.clone());
            Ok(())
        },
    );
    f.limit_s = 400;
    f
}

/// More than 2^32 entries: only the trailer is kept.
fn four_giga_entries() -> Family {
    struct Tail(Vec<u8>);
    impl std::io::Write for Tail {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0.extend_from_slice(b);
            if self.0.len() > 4096 {
                let n = self.0.len() - 64;
                self.0.drain(..n);
            }
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let mut f = family("2^32-entries", "2^32 + 3 entries with 5-byte counters as keys into a sink that keeps the tail: entry count of the trailer", 1, |_, ctx| {
        let cfg = Cfg::new(0, 1 << 20, 1000, 2);
        let mut w = cfg.builder().build(Tail(vec![]));
        let n = (1u64 << 32) + 3;
        for i in 0..n {
            w.insert(&i.to_be_bytes()[3..], []).map_err(|e| e.to_string())?;
        }
        let t = w.into_inner().map_err(|e| e.to_string())?.0;
        let r = Reader::new(Cursor::new(t)).map_err(|e| format!("open: {e}"))?;
        if r.len() != n {
            return Err(format!("2^32 + 3 entries counted as {}", r.len()));
        }
        if let Some(t) = fmt::parse_trailer(&r.into_inner().into_inner()) {
            if t.count != n || t.levels != 2 || t.codec != 0 || t.version != 2 {
                return Err(format!("trailer of 2^32 + 3 entries: count {}, levels {}, codec {}, version {}", t.count, t.levels, t.codec, t.version));
            }
        }
        ctx.transitions += n;
        ctx.traces += 1;
        Ok(())
    });
    f.limit_s = 800;
    f
}

/// One block of more than 4 GiB, as the writer makes it: its head and its offset table, then read back.
fn written_beyond_4gib(scans: bool) -> Family {
    let mut f = family("block-beyond-4GiB-written", "one block of 5 values of 900 MiB and 8 small entries, offsets for each or every second entry, as the writer emits it", if scans { 1 } else { 2 }, move |case, ctx| {
        let iv = 1 + case as usize;
        let cfg = Cfg::new(0, usize::MAX, iv, 0);
        let big = 900usize << 20;
        let mut val = vec![0u8; big];
        let keys: Vec<Vec<u8>> = (0..13u8).map(|i| vec![i, 1]).collect();
        let size = |i: usize| if i % 2 == 1 && i < 10 { big } else { 3 };
        fn fill(val: &mut [u8], i: usize, n: usize) -> &[u8] {
            val[0] = i as u8 + 1;
            val[1] = 0;
            val[n - 1] = i as u8 ^ 0x80;
            &val[..n]
        }
        let mut w = cfg.builder().build(Sparse::default());
        for (i, k) in keys.iter().enumerate() {
            // What an earlier, shorter entry left behind.
            val[..3].fill(0);
            w.insert(k, fill(&mut val, i, size(i))).map_err(|e| format!("insert: {e}"))?;
        }
        let mut s = w.into_inner().map_err(|e| format!("into_inner: {e}"))?;
        // The block as the format has it.
        let mut offs = vec![];
        let mut at = 0u64;
        for i in 0..keys.len() {
            if i % iv == 0 {
                offs.push(at);
            }
            // Two lengths (five bytes from 2^28 on), the key, the value.
            at += 1 + if size(i) == 3 { 1 } else { 5 } + 2 + size(i) as u64;
        }
        let total = at + 8 * offs.len() as u64 + 4;
        let mut table: Vec<u8> = offs.iter().flat_map(|o| o.to_be_bytes()).collect();
        table.extend((offs.len() as u32).to_be_bytes());
        let mut buf = vec![0u8; 8];
        s.pos = 0;
        std::io::Read::read_exact(&mut s, &mut buf).map_err(|e| e.to_string())?;
        if !scans && buf != total.to_be_bytes() {
            return Err(format!("block of {total} bytes has the length prefix {}; interval {iv}", hex(&buf)));
        }
        let mut buf = vec![0u8; table.len()];
        s.pos = 8 + at;
        std::io::Read::read_exact(&mut s, &mut buf).map_err(|e| e.to_string())?;
        if !scans && buf != table {
            return Err(format!("offset table of a block of {total} bytes is {} instead of {}; interval {iv}", hex(&buf), hex(&table)));
        }
        if scans {
            let mut c = open(s, "block beyond 4 GiB")?;
            for (step, i) in (0..keys.len()).chain((0..keys.len() - 1).rev()).enumerate() {
                let got = if step < keys.len() { c.move_on_next() } else { c.move_on_prev() }.map_err(|e| e.to_string())?;
                val[..3].fill(0);
                let want = fill(&mut val, i, size(i));
                if got != Some((&keys[i][..], want)) {
                    return Err(format!("step {step} over a block of {total} bytes is not entry {i}; interval {iv}"));
                }
            }
            ctx.transitions += 2 * keys.len() as u64;
        }
        ctx.transitions += keys.len() as u64;
        ctx.traces += 1;
        Ok(())
    })
    .serial();
    f.limit_s = 400;
    f.mem_extra = 8 << 30;
    f
}

pub fn c01(deep: bool) -> Check {
    let mut fams = writer_families(deep, &fmt::CODECS, c01_case);
    fams.push(crate::inter::writers(deep, true));
    fams.push(crate::hop::writers());
    fams.push(crate::inter::flushed_sinks());
    let mut cfgs = tree_cfgs(false);
    cfgs.push(Cfg { codec: 0, level: 0, block: None, interval: None, levels: 0 });
    fams.push(wfamily("writer-api", "builder reuse, setter order, finish/into_inner, sinks", key_subsets(&[0x00, 0xff], 2, cfgs.clone()), c01_api));
    fams.push(wfamily("writer-api-long", "builder reuse, setter order, finish/into_inner, sinks", {
        let g = grid(vec![0, 1, 100, 1000], vec![0, 2, 5], vec![0, 1, 2, 255], vec![1, 8], vec![0, 1024, 4096]);
        g
    }, c01_api));
    fams.insert(0, four_gib(false));
    fams.push(crate::readers::giant_block_family("forward scan and backward scan", |_, f, ctx| {
        for back in [false, true] {
            let mut c = f.cursor()?;
            let n = f.ents.len();
            for i in 0..=n {
                let got = if back { c.move_on_prev() } else { c.move_on_next() };
                let e = (i < n).then(|| if back { n - 1 - i } else { i });
                same(|| format!("scan, backward {back}, step {i}, {}", f.ctx()), got.map_err(|e| format!("step {i}: {e}"))?, want(&f.ents, e))?;
            }
            ctx.transitions += n as u64 + 1;
        }
        Ok(())
    }));
    fams.insert(0, four_giga_entries());
    fams.push(written_beyond_4gib(true));
    Check { property: "C01", level: "model_checking", rule: RULE_W, assumptions: assume(), families: fams }
}

// ------------------------------------------------------------------ C09

fn c09_case(w: &WCase, ctx: &mut Ctx) -> Result<(), String> {
    let d = w.d();
    let b = w.cfg.write(&w.ents).map_err(|e| format!("{e}; {d}"))?;
    c09_bytes(w, &b, &d, ctx)?;
    note(w, &b, ctx);
    Ok(())
}
fn c09_bytes(w: &WCase, b: &[u8], d: &str, ctx: &mut Ctx) -> Result<(), String> {
    let dec = fmt::decode(b, w.cfg.interval()).map_err(|e| format!("not a well-formed file: {e}; {d}"))?;
    if dec.version != 2 {
        return Err(format!("version {} trailer; {d}", dec.version));
    }
    if dec.codec != w.cfg.codec || dec.levels != w.cfg.levels || dec.count != w.ents.len() as u64 {
        return Err(format!("trailer codec {} levels {} count {}; {d}", dec.codec, dec.levels, dec.count));
    }
    if dec.entries != w.ents {
        return Err(format!("the independent decoder recovers other entries; {d}"));
    }
    // The frozen reader.
    let r = grenad_0_4::Reader::new(Cursor::new(b)).map_err(|e| format!("grenad 0.4.7 does not open: {e}; {d}"))?;
    if r.len() != w.ents.len() as u64 {
        return Err(format!("grenad 0.4.7: len {}; {d}", r.len()));
    }
    let mut c = r.into_cursor().map_err(|e| format!("grenad 0.4.7 does not load: {e}; {d}"))?;
    for i in 0..=w.ents.len() {
        let got = c.move_on_next().map_err(|e| format!("grenad 0.4.7 step {i}: {e}; {d}"))?;
        same(|| format!("grenad 0.4.7 step {i}; {d}"), got, want(&w.ents, (i < w.ents.len()).then_some(i)))?;
    }
    let step = (w.ents.len() / 50).max(1);
    for (k, v) in w.ents.iter().step_by(step) {
        c.reset();
        let got = c.move_on_key_greater_than_or_equal_to(k).map_err(|e| format!("grenad 0.4.7 seek: {e}; {d}"))?;
        same(|| format!("grenad 0.4.7 seek {}; {d}", hex(k)), got, Some((&k[..], &v[..])))?;
    }
    ctx.transitions += 2 * w.ents.len() as u64 + 3;
    Ok(())
}
/// The giant block, read in place: its entries and offsets; then the frozen reader.
fn c09_giant(cfg: &Cfg, f: &FileCase, ctx: &mut Ctx) -> Result<(), String> {
    let (b, d) = (&f.bytes[..], f.ctx());
    let len = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize;
    if len > b.len() - 30 {
        return Err(format!("block length {len} in a file of {} bytes; {d}", b.len()));
    }
    let (mut p, mut offs, mut h) = (8, vec![], vec![]);
    for (i, (k, v)) in f.ents.iter().enumerate() {
        if i % cfg.interval() == 0 {
            offs.push(p as u64 - 8);
        }
        h.clear();
        fmt::varint(k.len() as u32, &mut h);
        fmt::varint(v.len() as u32, &mut h);
        h.extend(k);
        if b.get(p..p + h.len()) != Some(&h[..]) || b.get(p + h.len()..p + h.len() + v.len()) != Some(v) {
            return Err(format!("entry {i} is not at {p}; {d}"));
        }
        p += h.len() + v.len();
    }
    let mut table: Vec<u8> = offs.iter().flat_map(|o| o.to_be_bytes()).collect();
    table.extend((offs.len() as u32).to_be_bytes());
    if b.get(p..p + table.len()) != Some(&table[..]) || p + table.len() != 8 + len {
        return Err(format!("the offsets table at {p} is not {offs:?} and their count; {d}"));
    }
    let mut c = grenad_0_4::Reader::new(Cursor::new(b)).and_then(|r| r.into_cursor()).map_err(|e| format!("grenad 0.4.7 does not open: {e}; {d}"))?;
    for i in 0..=f.ents.len() {
        let got = c.move_on_next().map_err(|e| format!("grenad 0.4.7 step {i}: {e}; {d}"))?;
        same(|| format!("grenad 0.4.7 step {i}; {d}"), got, want(&f.ents, (i < f.ents.len()).then_some(i)))?;
    }
    ctx.transitions += f.ents.len() as u64 + 3;
    Ok(())
}
fn c09_reverse(w: &WCase, ctx: &mut Ctx) -> Result<(), String> {
    let d = w.d();
    let mut b = grenad_0_4::WriterBuilder::new();
    let t = match w.cfg.codec {
        0 => grenad_0_4::CompressionType::None,
        1 => grenad_0_4::CompressionType::SnappyPre05,
        2 => grenad_0_4::CompressionType::Zlib,
        3 => grenad_0_4::CompressionType::Lz4,
        4 => grenad_0_4::CompressionType::Zstd,
        _ => grenad_0_4::CompressionType::Snappy,
    };
    b.compression_type(t).compression_level(w.cfg.level).index_levels(w.cfg.levels);
    if let Some(s) = w.cfg.block {
        b.block_size(s);
    }
    if let Some(i) = w.cfg.interval {
        b.index_key_interval(std::num::NonZeroUsize::new(i).unwrap());
    }
    let mut wr = b.memory();
    for (k, v) in &w.ents {
        wr.insert(k, v).map_err(|e| format!("0.4.7 insert: {e}; {d}"))?;
    }
    let bytes = Arc::new(wr.into_inner().map_err(|e| format!("0.4.7 into_inner: {e}; {d}"))?);
    check_scans(Src::new(&bytes), &w.ents, w.cfg.codec, false, &format!("0.4.7 file, {d}"), ctx)?;
    let f = FileCase { bytes: bytes.clone(), ents: w.ents.clone(), desc: format!("0.4.7 file {d}") };
    if w.ents.len() <= 40 && w.ents.iter().all(|e| e.0.len() < 3000) {
        check_seeks(&f, &probes_for(&w.ents), ctx)?;
    }
    note(w, &bytes, ctx);
    Ok(())
}
/// The codecs both versions support: where our file equals the 0.4.7 one is not demanded.
pub fn c09(deep: bool) -> Check {
    let mut fams = writer_families(deep, &fmt::CODECS, c09_case);
    fams.insert(0, four_gib(true));
    let codecs = fmt::CODECS.to_vec();
    fams.push(wfamily("from-0.4.7-shapes", "written by grenad 0.4.7, read by the current reader", shape_seqs(3, &SHAPES, codecs.clone(), vec![0, 1, 2], vec![1, 8], vec![1024]), c09_reverse));
    fams.push(wfamily("from-0.4.7-subsets", "written by grenad 0.4.7, read by the current reader", key_subsets(&[0x00, 0xff], 2, tree_cfgs(deep)), c09_reverse));
    fams.push(wfamily(
        "from-0.4.7-grid",
        "written by grenad 0.4.7, read by the current reader",
        grid(vec![0, 1, 100, 1000], codecs, vec![0, 1, 2, 3], vec![1, 3, 8, 64], vec![0, 1024, 4096, 8192]),
        c09_reverse,
    ));
    fams.push(wfamily("from-0.4.7-huge", "written by grenad 0.4.7, read by the current reader", huge_values(vec![70_000, (4 << 20) + 1]), c09_reverse));
    fams.push(wfamily("from-0.4.7-scale", "written by grenad 0.4.7, read by the current reader", scale(vec![65535, 65536, 65537]), c09_reverse));
    fams.push(crate::readers::giant_block_family("block read in place: entries, offsets table; scan by grenad 0.4.7", c09_giant));
    fams.insert(0, four_giga_entries());
    fams.push(written_beyond_4gib(false));
    Check { property: "C09", level: "model_checking", rule: RULE_W, assumptions: assume(), families: fams }
}

// ------------------------------------------------------------------ C15

fn c15_case(w: &WCase, ctx: &mut Ctx) -> Result<(), String> {
    let d = w.d();
    let b = w.cfg.write(&w.ents).map_err(|e| format!("{e}; {d}"))?;
    ctx.transitions += w.ents.len() as u64 + 1;
    c15_bytes(&w.cfg, &b, &d)?;
    note(w, &b, ctx);
    Ok(())
}
fn c15_bytes(cfg: &Cfg, b: &[u8], d: &str) -> Result<(), String> {
    let bs = cfg.block();
    let dec = match fmt::decode(b, cfg.interval()) {
        Ok(d) => d,
        Err(e) => return Err(format!("file not decodable: {e}; {d}")),
    };
    let mut last = vec![0usize; dec.levels as usize + 2];
    for x in &dec.blocks {
        last[x.level] = last[x.level].max(x.rank);
    }
    for x in &dec.blocks {
        let cut = x.level == 0 || (x.level as u32) < dec.levels as u32;
        if !cut || x.entries == 0 {
            continue;
        }
        if x.raw_without_last >= bs {
            return Err(format!(
                "level-{} block {} at {} of {} bytes has {} bytes without its last entry, block size {bs}; {d}",
                x.level, x.rank, x.offset, x.raw, x.raw_without_last
            ));
        }
        if x.rank != last[x.level] && x.raw < bs {
            return Err(format!("level-{} block {} at {} of {} bytes emitted before block size {bs}; {d}", x.level, x.rank, x.offset, x.raw));
        }
    }
    Ok(())
}
/// Sizes stepping over the cut one byte at a time.
fn c15_sweep(deep: bool) -> WCorpus {
    let bss: Vec<usize> = if deep { vec![0, 512, 1023, 1024, 1025, 1026, 1500, 2048, 4096, 8192, 16384, 40000] } else { vec![0, 1024, 1025, 2048, 8192] };
    let ivs: Vec<usize> = if deep { intervals_all() } else { vec![1, 2, 8, 1000] };
    let dims = [bss.len(), ivs.len(), 120, 2];
    (
        format!("block sizes {bss:?} x intervals {ivs:?}: blocks of one large then small entries whose size passes the block size in steps of one byte (120 steps), large key or large value"),
        product(&dims),
        Box::new(move |case| {
            let mut r = Radix(case);
            let (bs, iv, step, which) = (r.pick(&bss), r.pick(&ivs), r.take(120), r.take(2));
            let cfg = Cfg::new(0, bs, iv, 3);
            let big = cfg.block() - 90 + step;
            let ents: Ents = (0..24usize)
                .map(|i| {
                    let mut k = vec![i as u8, 1];
                    let mut v = vec![2; i % 4];
                    if i % 6 == 0 {
                        if which == 0 {
                            v = bytes(i as u64, big, 0);
                        } else {
                            k.extend(bytes(i as u64, big, 0));
                        }
                    }
                    (k, v)
                })
                .collect();
            WCase { cfg, ents, desc: format!("sweep step={step} which={which}") }
        }),
    )
}
/// Uniform entries of every small size: all residues of the size estimate at the cut.
fn c15_uniform(deep: bool) -> WCorpus {
    let bss: Vec<usize> = if deep { vec![1024, 1027, 1536, 2048, 4096, 8192] } else { vec![1024, 1029] };
    let ivs: Vec<usize> = if deep { intervals_all() } else { vec![1, 3, 8] };
    let klens: Vec<usize> = if deep { (2..=40).chain([60, 100, 125, 126, 127, 128, 200, 300, 340, 500, 520]).collect() } else { vec![2, 3, 4, 5, 7, 8, 11, 16, 31, 60, 128, 200, 340] };
    let vlens: Vec<usize> = if deep { (0..=40).chain([64, 100, 127, 128, 200, 250, 256, 333, 500]).collect() } else { (0..=12).chain([100, 127, 128, 500]).collect() };
    let dims = [bss.len(), ivs.len(), klens.len(), vlens.len()];
    (
        format!("uniform entries: block sizes {bss:?} x intervals {ivs:?} x key lengths {klens:?} x value lengths {vlens:?}, enough entries for several blocks at every cut level, 2..4 index levels"),
        product(&dims),
        Box::new(move |case| {
            let mut r = Radix(case);
            let (bs, iv, kl, vl) = (r.pick(&bss), r.pick(&ivs), r.pick(&klens), r.pick(&vlens));
            let levels = 2 + ((kl + vl) % 3) as u8;
            let cfg = Cfg::new(0, bs, iv, levels);
            let per_block = bs / (kl + vl + 2) + 1;
            let per_index = bs / (kl + 10) + 1;
            let n = (per_block * per_index * 3).min(4000).max(per_block * 3);
            let ents: Ents = (0..n)
                .map(|i| {
                    let mut k = (i as u16).to_be_bytes().to_vec();
                    k.resize(kl, 7);
                    (k, vec![i as u8; vl])
                })
                .collect();
            WCase { cfg, ents, desc: format!("uniform klen={kl} vlen={vl} n={n}") }
        }),
    )
}
pub fn c15(deep: bool) -> Check {
    // Cutting happens before compression: one codec for the shared families, all on a small grid.
    let mut fams = writer_families(deep, &[0], c15_case);
    fams.push(wfamily("cut-sweep", "", c15_sweep(deep), c15_case));
    fams.push(wfamily("cut-uniform", "", c15_uniform(deep), c15_case));
    fams.push(wfamily(
        "codecs",
        "",
        grid(vec![100, 1000], vec![1, 2, 3, 4, 5], vec![0, 2, 3], vec![1, 8], vec![0, 1, 1023, 1024, 1025, 4096, 8192, 65536]),
        c15_case,
    ));
    fams.push(wfamily("default-block-size", "default block size and interval", {
        let cfgs = vec![
            Cfg { codec: 0, level: 0, block: None, interval: None, levels: 0 },
            Cfg { codec: 0, level: 0, block: None, interval: None, levels: 3 },
            Cfg { codec: 5, level: 0, block: None, interval: Some(1), levels: 2 },
        ];
        let ns = vec![0usize, 1, 500, 1000, 5000, 60000];
        (
            format!("n in {ns:?} small entries, {} configurations with the default block size", cfgs.len()),
            product(&[3, ns.len()]),
            Box::new(move |case| {
                let mut r = Radix(case);
                let cfg = r.pick(&cfgs);
                let n = r.pick(&ns);
                WCase { cfg, ents: (0..n).map(|i| ((i as u32).to_be_bytes().to_vec(), vec![1; i % 30])).collect(), desc: format!("default n={n}") }
            }),
        )
    }, c15_case));
    Check { property: "C15", level: "model_checking", rule: RULE_W, assumptions: assume(), families: fams }
}

// ------------------------------------------------------------------ C18

/// The specification as a machine: which event must panic.
struct OrderModel {
    bs: usize,
    iv: usize,
    data: BlockModel,
    index: Vec<BlockModel>, // last: lowest level
}
#[derive(Clone, Default)]
struct BlockModel {
    size: usize,
    n: usize,
    last: Option<Vec<u8>>,
}
fn vlen(n: usize) -> usize {
    match n {
        0..=0x7f => 1,
        0x80..=0x3fff => 2,
        0x4000..=0x1f_ffff => 3,
        0x20_0000..=0xfff_ffff => 4,
        _ => 5,
    }
}
impl BlockModel {
    /// `false`: out of order.
    fn push(&mut self, k: &[u8], vl: usize) -> bool {
        if self.last.as_ref().map_or(false, |l| &l[..] >= k) {
            return false;
        }
        self.size += vlen(k.len()) + vlen(vl) + k.len() + vl;
        self.n += 1;
        self.last = Some(k.to_vec());
        true
    }
    fn raw(&self, iv: usize) -> usize {
        self.size + 8 * self.n.div_ceil(iv).max(1) + 4
    }
}
impl OrderModel {
    fn new(cfg: &Cfg) -> OrderModel {
        OrderModel { bs: cfg.block(), iv: cfg.interval(), data: BlockModel::default(), index: vec![BlockModel::default(); cfg.levels as usize + 1] }
    }
    fn insert(&mut self, k: &[u8], v: &[u8]) -> bool {
        if !self.data.push(k, v.len()) {
            return false;
        }
        if self.data.raw(self.iv) >= self.bs {
            let l = self.data.last.take().unwrap();
            self.data = BlockModel::default();
            if !self.index.last_mut().unwrap().push(&l, 8) {
                return false;
            }
            for i in (2..self.index.len()).rev() {
                if self.index[i].raw(self.iv) >= self.bs {
                    let l = self.index[i].last.take().unwrap();
                    self.index[i] = BlockModel::default();
                    if !self.index[i - 1].push(&l, 8) {
                        return false;
                    }
                }
            }
        }
        true
    }
    fn finish(&mut self) -> bool {
        if let Some(l) = self.data.last.take() {
            if !self.index.last_mut().unwrap().push(&l, 8) {
                return false;
            }
        }
        for i in (1..self.index.len()).rev() {
            if let Some(l) = self.index[i].last.take() {
                if !self.index[i - 1].push(&l, 8) {
                    return false;
                }
            }
        }
        true
    }
}

/// Decodes every block by itself; only the order within blocks is judged.
fn blocks_sorted(b: &[u8], codec: u8) -> Result<(u64, Ents), String> {
    let t = fmt::parse_trailer(b).ok_or("no trailer")?;
    let end = b.len() - t.len;
    let mut p = 0usize;
    let mut blocks: std::collections::BTreeMap<u64, Ents> = Default::default();
    let mut n = 0;
    while p < end {
        let stored = u64::from_be_bytes(b.get(p..p + 8).ok_or("length outside")?.try_into().unwrap()) as usize;
        let raw = fmt::decompress(codec, b.get(p + 8..p + 8 + stored).ok_or("block outside")?)?;
        let cnt = u32::from_be_bytes(raw[raw.len() - 4..].try_into().unwrap()) as usize;
        let payload = &raw[..raw.len() - 4 - 8 * cnt];
        let mut q = 0;
        let mut es: Ents = vec![];
        while q < payload.len() {
            let (kl, a) = fmt::unvarint(&payload[q..])?;
            q += a;
            let (vl, a) = fmt::unvarint(&payload[q..])?;
            q += a;
            let k = &payload[q..q + kl as usize];
            q += kl as usize;
            let v = &payload[q..q + vl as usize];
            q += vl as usize;
            if let Some((pk, _)) = es.last() {
                if &pk[..] >= k {
                    return Err(format!("the block at {p} holds key {} then {}", hex(pk), hex(k)));
                }
            }
            es.push((k.to_vec(), v.to_vec()));
        }
        blocks.insert(p as u64, es);
        n += 1;
        p += 8 + stored;
    }
    // The data in index order.
    let mut level = vec![t.root];
    for _ in 0..=t.levels {
        let mut next = vec![];
        for o in level {
            for (_, v) in blocks.get(&o).ok_or("dangling index")? {
                next.push(u64::from_be_bytes(v[..].try_into().map_err(|_| "index value size")?));
            }
        }
        level = next;
    }
    let mut data = vec![];
    for o in level {
        data.extend(blocks.remove(&o).ok_or("dangling index")?);
    }
    Ok((n, data))
}

fn c18_case(w: &WCase, ctx: &mut Ctx) -> Result<(), String> {
    let d = w.d();
    let mut m = OrderModel::new(&w.cfg);
    let mut wr = w.cfg.builder().memory();
    let mut ascending = true;
    let mut out = H::new();
    for (i, (k, v)) in w.ents.iter().enumerate() {
        ascending &= i == 0 || w.ents[i - 1].0 < *k;
        let ok = m.insert(k, v);
        ctx.transitions += 1;
        match guard(|| wr.insert(k, v)) {
            Ok(Ok(())) if ok => {}
            Ok(Ok(())) => return Err(format!("insert {i} of {} does not panic although its block is out of order; {d}", hex(k))),
            Ok(Err(e)) => return Err(format!("insert {i} returns an error: {e}; {d}")),
            Err(_) if !ascending => {
                out.u(i as u64);
                ctx.outcome(out.get());
                ctx.states_of(case_hash(w), i as u64 + 1);
                ctx.traces += 1;
                ctx.sample(|| format!("panics at insert {i}: {d}"));
                return Ok(());
            }
            Err(p) => return Err(format!("insert {i} of {} in ascending order: {p}; {d}", hex(k))),
        }
    }
    let ok = m.finish();
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.states_of(case_hash(w), w.ents.len() as u64 + 2);
    match guard(|| wr.into_inner()) {
        Ok(Ok(b)) => {
            let (n, data) = blocks_sorted(&b, w.cfg.codec).map_err(|e| format!("{e}; {d}"))?;
            if !ok {
                return Err(format!("finish does not panic although an index block is out of order; {d}"));
            }
            if data != w.ents {
                return Err(format!("the finished file holds other entries than inserted; {d}"));
            }
            out.u(n + 1000);
        }
        Ok(Err(e)) => return Err(format!("into_inner returns an error: {e}; {d}")),
        Err(_) if !ascending => {
            out.u(999);
        }
        Err(p) => return Err(format!("finish of ascending inserts: {p}; {d}")),
    }
    ctx.outcome(out.get());
    ctx.sample(|| d.clone());
    Ok(())
}
fn case_hash(w: &WCase) -> u64 {
    let mut h = H::new();
    for (k, v) in &w.ents {
        h.b(k).b(v);
    }
    h.u(w.cfg.codec as u64).u(w.cfg.levels as u64).u(w.cfg.interval() as u64).u(w.cfg.block() as u64).get()
}
/// All sequences of `(key, value size)` choices.
fn c18_seqs(name: &'static str, max_n: usize, keys: Vec<Vec<u8>>, vals: Vec<usize>, cfgs: Vec<Cfg>) -> Family {
    let sym = keys.len() * vals.len();
    let mut total = 0u64;
    let mut starts = vec![];
    for n in 0..=max_n {
        starts.push(total);
        total += (sym as u64).pow(n as u32);
    }
    let nc = cfgs.len() as u64;
    let kd: Vec<String> = keys.iter().map(|k| hex(k)).collect();
    wfamily(
        name,
        "panic exactly as the order model says, or every block sorted",
        (
            format!("all sequences of <= {max_n} inserts over keys {kd:?} x value sizes {vals:?} x {nc} configurations"),
            total * nc,
            Box::new(move |case| {
                let s = case / nc;
                let n = starts.partition_point(|x| *x <= s) - 1;
                let mut r = Radix(s - starts[n]);
                let ents = (0..n)
                    .map(|_| {
                        let k = r.pick(&keys);
                        let v = r.pick(&vals);
                        (k, vec![v as u8; v])
                    })
                    .collect();
                WCase { cfg: cfgs[(case % nc) as usize], ents, desc: "order".into() }
            }),
        ),
        c18_case,
    )
}
/// Long ascending sequences with one disturbance at every position.
fn c18_long(ns: Vec<usize>, klens: Vec<usize>, cfgs: Vec<Cfg>) -> Family {
    // Disturbances: duplicate of the previous key, swap with the next, previous key again after a
    // block, the first key again, the empty key, a prefix of the previous key.
    let per: Vec<u64> = ns.iter().map(|n| *n as u64 * 7).collect();
    let total: u64 = per.iter().sum();
    let (nc, nk) = (cfgs.len() as u64, klens.len() as u64);
    wfamily(
        "one-disturbance",
        "panic exactly as the order model says, or every block sorted",
        (
            format!("{ns:?} ascending entries, key lengths {klens:?}, with one disturbance of 7 kinds at every position, x {nc} configurations"),
            total * nc * nk,
            Box::new(move |case| {
                let mut r = Radix(case);
                let cfg = r.pick(&cfgs);
                let kl = r.pick(&klens);
                let mut x = r.0;
                let mut n = 0;
                for (i, p) in per.iter().enumerate() {
                    if x < *p {
                        n = ns[i];
                        break;
                    }
                    x -= p;
                }
                let (pos, kind) = ((x / 7) as usize, x % 7);
                let key = |i: usize| {
                    let mut k = ((i + 1) as u16).to_be_bytes().to_vec();
                    k.resize(kl.max(2), 9);
                    k
                };
                let mut ents: Ents = (0..n).map(|i| (key(i), vec![i as u8; i % 5])).collect();
                let prev = if pos > 0 { ents[pos - 1].0.clone() } else { vec![] };
                match kind {
                    0 => ents[pos].0 = prev,
                    1 => {
                        if pos + 1 < n {
                            ents.swap(pos, pos + 1)
                        }
                    }
                    2 => ents[pos].0 = ents[pos / 2].0.clone(),
                    3 => ents[pos].0 = ents[0].0.clone(),
                    4 => ents[pos].0 = vec![],
                    5 => {
                        ents[pos].0 = prev;
                        ents[pos].0.pop();
                    }
                    _ => {
                        // From here on, the sequence starts again.
                        for i in pos..n {
                            ents[i].0 = key(i - pos);
                        }
                    }
                }
                WCase { cfg, ents, desc: format!("disturbance {kind} at {pos} of {n}, key length {kl}") }
            }),
        ),
        c18_case,
    )
}
/// Pairs of keys that share a prefix of each length and then differ in one or two bytes, or in length.
fn c18_tails(deep: bool) -> Family {
    let lens = prefix_lens(deep);
    let tails = strings(&[0x00, 0x41, 0xff], 2);
    let dims = [tails.len(), tails.len(), 3, 2, lens.len()];
    wfamily(
        "common-prefixes",
        "panic exactly as the order model says, or every block sorted",
        (
            format!("all pairs of keys of a common prefix of n and a common suffix of m bytes, (n, m) in {lens:?}, and parts between over {{00,41,ff}} up to length 2; in one block, in two blocks recorded by one index block, with a smaller key first or not"),
            product(&dims),
            Box::new(move |case| {
                let mut r = Radix(case);
                let (a, b, v, first) = (r.pick(&tails), r.pick(&tails), r.take(3), r.take(2) == 1);
                let n = r.pick(&lens);
                let mut ents: Ents = vec![];
                if first {
                    ents.push((vec![], vec![1]));
                }
                let v = [0, 1100, 10_000][v];
                ents.push((tailed(n, &a), vec![2; v]));
                ents.push((tailed(n, &b), vec![3; v]));
                WCase { cfg: Cfg::new(0, 1024, 1 + n.0 % 2, [0, 1, 2][v % 3]), ents, desc: format!("common prefix and suffix of {n:?}, tails {} {}", hex(&a), hex(&b)) }
            }),
        ),
        c18_case,
    )
}
/// All pairs of bytes.
fn c18_bytes() -> Family {
    wfamily(
        "all-bytes",
        "panic exactly as the order model says, or every block sorted",
        (
            "all pairs of keys of one byte after 0, 3 or 8 bytes, in one block or in two blocks recorded by one index block".into(),
            256 * 256 * 3 * 2,
            Box::new(|case| {
                let mut r = Radix(case);
                let (a, b, before, v) = (r.take(256) as u8, r.take(256) as u8, [0usize, 3, 8][r.take(3)], [0, 1100][r.take(2)]);
                let key = |b: u8| [vec![0x6b; before], vec![b]].concat();
                WCase { cfg: Cfg::new(0, 1024, 2, 1), ents: vec![(key(a), vec![2; v]), (key(b), vec![3; v])], desc: format!("bytes {a:02x} {b:02x} after {before}, values of {v}") }
            }),
        ),
        c18_case,
    )
}
pub fn c18(deep: bool) -> Check {
    let mut cfgs = vec![];
    for l in [0u8, 1, 2, 3] {
        for i in [1usize, 2, 8] {
            cfgs.push(Cfg::new(0, 1024, i, l));
        }
    }
    let few = vec![Cfg::new(0, 1024, 1, 0), Cfg::new(0, 1024, 2, 2)];
    let big = |b: u8| vec![b; 1100];
    let mut fams = vec![
        c18_seqs("tiny-and-block", if deep { 6 } else { 5 }, vec![b"a".to_vec(), b"b".to_vec(), b"c".to_vec()], vec![0, 1100], if deep { cfgs.clone() } else { cfgs.iter().copied().step_by(2).collect() }),
        c18_seqs(
            "prefix-keys",
            if deep { 7 } else { 6 },
            vec![vec![], vec![0], vec![0, 0], vec![0, 0xff], vec![0xff]],
            vec![2],
            if deep { cfgs.clone() } else { few.clone() },
        ),
        c18_seqs("index-order", if deep { 8 } else { 6 }, vec![big(1), big(2), big(3), b"\x02".to_vec()], vec![0], cfgs.clone()),
        c18_seqs("medium-keys", if deep { 7 } else { 6 }, vec![vec![1; 520], vec![2; 520], vec![3; 520]], vec![0, 600], if deep { cfgs.clone() } else { few.clone() }),
        c18_long(
            if deep { vec![10, 40, 150, 400, 900] } else { vec![40, 150] },
            vec![2, 3, 130, 340],
            if deep { cfgs.clone() } else { vec![Cfg::new(0, 1024, 1, 0), Cfg::new(0, 1024, 8, 2), Cfg::new(0, 2048, 3, 3), Cfg::new(0, 1024, 2, 1)] },
        ),
    ];
    let codec_cfgs: Vec<Cfg> = fmt::CODECS.iter().map(|c| Cfg::new(*c, 1024, 2, 1)).collect();
    fams.push(c18_seqs("codecs", 4, vec![b"a".to_vec(), b"b".to_vec(), b"c".to_vec()], vec![0, 1100], codec_cfgs));
    // Byte comparisons: all pairs of one- and two-byte keys over a covering alphabet.
    let mut ks = strings(&[0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff], 2);
    ks.extend([vec![0; 3], vec![0xff; 3], vec![0; 9], vec![0xff; 9], vec![0x80; 8], vec![0x7f; 8]]);
    fams.push(c18_seqs("key-pairs", 2, ks, vec![0, 1100], few));
    fams.push(long_keys_family());
    fams.push(c18_tails(deep));
    fams.push(c18_bytes());
    Check {
        property: "C18",
        level: "model_checking",
        rule: "a state is a prefix of an enumerated insert sequence under a configuration, a transition one insert or finish of the real writer compared with the order model, a trace one complete sequence",
        assumptions: vec![
            "small scope: insert sequences up to the stated lengths, plus single disturbances of long ones".into(),
            "an earlier panic on an already unordered sequence is not judged as wrong".into(),
        ],
        families: fams,
    }
}
/// Keys that differ only at one far byte: comparison over the whole length.
fn long_keys_family() -> Family {
    let lens = vec![8usize, 16, 17, 32, 64, 65, 128, 255, 256, 257, 1000, 4096, 65536, 70000];
    let total = lens.len() as u64 * 4 * 3 * 2;
    wfamily(
        "far-difference",
        "",
        (
            format!("pairs of keys of lengths {lens:?} that are equal, or differ at the last, middle or first byte, in both orders, 3 configurations"),
            total,
            Box::new(move |case| {
                let mut r = Radix(case);
                let len = r.pick(&lens);
                let w = r.take(4);
                let cfg = r.pick(&[Cfg::new(0, 1 << 20, 1, 0), Cfg::new(0, 1 << 20, 8, 2), Cfg::new(0, 1024, 1, 2)]);
                let rev = r.take(2) == 1;
                let a = vec![5u8; len];
                let mut b = a.clone();
                match w {
                    0 => {}
                    1 => b[len - 1] = 6,
                    2 => b[len / 2] = 6,
                    _ => b[0] = 0x85,
                }
                let mut e: Ents = vec![(a, vec![1]), (b, vec![2])];
                if rev {
                    e.reverse();
                }
                e.push((vec![0xff; 3], vec![]));
                WCase { cfg, ents: e, desc: format!("far difference len={len} at {w}") }
            }),
        ),
        c18_case,
    )
}

// ------------------------------------------------------------------ C14

pub fn c14(deep: bool) -> Check {
    let mut fams: Vec<Family> = vec![];
    #[cfg(grenad_verif)]
    {
        const BLOCK: u64 = 1 << 20;
        fams.push(family(
            "all-lengths",
            "every length 0..=2^32-1: encoded form, its length, and decoding with nothing and with 6 continuations after it",
            (1u64 << 32) / BLOCK,
            |case, ctx| {
                use grenad::verif::{varint_decode32, varint_encode32};
                let mut ref_buf = Vec::with_capacity(16);
                for v in case * BLOCK..(case + 1) * BLOCK {
                    let v = v as u32;
                    let mut buf = [0xA5u8; 10];
                    ref_buf.clear();
                    fmt::varint(v, &mut ref_buf);
                    let enc = varint_encode32(&mut buf, v);
                    let n = enc.len();
                    if enc != &ref_buf[..] {
                        return Err(format!("length {v} is encoded as {enc:02x?} instead of {ref_buf:02x?}"));
                    }
                    let mut data = [0u8; 16];
                    data[..n].copy_from_slice(enc);
                    for tail in [0x00u8, 0x7f, 0x80, 0xff] {
                        data[n..].fill(tail);
                        let mut out = 0xDEAD_BEEF;
                        let m = varint_decode32(&data, &mut out);
                        if m != n || out != v {
                            return Err(format!("length {v} followed by {tail:02x}.. decodes to {out} in {m} bytes instead of {n}"));
                        }
                    }
                    let mut out = 1;
                    let m = varint_decode32(&data[..n], &mut out);
                    if m != n || out != v {
                        return Err(format!("length {v} at the end of a block decodes to {out} in {m} bytes instead of {n}"));
                    }
                }
                ctx.states_of(H::new().u(0xC14).u(case).get(), BLOCK);
                ctx.transitions += BLOCK * 6;
                ctx.traces += BLOCK;
                ctx.sample(|| format!("lengths {}..{}", case * BLOCK, (case + 1) * BLOCK));
                Ok(())
            },
        ));
    }
    let mut lens: Vec<usize> = (0..=300).collect();
    lens.extend(16370..=16400);
    lens.extend([1000, 1023, 1024, 1025, 5000, 65535, 65536, 70000]);
    if deep {
        lens.extend(300..2000);
        lens.extend(16000..16800);
    }
    let cfgs = vec![Cfg::new(0, 1 << 30, 1, 0), Cfg::new(0, 1024, 8, 1), Cfg::new(5, 1 << 20, 2, 0)];
    let (lb, ln, make) = boundary_sizes(lens, cfgs);
    fams.push(wfamily("entries", "scans and exact-match seeks", (lb, ln, make), c14_case));
    let lens: Vec<usize> = if deep { (2097140..=2097160).collect() } else { vec![2097150, 2097151, 2097152, 2097153] };
    fams.push(wfamily("entries-2^21", "scans and exact-match seeks", boundary_sizes(lens, vec![Cfg::new(0, 1 << 30, 1, 0), Cfg::new(0, 1024, 2, 1)]), c14_case));
    // Key length x value length at the framing boundaries.
    let b: Vec<usize> = vec![0, 1, 126, 127, 128, 129, 255, 16382, 16383, 16384, 16385];
    fams.push(wfamily(
        "length-pairs",
        "scans and exact-match seeks",
        (
            format!("all pairs of key length x value length in {b:?}, three entries per block, intervals 1, 2, 8"),
            (b.len() * b.len() * 3) as u64,
            Box::new(move |case| {
                let mut r = Radix(case);
                let (kl, vl, iv) = (r.pick(&b), r.pick(&b), r.pick(&[1usize, 2, 8]));
                let mut ents: Ents = vec![(vec![], vec![1; 3])];
                let mut k = bytes(9, kl, 2);
                if let Some(x) = k.first_mut() {
                    *x = 1;
                }
                ents.push((k, bytes(3, vl, 2)));
                ents.push((vec![2], vec![]));
                let ents = sorted_unique(ents);
                WCase { cfg: Cfg::new(0, 1 << 30, iv, 0), ents, desc: format!("pair {kl}/{vl}") }
            }),
        ),
        c14_case,
    ));
    let mut f = wfamily(
        "entries-2^28",
        "scans and exact-match seeks",
        (
            "one value (2^28 - 1, 2^28) or key (2^28) of that length between neighbours, one block".into(),
            if deep { 6 } else { 3 },
            Box::new(|case| {
                let len = [(1usize << 28) - 1, 1 << 28, 1 << 28, (1 << 28) + 1, (1 << 28) - 1, 1 << 30][case as usize];
                let key = case == 2 || case == 4;
                let mut ents: Ents = vec![(vec![1], vec![1; 3])];
                let mut big = vec![0x5Au8; len];
                big[len - 1] = 1;
                big[0] = 2;
                if key {
                    ents.push((big, vec![3; 2]));
                } else {
                    ents.push((vec![2], big));
                }
                ents.push((vec![3], vec![4; 4]));
                WCase { cfg: Cfg::new(0, usize::MAX, 1, 0), ents, desc: format!("2^28 {len} key={key}") }
            }),
        ),
        c14_case,
    )
    .serial();
    f.limit_s = 400;
    fams.push(f);
    {
        const M: usize = u32::MAX as usize;
        const H31: usize = 1 << 31;
        let giant: Vec<(usize, bool)> = if deep { vec![(M, false), (M, true), (H31, false), (H31, true), (H31 - 1, false), (3 << 30, false), (M - 1, false)] } else { vec![(H31, false)] };
        let mut f = family("entries-2^32", format!("one value (or key, when true) of {giant:?} bytes between neighbours, in one block with an offset per entry"), giant.len() as u64, move |case, ctx| {
            let (len, key) = giant[case as usize];
            let cfg = Cfg::new(0, usize::MAX, 1, 0);
            let mut big = vec![0u8; len];
            big[0] = 2;
            *big.last_mut().unwrap() = 0x77;
            let small = vec![9u8, 9];
            let mut w = cfg.builder().build(Sparse::default());
            let ins = |w: &mut grenad::Writer<Sparse>, k: &[u8], v: &[u8]| w.insert(k, v).map_err(|e| format!("insert: {e}"));
            ins(&mut w, &[1], &small)?;
            if key {
                ins(&mut w, &big, &small)?;
            } else {
                ins(&mut w, &[2], &big)?;
            }
            ins(&mut w, &[3], &[5])?;
            let s = w.into_inner().map_err(|e| format!("{e}"))?;
            let mut c = open(s, "2^32 entry")?;
            let (bk, bv): (&[u8], &[u8]) = if key { (&big, &small) } else { (&[2], &big) };
            let want: [(&[u8], &[u8]); 3] = [(&[1], &small), (bk, bv), (&[3], &[5])];
            for (i, e) in want.iter().enumerate() {
                let got = c.move_on_next().map_err(|e| format!("{e}"))?;
                same(|| format!("step {i} around an entry of {len} bytes"), got, Some(*e))?;
            }
            for i in [2usize, 1, 0] {
                let got = c.move_on_key_equal_to(want[i].0).map_err(|e| format!("{e}"))?;
                same(|| format!("seek {i} around an entry of {len} bytes"), got, Some(want[i]))?;
            }
            ctx.traces += 1;
            ctx.transitions += 10;
            Ok(())
        })
        .serial();
        f.limit_s = 1500;
        fams.push(f);
    }
    Check {
        property: "C14",
        level: "model_checking",
        rule: "a state is a length value (or a distinct file), a transition one encode/decode or reader/writer call, a trace one length round trip or one file read back",
        assumptions: vec!["the reference is an independent LEB128 implementation".into()],
        families: fams,
    }
}
fn c14_case(w: &WCase, ctx: &mut Ctx) -> Result<(), String> {
    let d = w.d();
    let b = Arc::new(w.cfg.write(&w.ents).map_err(|e| format!("{e}; {d}"))?);
    let mut c = open(Src::new(&b), &d)?;
    scan_forward(&mut c, &w.ents, &d)?;
    c.reset();
    scan_backward(&mut c, &w.ents, &d)?;
    for (i, (k, v)) in w.ents.iter().enumerate() {
        let got = c.move_on_key_equal_to(k).map_err(|e| format!("seek {i}: {e}; {d}"))?;
        same(|| format!("exact seek {i}; {d}"), got, Some((&k[..], &v[..])))?;
    }
    ctx.transitions += 4 * w.ents.len() as u64 + 4;
    note(w, &b, ctx);
    Ok(())
}

// ------------------------------------------------------------------ C13

fn c13_open(b: &[u8], d: &dyn Fn() -> String, ctx: &mut Ctx) -> Result<(), String> {
    let t = fmt::parse_trailer(b);
    ctx.transitions += 1;
    ctx.traces += 1;
    // The source is handed over at any position.
    let mut src = Cursor::new(b);
    src.set_position([0, b.len(), b.len() / 2, b.len() + 99, 1][b.iter().map(|x| *x as usize).sum::<usize>() % 5] as u64);
    match (guard(|| Reader::new(src)), t) {
        (Err(p), _) => Err(format!("Reader::new: {p}; {}", d())),
        (Ok(Err(_)), None) => Ok(()),
        (Ok(Err(e)), Some(_)) => Err(format!("rejected with `{e}` although it ends with a complete trailer; {}", d())),
        (Ok(Ok(_)), None) => Err(format!("accepted although it does not end with a complete trailer; {}", d())),
        (Ok(Ok(r)), Some(t)) => {
            let v = if t.version == 1 { grenad::FileVersion::FormatV1 } else { grenad::FileVersion::FormatV2 };
            if r.len() != t.count || codec_id(r.compression_type()) != t.codec || r.file_version() != v || r.is_empty() != (t.count == 0) {
                return Err(format!(
                    "trailer (version {}, codec {}, count {}) read as version {:?}, codec {:?}, count {}; {}",
                    t.version,
                    t.codec,
                    t.count,
                    r.file_version(),
                    r.compression_type(),
                    r.len(),
                    d()
                ));
            }
            ctx.nontrivial += 1;
            Ok(())
        }
    }
}
/// The finished files: 6 codecs x 4 depths x 4 sizes, their version-1 twins, embedded trailers.
const C13_FILES: u64 = 6 * 4 * 4 * 2 + 3;
fn c13_file(case: u64) -> Result<(Vec<u8>, String), String> {
    if case < 3 {
        // Files whose values embed complete trailers: truncations may be valid.
        let t = [fmt::trailer_v1(3, 5, 7), fmt::trailer_v2(0, 0, 1, 9), fmt::trailer_v2(u64::MAX, 4, u64::MAX, 255)][case as usize].clone();
        let mut val = t.clone();
        val.extend(t);
        let mut key = vec![2];
        key.extend(&val);
        let e: Ents = vec![(vec![1], val), (key, vec![])];
        return Ok((Cfg::new(0, 1024, 1, 0).write(&e)?, "embedded trailer".into()));
    }
    let mut r = Radix(case - 3);
    let c = r.pick(&fmt::CODECS);
    let l = r.pick(&[0u8, 1, 2, 5]);
    let n = r.pick(&[0usize, 1, 5, 40]);
    let v1 = r.take(2) == 1;
    let e: Ents = (0..n).map(|i| (uniform_key(i), bytes(i as u64, (i * 13 + c as usize) % 60, 2))).collect();
    let cfg = Cfg::new(c, 1024, 2, if v1 { 0 } else { l });
    let b = cfg.write(&e)?;
    Ok(if v1 { (fmt::to_v1(&b), format!("v1 {cfg:?} n={n}")) } else { (b, format!("{cfg:?} n={n}")) })
}
pub fn c13(deep: bool) -> Check {
    let mut fams = vec![];
    fams.push(family(
        "truncations",
        format!("every truncation (crash point) of {C13_FILES} finished files, all codecs, versions 1 and 2, with and without embedded trailers"),
        C13_FILES,
        move |case, ctx| {
            let (b, d) = &c13_file(case)?;
            for n in 0..=b.len() {
                c13_open(&b[..n], &|| format!("first {n} of {} bytes of {d}", b.len()), ctx)?;
            }
            ctx.states_of(hash(b), b.len() as u64 + 1);
            ctx.sample(|| format!("{} truncations of {d}", b.len() + 1));
            Ok(())
        },
    ));
    fams.push(family(
        "suffixes",
        "every suffix of the same files (the beginning lost)",
        C13_FILES,
        move |case, ctx| {
            let (b, d) = &c13_file(case)?;
            for n in (0..=b.len()).rev().take(600) {
                c13_open(&b[n..], &|| format!("bytes {n}.. of {d}"), ctx)?;
            }
            ctx.states_of(hash(b).wrapping_add(1), b.len() as u64 + 1);
            Ok(())
        },
    ));
    fams.push(family(
        "single-byte-corruptions",
        "every byte of the last 26 set to each of 256 values",
        C13_FILES,
        move |case, ctx| {
            let (b, d) = &c13_file(case)?;
            let mut m = b.clone();
            for i in b.len().saturating_sub(26)..b.len() {
                for x in 0..=255u8 {
                    m[i] = x;
                    c13_open(&m, &|| format!("byte {i} of {} set to {x:02x} in {d}", b.len()), ctx)?;
                }
                m[i] = b[i];
            }
            ctx.states_of(hash(b).wrapping_add(2), 26 * 256);
            Ok(())
        },
    ));
    fams.push(family(
        "two-byte-corruptions",
        "every pair of the 22 trailer bytes set to each pair out of 16 values, both versions",
        22 * 22 * 2,
        move |case, ctx| {
            let mut r = Radix(case);
            let (i, j, v1) = (r.take(22), r.take(22), r.take(2) == 1);
            let b = if v1 { fmt::trailer_v1(5, 3, 9) } else { fmt::trailer_v2(5, 3, 9, 1) };
            let mut b2 = vec![0x11; 30];
            b2.extend(&b);
            let n = b2.len();
            let vals = [0x00, 0x01, 0x02, 0x04, 0x05, 0x06, 0x07, 0x23, 0x32, 0x4c, 0x4d, 0x67, 0x76, 0xc4, 0xd4, 0xff];
            for x in vals {
                for y in vals {
                    let mut m = b2.clone();
                    m[n - 1 - i] = x;
                    m[n - 1 - j] = y;
                    c13_open(&m, &|| format!("trailer bytes -{} and -{} set to {x:02x}, {y:02x} (v1: {v1})", i + 1, j + 1), ctx)?;
                }
            }
            ctx.states_of(H::new().u(0x2b).u(case).get(), 256);
            Ok(())
        },
    ));
    fams.push(family("short-strings", "all byte strings of length 0, 1, 2 and, of length 3, over 32 values", 256 + 32 * 32, |case, ctx| {
        if case == 0 {
            c13_open(&[], &|| "the empty string".into(), ctx)?;
        }
        if case < 256 {
            c13_open(&[case as u8], &|| format!("{case:02x}"), ctx)?;
            for x in 0..=255u8 {
                c13_open(&[case as u8, x], &|| format!("{case:02x} {x:02x}"), ctx)?;
            }
        } else {
            let v: Vec<u8> = (0..16).chain([0x23, 0x32, 0x4c, 0x4d, 0x67, 0x76, 0xc4, 0xd4, 0x7f, 0x80, 0xfe, 0xff, 0x40, 0x20, 0x55, 0xaa]).collect();
            let c = case as usize - 256;
            for x in &v {
                c13_open(&[v[c / 32], v[c % 32], *x], &|| "3 bytes".into(), ctx)?;
            }
        }
        ctx.states_of(H::new().u(0x55).u(case).get(), 256);
        Ok(())
    }));
    // The complete record grammar around the magic: every length of what precedes it.
    fams.push(family(
        "records",
        "each magic preceded by 0..=40 bytes, the codec byte taking all 256 values, root, count and level extremes",
        2 * 41 * 3,
        |case, ctx| {
            let mut r = Radix(case);
            let (v1, len, fill) = (r.take(2) == 1, r.take(41), r.pick(&[0x00u8, 0x05, 0xff]));
            let size = if v1 { 17 } else { 18 };
            let at = if v1 { 9 } else { 10 }; // the codec byte, counted from the end of the record
            for codec in 0..=255u8 {
                let mut b = vec![fill; len];
                if len >= at {
                    let i = len - at;
                    b[i] = codec;
                }
                b.extend((if v1 { fmt::MAGIC_V1 } else { fmt::MAGIC_V2 }).to_le_bytes());
                let _ = size;
                c13_open(&b, &|| format!("magic v1={v1} preceded by {len} bytes {fill:02x}, codec byte {codec}"), ctx)?;
            }
            ctx.states_of(H::new().u(0x66).u(case).get(), 256);
            Ok(())
        },
    ));
    const MB: u64 = 1 << 20;
    let blocks = 4096;
    fams.push(family(
        "magics",
        format!("all {} magic numbers before a complete record", blocks * MB),
        blocks,
        move |case, ctx| {
            let blk = case;
            let mut b = fmt::trailer_v2(5, 3, 9, 1);
            b.insert(0, 1);
            let n = b.len();
            for m in blk * MB..(blk + 1) * MB {
                b[n - 4..].copy_from_slice(&(m as u32).to_le_bytes());
                let known = m as u32 == fmt::MAGIC_V1 || m as u32 == fmt::MAGIC_V2;
                if known {
                    c13_open(&b, &|| format!("magic {m:08x}"), ctx)?;
                } else if let Ok(_) = Reader::new(Cursor::new(&b[..])) {
                    return Err(format!("magic {m:08x} accepted"));
                }
            }
            ctx.transitions += MB;
            ctx.traces += MB;
            ctx.states_of(H::new().u(0x77).u(blk).get(), MB);
            Ok(())
        },
    ));
    // Crash of the writer: the sink keeps a prefix of what it is given, the writer is dropped.
    fams.push(family(
        "writer-crashes",
        "a writer whose sink stops at every byte offset, and a writer dropped after every number of inserts without finish, 6 codecs x levels 0, 2 x 3 key sets",
        6 * 2 * 3,
        |case, ctx| {
            struct Stop(Vec<u8>, usize);
            impl std::io::Write for Stop {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    let n = b.len().min(self.1 - self.0.len());
                    self.0.extend_from_slice(&b[..n]);
                    if n == 0 && !b.is_empty() {
                        return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full"));
                    }
                    Ok(n)
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            let mut r = Radix(case);
            let (c, l, n) = (r.pick(&fmt::CODECS), r.pick(&[0u8, 2]), r.pick(&[0usize, 3, 12]));
            let cfg = Cfg::new(c, 1024, 2, l);
            let e: Ents = (0..n).map(|i| (uniform_key(i), bytes(i as u64, 300, 2))).collect();
            let full = cfg.write(&e)?;
            for stop in 0..=full.len() {
                let mut s = Stop(vec![], stop);
                let mut w = cfg.builder().build(&mut s);
                let mut ok = true;
                for (k, v) in &e {
                    ok = ok && w.insert(k, v).is_ok();
                    if !ok {
                        break;
                    }
                }
                if ok {
                    ok = w.finish().is_ok();
                } else {
                    drop(w);
                }
                let d = || format!("sink stopped after {stop} of {} bytes, {cfg:?} n={n}", full.len());
                if ok != (stop == full.len()) {
                    return Err(format!("writer success {ok}: {}", d()));
                }
                c13_open(&s.0, &d, ctx)?;
            }
            for k in 0..=n {
                let mut s = vec![];
                let mut w = cfg.builder().build(&mut s);
                for (a, b) in &e[..k] {
                    w.insert(a, b).map_err(|e| e.to_string())?;
                }
                drop(w);
                c13_open(&s, &|| format!("writer dropped after {k} inserts, {cfg:?}"), ctx)?;
            }
            ctx.states_of(H::new().u(0x88).u(case).get(), full.len() as u64 + n as u64);
            Ok(())
        },
    ));
    // Real files on disk, truncated.
    fams.push(family("disk-files", "every truncation of 6 files on disk, read through std::fs::File", 6, |case, ctx| {
        let e: Ents = (0..4usize).map(|i| (uniform_key(i), tiny(i))).collect();
        let b = Cfg::new(case as u8, 1024, 2, (case % 3) as u8).write(&e)?;
        let p = std::env::temp_dir().join(format!("mc-c13-{}-{case}", std::process::id()));
        let r = (|| {
            for n in (0..=b.len()).rev() {
                std::fs::write(&p, &b[..n]).map_err(|e| format!("scratch file: {e}"))?;
                let f = std::fs::File::open(&p).map_err(|e| format!("scratch file: {e}"))?;
                let got = guard(|| Reader::new(f).is_ok()).map_err(|p| format!("Reader::new: {p} on {n} of {} bytes", b.len()))?;
                if got != fmt::parse_trailer(&b[..n]).is_some() {
                    return Err(format!("file truncated to {n} of {} bytes: opens = {got}", b.len()));
                }
                ctx.transitions += 1;
                ctx.traces += 1;
            }
            Ok(())
        })();
        let _ = std::fs::remove_file(&p);
        ctx.states_of(H::new().u(0x99).u(case).get(), b.len() as u64);
        r
    }));
    Check {
        property: "C13",
        level: "fault_enumeration",
        rule: "an evaluation is one open of one byte string compared with the grammar of trailers; distinct counts distinct (file, truncation or corruption) pairs",
        assumptions: vec!["only the last 22 bytes of a string can matter to the grammar; strings are enumerated around it, not over all lengths and contents".into()],
        families: fams,
    }
}
