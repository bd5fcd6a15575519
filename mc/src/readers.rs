//! C02, C03, C04, C05, C10, C16: the reader side.
use crate::engine::{family, hash, Check, Ctx, Family, H};
use crate::fmt::{self, Ents};
use crate::gen::*;
use crate::io::{LoadSrc, SharedSrc, Src};
use crate::model::*;
use grenad::{Reader, ReaderCursor};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::{Read, Seek};
use std::sync::Arc;

const RULE_MC: &str = "a state is a (file content, cursor state or query) pair, a transition one public call on the real reader, a trace one complete query compared with the reference list";

fn corpus_family<F>(name: &'static str, extra: &str, c: Corpus, f: F) -> Family
where
    F: Fn(&FileCase, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let (b, n, make) = c;
    family(name, format!("{b}; {extra}"), n, move |case, ctx| f(&make(case), ctx))
}

fn default_cfgs() -> Vec<Cfg> {
    vec![
        Cfg::new(0, 1024, 1, 0),
        Cfg::new(0, 1024, 8, 1),
        Cfg::new(5, 1024, 3, 2),
        Cfg::new(3, 2048, 16, 3),
        Cfg { codec: 0, level: 0, block: None, interval: None, levels: 0 },
        Cfg { codec: 2, level: 3, block: None, interval: None, levels: 2 },
        Cfg::new(4, 4096, 64, 1),
        Cfg::new(1, 1024, 1000, 4),
    ]
}

// ------------------------------------------------------------------ C02

pub fn c02(deep: bool) -> Check {
    let probes = tree_probes();
    let np = probes.len();
    let mut fams = vec![];
    {
        let probes = probes.clone();
        fams.push(corpus_family(
            "layouts",
            &format!("{np} probes x ge/le/eq x fresh/reset cursor"),
            layouts(if deep { 6 } else { 4 }, if deep { 3 } else { 2 }, if deep { &[1, 2, 3, 8] } else { &[1, 2, 8] }, &[0]),
            move |f, ctx| check_seeks(f, &probes, ctx),
        ));
    }
    {
        let probes = probes.clone();
        fams.push(corpus_family(
            "layouts-codecs",
            &format!("{np} probes x ge/le/eq x fresh/reset cursor"),
            layouts(3, 1, &[2], &[1, 2, 3, 4, 5]),
            move |f, ctx| check_seeks(f, &probes, ctx),
        ));
    }
    let ns: Vec<usize> = if deep { (0..=70).collect() } else { (0..=34).collect() };
    fams.push(corpus_family(
        "uniform-layouts",
        "all keys, neighbours, prefixes and extensions as probes",
        uniform_layouts(ns, vec![1, 2, 3, 5, 9, 40], vec![1, 2, 3, 40], vec![1, 2, 3, 7, 8, 9, 64], if deep { 4 } else { 2 }),
        |f, ctx| check_seeks(f, &uniform_probes(f.ents.len()), ctx),
    ));
    fams.push(corpus_family(
        "written-shapes",
        "all keys, neighbours, prefixes and extensions as probes",
        written(if deep { 5 } else { 4 }, &SHAPES[..6], vec![0, 1, 2], vec![1, 2, 8], vec![0]),
        |f, ctx| check_seeks(f, &probes_for(&f.ents), ctx),
    ));
    fams.push(corpus_family(
        "written-deep",
        "all keys, neighbours, prefixes and extensions as probes",
        written(9, &[Shape::Key520, Shape::Key1100], vec![2, 3, 5], vec![1, 2], vec![0]),
        |f, ctx| check_seeks(f, &probes_for(&f.ents), ctx),
    ));
    fams.push(corpus_family(
        "written-long",
        "all keys, neighbours, prefixes and extensions as probes",
        long_written(if deep { vec![50, 100, 300, 1000, 2500, 6000, 20000, 70000] } else { vec![50, 100, 300, 1000, 2500] }, default_cfgs()),
        |f, ctx| {
            let p = if f.ents.len() <= 2500 { uniform_probes(f.ents.len()) } else { uniform_probes(f.ents.len()).into_iter().step_by(5).collect() };
            check_seeks(f, &p, ctx)
        },
    ));
    fams.push(special_keys_family("special-keys", |f, ctx| check_seeks(f, &probes_for(&f.ents), ctx)));
    fams.push(extreme_levels_family("extreme-levels", |f, ctx| check_seeks(f, &probes_for(&f.ents), ctx)));
    fams.push(runs_family("byte-runs", (0..256).collect(), deep, |f, ctx| check_seeks(f, &run_probes(&f.ents), ctx)));
    fams.push(wide_family("wide-blocks", deep, false, |f, idx, ctx| check_seeks(f, &wide_probes(f, idx), ctx)));
    fams.push(all_bytes_family("every byte and its successor as probes", |f, p, ctx| check_seeks(f, p, ctx)));
    fams.push(look_alikes_family("each key and gap as probes", |f, p, ctx| check_seeks(f, p, ctx)));
    fams.push(tails_family("common-prefixes", "tails up to length 3 and neighbours as probes", deep, |f, n, ctx| check_seeks(f, &tail_probes(n, 3), ctx)));
    fams.push(big_family("big-blocks", "all keys, neighbours, prefixes and extensions as probes", deep, |f, ctx| check_seeks(f, &probes_for(&f.ents), ctx)));
    fams.push(giant_family(false, |f, idx, ctx| check_seeks(f, &wide_probes(f, idx), ctx)));
    fams.push(giant_block_family("seeks to entries beyond 4 GiB and between them, each on a reset cursor", |_, f, ctx| {
        let k = |i: usize| f.ents[i].0.clone();
        giant_steps(f, &[Op::Ge(k(20)), Op::Reset, Op::Eq(k(49)), Op::Reset, Op::Le([k(30), vec![7]].concat())], ctx)
    }));
    Check { property: "C02", level: "model_checking", rule: RULE_MC, assumptions: assumptions(), families: fams }
}

fn assumptions() -> Vec<String> {
    vec![
        "small scope: behaviour depends on keys only through byte comparisons, lengths and block layout, which the enumerated key trees, shapes and layouts exercise".into(),
        "the in-memory source answers reads fully (other answers are C11's subject)".into(),
    ]
}

/// Keys at the length boundaries of the varint framing and of usual buffer sizes, long common prefixes.
fn special_keys_family<F>(name: &'static str, f: F) -> Family
where
    F: Fn(&FileCase, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let lens: Vec<usize> = vec![1, 8, 63, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 4096, 16383, 16384, 65535, 65536, 65537];
    let nl = lens.len();
    let cfgs = vec![Cfg::new(0, 1024, 1, 0), Cfg::new(0, 1024, 2, 1), Cfg::new(0, 8192, 8, 2), Cfg::new(5, 1 << 20, 3, 1)];
    let nc = cfgs.len();
    family(
        name,
        format!("keys `p`*len followed by each of 6 suffixes, len in {lens:?}, {nc} configurations, values empty / 1 byte / 1 block"),
        (nl * nc * 3) as u64,
        move |case, ctx| {
            let mut r = Radix(case);
            let len = r.pick(&lens);
            let cfg = r.pick(&cfgs);
            let vk = r.take(3);
            let mut e: Ents = vec![];
            for (i, s) in [&b""[..], &[0], &[0, 0], &[1], &[0xfe], &[0xff, 0]].iter().enumerate() {
                e.push((stem(len, s), bytes(i as u64, [0, 1, 1030][vk], 2)));
            }
            e.push((stem(len / 2, &[]), vec![7]));
            let e = sorted_unique(e);
            let b = cfg.write(&e)?;
            f(&FileCase { bytes: Arc::new(b), ents: e, desc: format!("special len={len} {cfg:?} v={vk}") }, ctx)
        },
    )
}
/// Long runs of one byte, around which stored keys, probes and bounds lie: what a fixed padding misses.
fn runs_family<F>(name: &'static str, masks: Vec<u64>, deep: bool, f: F) -> Family
where
    F: Fn(&FileCase, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let mut lens: Vec<usize> = (1..=20).collect();
    lens.extend([24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1025, 4097]);
    if deep {
        lens.extend([8193, 65536, 70_000]);
    }
    let nl = lens.len();
    let nm = masks.len();
    let cuts = [0u8, 1, 2];
    family(
        name,
        format!("keys around `ab` followed by r bytes 00, 7f or ff, r in {lens:?}: {nm} subsets of 8 such keys, all entries in one block, or one per block over 0 or 1 levels"),
        (nl * 3 * nm * cuts.len()) as u64,
        move |case, ctx| {
            let mut r = Radix(case);
            let n = r.pick(&lens);
            let b = r.pick(&[0x00u8, 0x7f, 0xff]);
            let mask = r.pick(&masks);
            let cut = r.pick(&cuts);
            let run = |x: &[u8], n: usize, y: &[u8]| [x, &vec![b; n], y].concat();
            let keys = sorted_unique([b"a".to_vec(), b"ab".to_vec(), run(b"ab", n / 2, b"c"), run(b"ab", n, b""), run(b"ab", n, &[0]), run(b"ab", n, &[0xff, 1]), b"ac".to_vec(), run(b"ac", n, b"d")].into_iter().map(|k| (k, vec![])).collect());
            let ents: Ents = keys.into_iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(i, (k, _))| (k, tiny(i))).collect();
            let bytes = Arc::new(fmt::encode(&ents, cut.saturating_sub(1), &vec![cut; ents.len().saturating_sub(1)], 1 + n % 3, 0));
            f(&FileCase { bytes, ents, desc: format!("runs of {n} bytes {b:02x}, subset {mask:08b}, cut {cut}") }, ctx)
        },
    )
}
/// Keys that share a prefix of each length and then differ in one or two bytes, or in length.
fn tails_family<F>(name: &'static str, extra: &str, deep: bool, f: F) -> Family
where
    F: Fn(&FileCase, (usize, usize), &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let lens = prefix_lens(deep);
    let tails = strings(&[0x00, 0x41, 0xff], 2);
    let nt = tails.len() as u64;
    let mut masks: Vec<u64> = vec![(1 << nt) - 1, 0x5555, 0xAAAA, 0x1249, 0x0924];
    masks.extend((0..nt).map(|i| 1 << i));
    let dims = [lens.len(), masks.len(), 3];
    family(
        name,
        format!("keys of a common prefix of n and a common suffix of m bytes, (n, m) in {lens:?}, and parts between over {{00,41,ff}} up to length 2: {} subsets, all in one block or one per block over 0 or 2 levels; {extra}", masks.len()),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let n = r.pick(&lens);
            let mask = r.pick(&masks) & ((1 << nt) - 1);
            let lay = r.take(3);
            let ents: Ents = sorted_unique(subset(&tails, mask).iter().enumerate().map(|(i, t)| (tailed(n, t), tiny(i))).collect());
            let cuts: Vec<u8> = (1..ents.len()).map(|i| [0, 1, 1 + (i % 2) as u8][lay]).collect();
            let bytes = Arc::new(fmt::encode(&ents, [0, 0, 2][lay], &cuts, 1 + n.0 % 3, 0));
            f(&FileCase { bytes, ents, desc: format!("common prefix and suffix of {n:?}, subset {mask:x}, layout {lay}") }, n, ctx)
        },
    )
}
/// One cursor through seeks of the three kinds to all of `p` (sorted), in three orders, with a step between.
fn walk_probes(f: &FileCase, p: &[Vec<u8>], ctx: &mut Ctx) -> Result<(), String> {
    for order in 0..3usize {
        let mut c = f.cursor()?;
        let mut pos = Pos::Fresh;
        for i in 0..p.len() * 3 {
            let q = p[[i / 3, p.len() - 1 - i / 3, (i * 7 + 3) % p.len()][order]].clone();
            let seek = [Op::Ge(q.clone()), Op::Le(q.clone()), Op::Eq(q)][(i + order) % 3].clone();
            for op in [seek, [Op::Next, Op::Prev][i / 2 % 2].clone()] {
                pos = step(&mut c, &f.ents, pos, &op).map_err(|m| format!("order {order}, probe {i}: {m}; {}", f.ctx()))?;
                ctx.transitions += 1;
            }
        }
        ctx.traces += 1;
    }
    ctx.states_of(f.state() ^ 0xC03, f.ents.len() as u64 + 2);
    Ok(())
}
/// Every byte as a key: comparisons must see all eight bits, in unsigned order.
fn all_bytes_family<F>(extra: &str, f: F) -> Family
where
    F: Fn(&FileCase, &[Vec<u8>], &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let dims = [4, 3, 3];
    family(
        "all-bytes",
        format!("keys of one byte after 0, 3 or 8 bytes: all 256, the even ones, the odd ones, those with bit 5 clear; in one block, 7 per block, one per block over 2 levels; {extra}"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (which, lay, before) = (r.take(4), r.take(3), [0usize, 3, 8][r.take(3)]);
            let key = |b: u8| [vec![0x6b; before], vec![b]].concat();
            let ents: Ents = (0..=255u8).filter(|b| [true, b % 2 == 0, b % 2 == 1, b & 0x20 == 0][which]).map(|b| (key(b), vec![b])).collect();
            let cuts: Vec<u8> = (1..ents.len()).map(|i| [0, (i % 7 == 0) as u8, 1 + (i % 5 == 0) as u8][lay]).collect();
            let bytes = Arc::new(fmt::encode(&ents, [0, 1, 2][lay], &cuts, 1 + 2 * lay, 0));
            let probes: Vec<Vec<u8>> = (0..=255u8).flat_map(|b| [key(b), [key(b), vec![0]].concat()]).collect();
            f(&FileCase { bytes, ents, desc: format!("all bytes, choice {which}, layout {lay}, after {before}") }, &probes, ctx)
        },
    )
}
/// Entries of one length that differ in few late bytes, and what their keys start with.
pub fn look_alikes(n: u8, len: usize, kind: u8, place: usize) -> (Vec<u8>, Ents) {
    let head = bytes(5, [100, 300][place % 2], 2);
    let ents = (0..n)
        .map(|i| {
            let mut v = bytes(9, len, kind);
            if len > 0 {
                let at = [0, len / 2, len - 1][place];
                v[at] = v[at].wrapping_add(i);
            }
            ([&head[..], &[1, 2 * i + 1]].concat(), v)
        })
        .collect();
    (head, ents)
}
/// Neighbouring blocks of one length that differ in few late bytes, stored raw and by each codec:
/// what a reader that recognises blocks by less than their place takes for each other.
fn look_alikes_family<F>(extra: &str, f: F) -> Family
where
    F: Fn(&FileCase, &[Vec<u8>], &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let dims = [6, 2, 4, 2, 3];
    family(
        "look-alikes",
        format!("12 entries in blocks of 1 or 3, keys equal but for two bytes at their end (100 or 300 bytes, incompressible), values of 0, 90, 1500 or 9000 bytes, incompressible or of one byte, equal but for one byte at their start, middle or end; 6 codecs; {extra}"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (codec, per, len, kind, place) = (r.take(6) as u8, [1usize, 3][r.take(2)], [0usize, 90, 1500, 9000][r.take(4)], [2u8, 0][r.take(2)], r.take(3));
            let (head, ents) = look_alikes(12, len, kind, place);
            let cuts: Vec<u8> = (1..12).map(|i| if i % per == 0 { 1 + (i % 6 == 0) as u8 } else { 0 }).collect();
            let file = Arc::new(fmt::encode(&ents, 1, &cuts, 2, codec));
            let probes: Vec<Vec<u8>> = (0..26u8).map(|i| [&head[..], &[1, i]].concat()).collect();
            f(&FileCase { bytes: file, ents, desc: format!("look-alike blocks, codec {codec}, {per} per block, values of {len} bytes, kind {kind}, place {place}") }, &probes, ctx)
        },
    )
}
/// Probes for `tails_family`.
fn tail_probes(n: (usize, usize), max: usize) -> Vec<Vec<u8>> {
    let mut p: Vec<Vec<u8>> = strings(&[0x00, 0x41, 0xff], max).iter().map(|t| tailed(n, t)).collect();
    for t in [&[0x40][..], &[0x42], &[0x41, 0x40], &[0x41, 0x42], &[0xfe, 0xff]] {
        p.push(tailed(n, t));
    }
    if n.0 > 0 {
        let n = (n.0 - 1, n.1);
        p.push(tailed(n, &[]));
        p.push(tailed(n, &[0x6a, 0xff, 0xff]));
        p.push(tailed(n, &[0x6c]));
        p.push(vec![]);
    }
    if n.1 > 0 {
        // The same without the common end.
        p.extend(strings(&[0x00, 0x41, 0xff], 1).iter().map(|t| tailed((n.0, 0), t)));
        p.extend(strings(&[0x00, 0x41, 0xff], 1).iter().map(|t| tailed((n.0, n.1 - 1), t)));
    }
    p
}
/// Probes for `runs_family`: around its keys, and the short stems that its keys extend.
fn run_probes(e: &Ents) -> Vec<Vec<u8>> {
    let mut p = vec![vec![], b"a".to_vec(), b"ab".to_vec(), b"ac".to_vec(), b"ab\0".to_vec(), b"ab\xff".to_vec(), b"b".to_vec()];
    for (k, _) in e {
        p.push(k.clone());
        p.push([k, &[0][..]].concat());
        let last = k.len() - 1;
        p.push(k[..last].to_vec());
    }
    if let Some((k, _)) = e.iter().max_by_key(|x| x.0.len()) {
        p.push([k, &[0xff; 5][..]].concat());
        p.push(k[..k.len() * 2 / 3].to_vec());
    }
    p.sort();
    p.dedup();
    p
}
/// Blocks with more entries and offsets than 8, 15 or 16 bits can count, as data or as index blocks.
fn wide_family<F>(name: &'static str, deep: bool, v1: bool, f: F) -> Family
where
    F: Fn(&FileCase, &[usize], &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let mut ns = vec![255, 256, 257, 4097, 32769, 65535, 65536, 65537, 70_000];
    if deep {
        ns.extend([131_073, 200_000, 1 << 20]);
    }
    let nn = ns.len();
    let layouts: &[&str] = if v1 { &["data", "root"] } else { &["data", "root", "inner"] };
    let ivs = [1usize, 2];
    let ni = if deep { 2 } else { 1 };
    family(
        name,
        format!("{ns:?} entries in one data block, or in as many blocks recorded by one index block ({layouts:?}), offset of every {:?} entry; queries around the entries at either end and around 2^7, 2^8, 2^15, 2^16 and their offsets", &ivs[..ni]),
        (nn * layouts.len() * ni) as u64,
        move |case, ctx| {
            let mut r = Radix(case);
            let n = ns[nn - 1 - r.take(nn)];
            let lay = r.take(layouts.len());
            let iv = ivs[r.take(ni)];
            let ents: Ents = (0..n).map(|i| ((2 * i as u32 + 1).to_be_bytes().to_vec(), vec![i as u8; i % 2])).collect();
            let mut idx: Vec<usize> = vec![0, 1, 2];
            for b in [128usize, 256, 4096, 32768, 65536, 131_072, 1 << 19] {
                idx.extend([b - 2, b - 1, b, b + 1]);
            }
            idx.extend([n / 2, n - 3, n - 2, n - 1]);
            idx.retain(|i| *i < n);
            idx.sort();
            idx.dedup();
            let levels = (lay == 2) as u8;
            let bytes = Arc::new(fmt::encode(&ents, levels, &vec![(lay > 0) as u8; n - 1], iv, 0));
            f(&FileCase { bytes, ents, desc: format!("wide {} block of {n}, interval {iv}", layouts[lay]) }, &idx, ctx)
        },
    )
}
fn wide_probes(f: &FileCase, idx: &[usize]) -> Vec<Vec<u8>> {
    let mut p = vec![vec![], vec![0xff]];
    for i in idx {
        let k = &f.ents[*i].0;
        p.push(k.clone());
        p.push([k, &[0][..]].concat());
        p.push((2 * *i as u32).to_be_bytes().to_vec());
    }
    p.sort();
    p
}
fn wide_walks(f: &FileCase, idx: &[usize], ctx: &mut Ctx) -> Result<(), String> {
    let mut c = f.cursor()?;
    let mut n = 0;
    for i in idx {
        for (o, op) in [Op::Ge(f.ents[*i].0.clone()), Op::Le(f.ents[*i].0.clone()), Op::Eq(f.ents[*i].0.clone())].iter().enumerate() {
            for (w, s) in [[true; 4], [false; 4], [true, false, false, true], [false, true, true, false]].iter().enumerate() {
                let say = |m: String| format!("{m}; {}", f.ctx());
                let mut pos = step(&mut c, &f.ents, Pos::Unspec, op).map_err(say)?;
                for (j, fwd) in s.iter().enumerate() {
                    if j == (o + w) % 4 {
                        // A clone goes the other way, then the original goes on.
                        let say = |m: String| format!("clone made after {} and {j} steps of walk {w}: {m}; {}", op.show(), f.ctx());
                        let mut t = c.clone();
                        if let Pos::At(i) = pos {
                            same(|| say("current()".into()), t.current(), want(&f.ents, Some(i)))?;
                        }
                        let mut p = pos;
                        for f2 in [!fwd, *fwd, *fwd] {
                            p = step(&mut t, &f.ents, p, if f2 { &Op::Next } else { &Op::Prev }).map_err(say)?;
                        }
                        n += 3;
                    }
                    pos = step(&mut c, &f.ents, pos, if *fwd { &Op::Next } else { &Op::Prev }).map_err(say)?;
                    n += 1;
                }
            }
        }
    }
    ctx.transitions += n;
    ctx.traces += n / 4;
    ctx.states_of(f.state(), n);
    Ok(())
}
/// Bounds near each other (so that few entries lie between), and near the ends.
fn wide_ranges(f: &FileCase, idx: &[usize], ctx: &mut Ctx) -> Result<(), String> {
    let reader = Reader::new(Src::new(&f.bytes)).map_err(|e| e.to_string())?;
    let n = f.ents.len();
    let key = |x: usize| (x as u32).to_be_bytes().to_vec();
    use std::ops::Bound::*;
    let mut pairs: Vec<(B, B)> = vec![];
    for i in idx {
        let i = *i;
        for a in [2 * i, 2 * i + 1] {
            for b in [a, a + 1, a + 2, a + 5] {
                pairs.extend([(Included(key(a)), Included(key(b))), (Excluded(key(a)), Excluded(key(b))), (Included(key(a)), Excluded(key(b)))]);
            }
            if i < 4 {
                pairs.extend([(Unbounded, Included(key(a))), (Unbounded, Excluded(key(a)))]);
            }
            if i + 4 > n {
                pairs.extend([(Included(key(a)), Unbounded), (Excluded(key(a)), Unbounded)]);
            }
        }
    }
    if idx[0] == 0 {
        pairs.push((Unbounded, Unbounded));
    }
    for (lo, hi) in &pairs {
        let s = f.ents.partition_point(|x| match lo {
            Unbounded => false,
            Included(b) => x.0 < *b,
            Excluded(b) => x.0 <= *b,
        });
        let e = f.ents.partition_point(|x| match hi {
            Unbounded => true,
            Included(b) => x.0 <= *b,
            Excluded(b) => x.0 < *b,
        });
        let d = |w: &str, i: usize| format!("{w} range ({}, {}) step {i}, {}", show_bound(lo), show_bound(hi), f.ctx());
        let mut it = reader.clone().into_range_iter::<_, Vec<u8>>((lo.clone(), hi.clone())).map_err(|e| e.to_string())?;
        let mut rit = reader.clone().into_rev_range_iter::<_, Vec<u8>>((lo.clone(), hi.clone())).map_err(|e| e.to_string())?;
        for i in 0..=e.saturating_sub(s) {
            same(|| d("forward", i), it.next().map_err(|x| format!("{}: {x}", d("forward", i)))?, want(&f.ents, (s + i < e).then_some(s + i)))?;
            same(|| d("reverse", i), rit.next().map_err(|x| format!("{}: {x}", d("reverse", i)))?, want(&f.ents, (s + i < e).then(|| e - 1 - i)))?;
        }
        ctx.transitions += 2 * (e.saturating_sub(s) as u64 + 1);
        ctx.traces += 2;
    }
    ctx.states_of(f.state(), pairs.len() as u64);
    Ok(())
}
fn wide_prefixes(f: &FileCase, idx: &[usize], ctx: &mut Ctx) -> Result<(), String> {
    let mut p = vec![vec![], vec![0, 0], vec![0, 1], vec![0, 2], vec![1]];
    for i in idx {
        let k = &f.ents[*i].0;
        p.extend([k.clone(), k[..3].to_vec(), [k, &[0][..]].concat()]);
    }
    p.sort();
    p.dedup();
    check_prefixes(f, &p, ctx)
}
/// Blocks, keys and values of tens of kilobytes to megabytes.
fn big_family<F>(name: &'static str, extra: &str, deep: bool, f: F) -> Family
where
    F: Fn(&FileCase, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let sizes: Vec<usize> = if deep { vec![33_000, 70_000, 131_100, 300_000, (1 << 20) + 1, 3 << 20, (16 << 20) + 3] } else { vec![33_000, 70_000, (1 << 20) + 1] };
    let blocks: Vec<usize> = vec![1024, 200_000, 1 << 30];
    let codecs: Vec<u8> = if deep { fmt::CODECS.to_vec() } else { vec![0, 3, 5] };
    let dims = [sizes.len(), blocks.len(), codecs.len(), 2, 2];
    let mut fam = family(
        name,
        format!("real writer: 6 entries, every second with a value (or key and value) of {sizes:?} bytes, block sizes {blocks:?}, codecs {codecs:?}, levels 0, 2; {extra}"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (l, bigkey) = ([0u8, 2][r.take(2)], r.take(2) == 1);
            let (c, b, s) = (r.pick(&codecs), r.pick(&blocks), r.pick(&sizes));
            let cfg = Cfg::new(c, b, 1 + l as usize, l);
            let ents: Ents = (0..6usize)
                .map(|i| {
                    let mut k = vec![2 * i as u8 + 1];
                    if bigkey && i % 2 == 1 {
                        k.extend(vec![7; s / 2]);
                    }
                    (k, if i % 2 == 1 { bytes(i as u64, s + i, 1 + (i / 2 % 2) as u8) } else { vec![i as u8; i] })
                })
                .collect();
            let bytes = Arc::new(cfg.write(&ents)?);
            f(&FileCase { bytes, ents, desc: format!("big {cfg:?} size {s} big keys {bigkey}") }, ctx)
        },
    );
    fam.limit_s = 300;
    fam
}
/// A sink of zeros in which only other bytes are stored, so that most of its memory is never touched.
struct Lazy(Vec<u8>, usize);
impl std::io::Write for Lazy {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        for x in b.chunks(4096) {
            if x != &[0; 4096][..x.len()] {
                self.0[self.1..][..x.len()].copy_from_slice(x);
            }
            self.1 += x.len();
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn write_lazily(cfg: &Cfg, ents: &Ents, max: usize) -> Result<Vec<u8>, String> {
    let mut w = cfg.builder().build(Lazy(vec![0; max], 0));
    for (k, v) in ents {
        w.insert(k, v).map_err(|e| format!("insert: {e}"))?;
    }
    let Lazy(mut bytes, n) = w.into_inner().map_err(|e| format!("into_inner: {e}"))?;
    bytes.truncate(n);
    Ok(bytes)
}
/// One data block of more than 4 GiB, with entries at offsets that 32 bits do not hold. Each load of
/// the block takes seconds, so the check makes few.
pub fn giant_block_family<F>(what: &str, check: F) -> Family
where
    F: Fn(&Cfg, &FileCase, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let mut fam = family(
        "block-beyond-4GiB",
        format!("real writer, one data block of 4.1 GiB: 4 zero-filled values of 1 GiB between small entries, then 40 small entries, an offset for every 2nd; {what}"),
        1,
        move |_, ctx| {
            let cfg = Cfg::new(0, 1 << 40, 2, 0);
            let ents: Ents = (0..50u32).map(|i| ((2 * i + 1).to_be_bytes().to_vec(), if i < 8 && i % 2 == 1 { vec![0; 1 << 30] } else { vec![i as u8 + 1; 3 + i as usize % 3] })).collect();
            let bytes = write_lazily(&cfg, &ents, 4100 << 20)?;
            let f = FileCase { bytes: Arc::new(bytes), ents, desc: format!("block of 4 GiB {cfg:?}") };
            check(&cfg, &f, ctx)?;
            ctx.traces += 1;
            ctx.states_of(f.state(), 1);
            Ok(())
        },
    )
    .serial();
    fam.limit_s = 400;
    fam.mem_extra = 8 << 30;
    fam
}
/// Steps of one cursor over the giant block.
fn giant_steps(f: &FileCase, ops: &[Op], ctx: &mut Ctx) -> Result<(), String> {
    let mut c = f.cursor()?;
    let mut pos = Pos::Fresh;
    for (i, op) in ops.iter().enumerate() {
        pos = step(&mut c, &f.ents, pos, op).map_err(|m| format!("step {i}: {m}; {}", f.ctx()))?;
        ctx.transitions += 1;
    }
    Ok(())
}
/// Files of more than 4 GiB: zeros, for the most part, in pages that are never touched.
fn giant_family<F>(v1: bool, check: F) -> Family
where
    F: Fn(&FileCase, &[usize], &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let levels: Vec<u8> = if v1 { vec![0] } else { vec![0, 2] };
    let mut fam = family(
        "beyond-4GiB",
        format!("real writer, a file of 4.3 GiB: 825 entries, every third with a zero-filled value of 16 MiB, block size 1024, levels {levels:?}{}; entries on both sides of the 4 GiB mark and at the ends", if v1 { ", version 1" } else { "" }),
        levels.len() as u64,
        move |case, ctx| {
            let cfg = Cfg::new(0, 1024, 2, levels[case as usize]);
            let ents: Ents = (0..825u32).map(|i| ((2 * i + 1).to_be_bytes().to_vec(), if i % 3 == 1 { vec![0; 16 << 20] } else { vec![7; 3] })).collect();
            let mut bytes = write_lazily(&cfg, &ents, 4800 << 20)?;
            let n = bytes.len();
            if v1 {
                let t = bytes[n - 22..n - 5].to_vec();
                bytes.truncate(n - 22);
                bytes.extend(t);
                bytes.extend(fmt::MAGIC_V1.to_le_bytes());
            }
            let at = ents.iter().scan(0u64, |a, (_, v)| { *a += v.len() as u64; Some(*a) }).position(|a| a >= 1 << 32).unwrap();
            let f = FileCase { bytes: Arc::new(bytes), ents, desc: format!("4.3 GiB file {cfg:?}{}", if v1 { " version 1" } else { "" }) };
            check(&f, &[0, at - 1, at, at + 2, 824], ctx)
        },
    )
    .serial();
    fam.limit_s = 400;
    fam
}
/// Index depths up to the 255 the format allows.
fn extreme_levels_family<F>(name: &'static str, f: F) -> Family
where
    F: Fn(&FileCase, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
{
    let levels: Vec<u8> = vec![4, 7, 15, 16, 31, 63, 64, 100, 127, 128, 200, 254, 255];
    let nl = levels.len();
    family(
        name,
        format!("index levels {levels:?} x 0, 1, 2, 3 entries x tiny layouts (one entry per block at all levels, or one block)"),
        (nl * 4 * 2) as u64,
        move |case, ctx| {
            let mut r = Radix(case);
            let l = r.pick(&levels);
            let n = r.take(4);
            let spread = r.take(2) == 1;
            let e: Ents = (0..n).map(|i| (uniform_key(i), tiny(i + 1))).collect();
            let cuts = vec![if spread { l.saturating_add(1) } else { 0 }; n.saturating_sub(1)];
            let b = fmt::encode(&e, l, &cuts, 2, 0);
            f(&FileCase { bytes: Arc::new(b), ents: e, desc: format!("levels={l} n={n} spread={spread}") }, ctx)
        },
    )
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Pos {
    Fresh,
    At(usize),
    Unspec,
}
#[derive(Clone, Debug)]
pub enum Op {
    First,
    Last,
    Next,
    Prev,
    Reset,
    Ge(Vec<u8>),
    Le(Vec<u8>),
    Eq(Vec<u8>),
}
impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::Ge(q) => format!("ge{}", hex(q)),
            Op::Le(q) => format!("le{}", hex(q)),
            Op::Eq(q) => format!("eq{}", hex(q)),
            o => format!("{o:?}"),
        }
    }
}
pub fn ops_with(probes: &[Vec<u8>]) -> Vec<Op> {
    let mut v = vec![Op::Next, Op::Prev, Op::First, Op::Last, Op::Reset];
    for p in probes {
        v.push(Op::Ge(p.clone()));
        v.push(Op::Le(p.clone()));
        v.push(Op::Eq(p.clone()));
    }
    v
}
/// One step: performs the operation and compares it with the model. `Ok(new position)`.
pub fn step<R: Read + Seek>(c: &mut ReaderCursor<R>, e: &Ents, pos: Pos, op: &Op) -> Result<Pos, String> {
    let n = e.len();
    let some = |i: Option<usize>| Some(i); // specified result
    let expect: Option<Option<usize>> = match op {
        Op::First => some((n > 0).then_some(0)),
        Op::Last => some(n.checked_sub(1)),
        Op::Next => match pos {
            Pos::Fresh => some((n > 0).then_some(0)),
            Pos::At(i) => some((i + 1 < n).then_some(i + 1)),
            Pos::Unspec => None,
        },
        Op::Prev => match pos {
            Pos::Fresh => some(n.checked_sub(1)),
            Pos::At(i) => some(i.checked_sub(1)),
            Pos::Unspec => None,
        },
        Op::Ge(q) => some(ge_fast(e, q)),
        Op::Le(q) => some(le_fast(e, q)),
        Op::Eq(q) => some(ge_fast(e, q).filter(|i| e[*i].0 == *q)),
        Op::Reset => {
            c.reset();
            if c.current().is_some() {
                return Err("current() returns an entry after reset".into());
            }
            return Ok(Pos::Fresh);
        }
    };
    let got = match op {
        Op::First => c.move_on_first(),
        Op::Last => c.move_on_last(),
        Op::Next => c.move_on_next(),
        Op::Prev => c.move_on_prev(),
        Op::Ge(q) => c.move_on_key_greater_than_or_equal_to(q),
        Op::Le(q) => c.move_on_key_lower_than_or_equal_to(q),
        Op::Eq(q) => c.move_on_key_equal_to(q),
        Op::Reset => unreachable!(),
    }
    .map_err(|x| format!("{} fails: {x}", op.show()))?;
    let Some(expect) = expect else { return Ok(Pos::Unspec) };
    if got != want(e, expect) {
        return Err(format!("{} from {pos:?} returns {} instead of {}", op.show(), show(got), show(want(e, expect))));
    }
    match expect {
        Some(i) => {
            let cur = c.current();
            if cur != want(e, Some(i)) {
                return Err(format!("current() after {} is {} instead of {}", op.show(), show(cur), show(want(e, Some(i)))));
            }
            Ok(Pos::At(i))
        }
        None => Ok(Pos::Unspec),
    }
}

#[cfg(grenad_verif)]
fn fingerprint<R: std::fmt::Debug>(c: &ReaderCursor<R>) -> u64 {
    let mut h = H::new();
    write!(h, "{c:?}").unwrap();
    h.get()
}

/// Breadth-first search over all reachable states of the real cursor; a state is everything the cursor
/// holds (loaded index blocks, offsets, source position) plus the logical position of the model.
#[cfg(grenad_verif)]
pub fn bfs<R, P>(start: ReaderCursor<R>, f: &FileCase, ops: &[Op], cap: usize, ctx: &mut Ctx, mut probe: P) -> Result<bool, String>
where
    R: Read + Seek + Clone + std::fmt::Debug,
    P: FnMut(&mut dyn FnMut() -> Result<Pos, String>, &Op) -> Result<Pos, String>,
{
    let file = f.state();
    let key = |fp: u64, p: Pos| {
        let mut h = H::new();
        h.u(fp).u(match p {
            Pos::Fresh => 1,
            Pos::Unspec => 2,
            Pos::At(i) => 3 + i as u64,
        });
        h.get()
    };
    // history for the report
    let mut parents: Vec<(usize, usize)> = vec![(0, usize::MAX)];
    let mut seen: HashMap<u64, usize> = HashMap::new();
    let mut queue = VecDeque::new();
    seen.insert(key(fingerprint(&start), Pos::Fresh), 0);
    queue.push_back((0usize, start, Pos::Fresh));
    let mut complete = true;
    let path = |parents: &Vec<(usize, usize)>, mut id: usize, last: usize| {
        let mut v = vec![ops[last].show()];
        while parents[id].1 != usize::MAX {
            v.push(ops[parents[id].1].show());
            id = parents[id].0;
        }
        v.reverse();
        v.join(" ")
    };
    while let Some((id, cur, pos)) = queue.pop_front() {
        let before = fingerprint(&cur);
        for (oi, op) in ops.iter().enumerate() {
            let mut c = cur.clone();
            let np = probe(&mut || step(&mut c, &f.ents, pos, op), op)
                .map_err(|m| format!("after [{}]: {m}; {}", path(&parents, id, oi), f.ctx()))?;
            ctx.transitions += 1;
            let k = key(fingerprint(&c), np);
            if !seen.contains_key(&k) {
                if seen.len() >= cap {
                    complete = false;
                    continue;
                }
                let nid = parents.len();
                parents.push((id, oi));
                seen.insert(k, nid);
                queue.push_back((nid, c, np));
            }
        }
        // The operations above were made on clones: the original must not have moved.
        if fingerprint(&cur) != before {
            return Err(format!("a cursor changes when its clones move; {}", f.ctx()));
        }
        if let Pos::At(i) = pos {
            if cur.current() != want(&f.ents, Some(i)) {
                return Err(format!("current() of a cursor changes when its clones move; {}", f.ctx()));
            }
        }
    }
    for k in seen.keys() {
        let mut h = H::new();
        h.u(file).u(*k);
        ctx.state(h.get());
    }
    ctx.traces += seen.len() as u64;
    ctx.outcome(seen.len() as u64);
    ctx.sample(|| {
        format!("{}: {} reachable cursor states, longest shortest history [{}]", f.ctx(), seen.len(), path(&parents, parents[parents.len() - 1].0, parents[parents.len() - 1].1.min(ops.len() - 1)))
    });
    Ok(complete)
}

/// All operation sequences up to a depth, each from a new cursor that is never cloned, or (every
/// second node) continued on a clone while the original is also continued.
pub fn stateless(f: &FileCase, ops: &[Op], depth: usize, ctx: &mut Ctx) -> Result<(), String> {
    let n = ops.len() as u64;
    let total = n.pow(depth as u32);
    for s in 0..total {
        let mut c = f.cursor()?;
        let mut pos = Pos::Fresh;
        let mut x = s;
        let mut hist = vec![];
        let split = (s % (depth as u64 + 1)) as usize;
        let mut twin: Option<(ReaderCursor<Src>, Pos)> = None;
        for d in 0..depth {
            let op = &ops[(x % n) as usize];
            x /= n;
            hist.push(op);
            if d == split {
                twin = Some((c.clone(), pos));
            }
            let say = |m: String| {
                format!("history [{}]: {m}; {}", hist.iter().map(|o| o.show()).collect::<Vec<_>>().join(" "), f.ctx())
            };
            pos = step(&mut c, &f.ents, pos, op).map_err(say)?;
            ctx.transitions += 1;
        }
        if let Some((mut t, p)) = twin {
            // The clone made before operation `split` continues from there, untouched by the original.
            let say = |m: String| {
                format!("clone made after {split} operations of [{}]: {m}; {}", hist.iter().map(|o| o.show()).collect::<Vec<_>>().join(" "), f.ctx())
            };
            if let Pos::At(i) = p {
                if t.current() != want(&f.ents, Some(i)) {
                    return Err(say("current() moved".into()));
                }
            }
            for op in [Op::Next, Op::Prev] {
                let mut t = t.clone();
                step(&mut t, &f.ents, p, &op).map_err(say)?;
            }
            step(&mut t, &f.ents, p, &Op::Prev).map_err(say)?;
            if let Pos::At(i) = pos {
                if c.current() != want(&f.ents, Some(i)) {
                    return Err(say("current() of the original moved".into()));
                }
            }
            ctx.transitions += 3;
        }
        ctx.traces += 1;
    }
    ctx.states_of(f.state() ^ depth as u64, 1 + f.ents.len() as u64 + 1);
    ctx.sample(|| format!("{}: all {}^{depth} histories over {:?}", f.ctx(), n, ops.iter().map(|o| o.show()).collect::<Vec<_>>()));
    Ok(())
}

/// Two cursors over one source, whose position both move: every interleaving of their operations.
fn interleaved(f: &FileCase, ops: &[Op], depth: usize, ctx: &mut Ctx) -> Result<(), String> {
    let n = ops.len() as u64 * 2;
    for s in 0..n.pow(depth as u32) {
        let src = SharedSrc::new(&f.bytes);
        let first = open(src.clone(), &f.desc)?;
        // The second is opened on its own, or cloned.
        let second = if s % 2 == 0 { open(src, &f.desc)? } else { first.clone() };
        let mut both = [(first, Pos::Fresh), (second, Pos::Fresh)];
        let mut x = s;
        let mut hist = vec![];
        for _ in 0..depth {
            let (w, o) = ((x % 2) as usize, (x % n) as usize / 2);
            x /= n;
            hist.push((w, o));
            let (c, pos) = &mut both[w];
            *pos = step(c, &f.ents, *pos, &ops[o]).map_err(|m| {
                let h: Vec<_> = hist.iter().map(|(w, o)| format!("{w}:{}", ops[*o].show())).collect();
                format!("two cursors over one shared source, history [{}]: {m}; {}", h.join(" "), f.ctx())
            })?;
        }
        ctx.transitions += depth as u64;
        ctx.traces += 1;
    }
    ctx.states_of(f.state() ^ 0x5A ^ depth as u64, 1 + f.ents.len() as u64);
    Ok(())
}
/// Both iterators of a range or prefix in lock step, over one source whose position both move.
fn shared_iters(f: &FileCase, ranges: &[(B, B)], prefixes: &[Vec<u8>], ctx: &mut Ctx) -> Result<(), String> {
    let src = SharedSrc::new(&f.bytes);
    let reader = Reader::new(src.clone()).map_err(|e| e.to_string())?;
    let mut n = 0u64;
    macro_rules! run {
        ($sel:expr, $f:expr, $r:expr, $d:expr) => {{
            let (sel, mut it, mut rit): (Vec<usize>, _, _) = ($sel, $f.map_err(|e| e.to_string())?, $r.map_err(|e| e.to_string())?);
            for i in 0..=sel.len() {
                let d = |w: &str| format!("{w} {} step {i}, both iterators over one shared source, {}", $d, f.ctx());
                same(|| d("forward"), it.next().map_err(|x| format!("{}: {x}", d("forward")))?, want(&f.ents, sel.get(i).copied()))?;
                same(|| d("reverse"), rit.next().map_err(|x| format!("{}: {x}", d("reverse")))?, want(&f.ents, sel.iter().rev().nth(i).copied()))?;
                // Somebody else moves it, too.
                src.pos.set([0, f.bytes.len() as u64 / 2, f.bytes.len() as u64][i % 3]);
            }
            n += sel.len() as u64 + 1;
            ctx.traces += 2;
        }};
    }
    for (lo, hi) in ranges {
        let sel = (0..f.ents.len()).filter(|i| in_range(&f.ents[*i].0, lo, hi)).collect();
        let rng = (lo.clone(), hi.clone());
        run!(sel, reader.clone().into_range_iter::<_, Vec<u8>>(rng.clone()), reader.clone().into_rev_range_iter::<_, Vec<u8>>(rng), format!("range ({}, {})", show_bound(lo), show_bound(hi)));
    }
    for p in prefixes {
        let sel = (0..f.ents.len()).filter(|i| f.ents[*i].0.starts_with(p)).collect();
        run!(sel, reader.clone().into_prefix_iter(p.clone()), reader.clone().into_rev_prefix_iter(p.clone()), format!("prefix {}", hex(p)));
    }
    ctx.transitions += 2 * n;
    ctx.states_of(f.state() ^ 0x5B, (ranges.len() + prefixes.len()) as u64 * (f.ents.len() as u64 + 1));
    Ok(())
}
/// Readers and sources that a cursor gives back, wherever it was: as good as new.
fn taken_back<F>(f: &FileCase, ops: &[Op], depth: usize, ctx: &mut Ctx, check: F) -> Result<(), String>
where
    F: Fn(&dyn Fn() -> Result<Reader<Src>, String>, &str, &mut Ctx) -> Result<(), String>,
{
    let mut hists: Vec<Vec<&Op>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = hists.len();
        for i in from..to {
            for o in ops {
                let mut h = hists[i].clone();
                h.push(o);
                hists.push(h);
            }
        }
        from = to;
    }
    for h in &hists {
        let mut c = f.cursor()?;
        let mut pos = Pos::Fresh;
        for o in h {
            pos = step(&mut c, &f.ents, pos, o)?;
        }
        let d = |w: &str| format!("{w} given back after [{}], {}", h.iter().map(|o| o.show()).collect::<Vec<_>>().join(" "), f.ctx());
        let same_reader = |r: &Reader<Src>, w: &str| {
            if r.len() != f.ents.len() as u64 || r.is_empty() != f.ents.is_empty() || codec_id(r.compression_type()) != codec_id(c.compression_type()) || r.file_version() as u8 != c.file_version() as u8 {
                return Err(format!("{}: another count, codec or version", d(w)));
            }
            Ok(())
        };
        let r = c.clone().into_reader();
        same_reader(&r, "reader")?;
        check(&|| Ok(r.clone()), &d("reader"), ctx)?;
        let src = c.clone().into_inner();
        let again = Reader::new(src).map_err(|e| format!("{}: {e}", d("source")))?;
        same_reader(&again, "source")?;
        check(&|| Ok(again.clone()), &d("source"), ctx)?;
        let again = Reader::new(r.into_inner()).map_err(|e| format!("{}: {e}", d("source")))?;
        same_reader(&again, "source")?;
        // The cursor itself stays where it was.
        if let Pos::At(i) = pos {
            same(|| d("cursor"), c.current(), want(&f.ents, Some(i)))?;
        }
        ctx.traces += 2;
    }
    ctx.states_of(f.state() ^ 0x7B, hists.len() as u64);
    Ok(())
}
fn taken_ops(f: &FileCase) -> Vec<Op> {
    let mut ops = vec![Op::Next, Op::Prev];
    for i in [0, f.ents.len() / 2, f.ents.len().saturating_sub(1)] {
        if let Some((k, _)) = f.ents.get(i) {
            ops.push(Op::Ge(k.clone()));
            ops.push(Op::Le([k, &[0][..]].concat()));
        }
    }
    ops.push(Op::Ge(vec![0xff; 20]));
    ops
}
fn shared_corpus(deep: bool) -> Corpus {
    cuts_corpus(if deep { 6 } else { 5 }, 2, vec![1, 2])
}

/// A source whose n-th call from when it is armed fails, once.
#[derive(Clone)]
struct FailSrc {
    inner: Src,
    left: std::rc::Rc<std::cell::Cell<i64>>,
}
impl FailSrc {
    fn tick(&self) -> std::io::Result<()> {
        let n = self.left.get();
        self.left.set(n - 1);
        if n == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "source failure"));
        }
        Ok(())
    }
}
impl std::io::Read for FailSrc {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.tick()?;
        self.inner.read(b)
    }
}
impl std::io::Seek for FailSrc {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        self.tick()?;
        self.inner.seek(to)
    }
}
fn apply_op<R: Read + Seek>(c: &mut ReaderCursor<R>, op: &Op) -> Result<(), ()> {
    match op {
        Op::First => c.move_on_first().map(drop),
        Op::Last => c.move_on_last().map(drop),
        Op::Next => c.move_on_next().map(drop),
        Op::Prev => c.move_on_prev().map(drop),
        Op::Ge(q) => c.move_on_key_greater_than_or_equal_to(q).map(drop),
        Op::Le(q) => c.move_on_key_lower_than_or_equal_to(q).map(drop),
        Op::Eq(q) => c.move_on_key_equal_to(q).map(drop),
        Op::Reset => {
            c.reset();
            Ok(())
        }
    }
    .map_err(drop)
}
/// An operation that failed because the source did is part of what absolute operations may not
/// depend on: every history, every failing operation, every failing call, then every absolute one.
fn after_failures(f: &FileCase, ops: &[Op], ctx: &mut Ctx) -> Result<(), String> {
    let mut hists: Vec<Vec<&Op>> = vec![vec![]];
    for o in ops {
        hists.push(vec![o]);
        hists.push(vec![o, &ops[0]]);
        hists.push(vec![o, &ops[1]]);
    }
    let left = std::rc::Rc::new(std::cell::Cell::new(-1));
    for h in &hists {
        let mut c = open(FailSrc { inner: Src::new(&f.bytes), left: left.clone() }, &f.desc)?;
        for o in h {
            let _ = apply_op(&mut c, o);
        }
        for (fi, failing) in ops.iter().enumerate() {
            for k in 0.. {
                let mut c = c.clone();
                left.set(k);
                let r = apply_op(&mut c, failing);
                if left.get() >= 0 {
                    left.set(-1);
                    break;
                }
                left.set(-1);
                if r.is_ok() {
                    // Swallowed failures are C12's matter.
                    continue;
                }
                for last in ops.iter().filter(|o| !matches!(o, Op::Next | Op::Prev)) {
                    let mut c = c.clone();
                    let say = |m: String| {
                        format!(
                            "after [{}] and {} failing at source call {k}: {m}; {}",
                            h.iter().map(|o| o.show()).collect::<Vec<_>>().join(" "),
                            failing.show(),
                            f.ctx()
                        )
                    };
                    let p = step(&mut c, &f.ents, Pos::Unspec, last).map_err(say)?;
                    // And from there relative moves are specified again.
                    step(&mut c.clone(), &f.ents, p, &Op::Next).map_err(say)?;
                    step(&mut c, &f.ents, p, &Op::Prev).map_err(say)?;
                    ctx.transitions += 3;
                }
                ctx.state(H::new().u(f.state()).u(hash(format!("{h:?}").as_bytes())).u(fi as u64).u(k as u64).get());
                ctx.traces += 1;
            }
        }
    }
    ctx.sample(|| format!("{}: {} histories x {} failing operations x every source call", f.ctx(), hists.len(), ops.len()));
    Ok(())
}

/// Probes for histories: each key and one absent probe in each gap.
fn few_probes(e: &Ents) -> Vec<Vec<u8>> {
    let mut p: Vec<Vec<u8>> = vec![];
    if e.first().map_or(true, |(k, _)| !k.is_empty()) {
        p.push(vec![]);
    }
    for (k, _) in e {
        p.push(k.clone());
        let mut a = k.clone();
        a.push(0);
        if !e.iter().any(|(x, _)| *x == a) {
            p.push(a);
        }
    }
    p.sort();
    p
}
fn gap_keys(n: usize) -> Ents {
    (0..n).map(|i| (vec![2 * i as u8 + 1, 7], tiny(i))).collect()
}

pub fn c03(deep: bool) -> Check {
    let mut fams = vec![];
    #[cfg(grenad_verif)]
    {
        let run = |f: &FileCase, ctx: &mut Ctx| {
            let ops = ops_with(&few_probes(&f.ents));
            bfs(f.cursor()?, f, &ops, 200_000, ctx, |s, _| s()).and_then(|c| {
                if c {
                    Ok(())
                } else {
                    eprintln!("cap reached: {}", f.desc);
                    Ok(())
                }
            })
        };
        fams.push(corpus_family(
            "bfs-layouts",
            "all reachable cursor states, all operations x (each key and each gap) from each",
            cuts_corpus(if deep { 5 } else { 4 }, if deep { 3 } else { 2 }, vec![1, 2]),
            run,
        ));
        fams.push(corpus_family(
            "bfs-deep-chain",
            "all reachable cursor states, all operations x (each key and each gap) from each",
            if deep { uniform_layouts(vec![6, 7, 8], vec![1], vec![2], vec![1, 3], 3) } else { uniform_layouts(vec![6], vec![1, 2], vec![2], vec![1], 2) },
            run,
        ));
        fams.push(corpus_family(
            "bfs-written",
            "all reachable cursor states, all operations x (each key and each gap) from each",
            written(if deep { 4 } else { 3 }, &[Shape::Tiny, Shape::Val1100, Shape::Key520, Shape::Key1100], vec![0, 1, 2], vec![1, 2], vec![0]),
            run,
        ));
        fams.push(corpus_family(
            "bfs-codecs",
            "all reachable cursor states, all operations x (each key and each gap) from each",
            layouts(2, 1, &[1], &[1, 2, 3, 4, 5]),
            run,
        ));
        fams.push(corpus_family(
            "bfs-one-block",
            "all reachable cursor states, all operations x (each key and each gap) from each",
            uniform_layouts((0..=18).collect(), vec![40], vec![2], vec![1, 2, 3, 4, 5, 8], 1),
            run,
        ));
    }
    #[cfg(grenad_verif)]
    fams.push(corpus_family(
        "bfs-shared-source",
        "all reachable cursor states over a source that somebody else moves: before every operation it stands at the start, in the middle and at the end",
        cuts_corpus(if deep { 5 } else { 4 }, 2, vec![1, 2]),
        |f, ctx| {
            let src = SharedSrc::new(&f.bytes);
            let pos = src.pos.clone();
            let base = ops_with(&few_probes(&f.ents));
            let ops = [&base[..], &base[..], &base[..]].concat();
            let at = [0, f.bytes.len() as u64 / 2, f.bytes.len() as u64];
            let mut calls = 0;
            bfs(open(src, &f.desc)?, f, &ops, 200_000, ctx, |s, _| {
                pos.set(at[calls % (3 * base.len()) / base.len()]);
                calls += 1;
                s()
            })
            .map(drop)
        },
    ));
    fams.push(crate::inter::cursors(deep));
    fams.push(crate::hop::cursors(deep));
    fams.push(all_bytes_family("one cursor through a seek to each byte and its successor, in three orders, with a step between", walk_probes));
    fams.push(look_alikes_family("one cursor through a seek to each key and gap, in three orders, with a step between", walk_probes));
    fams.push(tails_family("common-prefixes", "one cursor through all seeks to tails up to length 2 and neighbours, in three orders, with a step forward or backward between", deep, |f, n, ctx| {
        let mut p = tail_probes(n, 2);
        p.sort();
        p.dedup();
        walk_probes(f, &p, ctx)
    }));
    fams.push(corpus_family(
        "taken-back",
        "into_reader and into_inner after every history of <= 2 operations, then every history of 2 on a cursor of what was given back",
        cuts_corpus(4, 2, vec![1, 2]),
        move |f, ctx| {
            let ops = taken_ops(f);
            taken_back(f, &ops, 2, ctx, |make, d, ctx| {
                for a in &ops {
                    let mut c = make()?.into_cursor().map_err(|e| format!("{d}: {e}"))?;
                    if c.current().is_some() {
                        return Err(format!("{d}: current() of a new cursor is an entry"));
                    }
                    let pos = step(&mut c, &f.ents, Pos::Fresh, a).map_err(|m| format!("{d}: {m}"))?;
                    for b in &ops {
                        step(&mut c.clone(), &f.ents, pos, b).map_err(|m| format!("{d}: after {}: {m}", a.show()))?;
                    }
                }
                ctx.transitions += (ops.len() * (ops.len() + 1)) as u64;
                Ok(())
            })
        },
    ));
    {
        let d = if deep { 5 } else { 4 };
        fams.push(corpus_family(
            "shared-source",
            &format!("all histories of {d} operations on two cursors over one source, opened on their own or one cloned from the other"),
            cuts_corpus(3, 2, vec![1]),
            move |f, ctx| {
                let mut ops = vec![Op::Next, Op::Prev, Op::Last];
                if let Some((k, _)) = f.ents.get(f.ents.len() / 2) {
                    ops.extend([Op::Ge(k.clone()), Op::Le(k.clone())]);
                }
                interleaved(f, &ops, d, ctx)
            },
        ));
    }
    {
        let d = if deep { 4 } else { 3 };
        fams.push(corpus_family(
            "histories",
            &format!("all histories of {d} operations without state merging, with a clone split off"),
            cuts_corpus(3, if deep { 2 } else { 2 }, vec![1]),
            move |f, ctx| {
                let mut p = few_probes(&f.ents);
                p.truncate(4);
                let mut ops = ops_with(&p);
                ops.retain(|o| !matches!(o, Op::Eq(q) if q.len() != 2 && !q.is_empty()));
                stateless(f, &ops, d, ctx)
            },
        ));
    }
    {
        let d = if deep { 8 } else { 7 };
        fams.push(corpus_family(
            "walks",
            &format!("all histories of {d} operations over next, prev, one seek to the middle, reset"),
            cuts_corpus(4, 2, vec![1, 2]),
            move |f, ctx| {
                let mut ops = vec![Op::Next, Op::Prev];
                if let Some((k, _)) = f.ents.get(f.ents.len() / 2) {
                    ops.push(Op::Ge(k.clone()));
                }
                if deep {
                    ops.push(Op::Last);
                }
                stateless(f, &ops, d, ctx)
            },
        ));
    }
    fams.push(corpus_family(
        "after-source-failures",
        "histories of <= 2 operations, then every operation failing at its every source call, then every absolute operation and a step from it",
        cuts_corpus(3, 2, vec![1]),
        |f, ctx| {
            let mut p = few_probes(&f.ents);
            p.truncate(5);
            after_failures(f, &ops_with(&p), ctx)
        },
    ));
    fams.push(corpus_family(
        "long-walks",
        "real writer: from each entry, walks of 20 steps (forward, backward, zigzag) after a seek, and after unrelated seeks",
        long_written(if deep { vec![60, 300, 1000, 5000] } else { vec![60, 300, 1000] }, default_cfgs()),
        long_walks,
    ));
    fams.push(extreme_levels_family("extreme-levels", |f, ctx| {
        let mut p = few_probes(&f.ents);
        p.truncate(3);
        let ops = ops_with(&p);
        stateless(f, &ops, 2, ctx)
    }));
    fams.push(wide_family("wide-blocks", deep, false, wide_walks));
    fams.push(big_family("big-blocks", "from each entry, walks of 4 steps after each seek, with a clone going the other way", deep, |f, ctx| {
        let idx: Vec<usize> = (0..f.ents.len()).collect();
        wide_walks(f, &idx, ctx)
    }));
    fams.push(giant_family(false, |f, idx, ctx| wide_walks(f, idx, ctx)));
    fams.push(giant_block_family("a walk over the 4 GiB mark in both directions, a seek and the last entry", |_, f, ctx| {
        let k = |i: usize| f.ents[i].0.clone();
        use Op::*;
        giant_steps(f, &[First, Next, Next, Next, Next, Next, Next, Next, Next, Next, Next, Prev, Prev, Prev, Next, Next, Next, Last, Prev, Prev, Prev, Next, Le(k(9)), Prev, Next, Next], ctx)
    }));
    Check {
        property: "C03",
        level: "model_checking",
        rule: "a state is one reachable state of the real cursor (all its fields, by hash of its Debug form) with the model's logical position; a transition is one public operation on a clone of it; a trace a distinct shortest history or one complete history of the stateless families",
        assumptions: {
            let mut a = assumptions();
            a.push("states are merged when all fields of the cursor and its source print the same: merged states have the same futures because the reader holds no other state (the stateless families do not rely on this)".into());
            a.push("results of relative moves and of current() after an operation that returned None are not checked until the next absolute operation or reset".into());
            a
        },
        families: fams,
    }
}

/// n distinct keys with gaps x all cut layouts.
pub fn cuts_corpus(max_n: usize, max_levels: u8, intervals: Vec<usize>) -> Corpus {
    let mut table = vec![];
    let mut total = 0u64;
    for n in 0..=max_n {
        for l in 0..=max_levels {
            let c = (l as u64 + 2).pow(n.saturating_sub(1) as u32);
            table.push((total, n, l));
            total += c;
        }
    }
    let ni = intervals.len() as u64;
    (
        format!("all block layouts of 0..={max_n} keys over 0..={max_levels} index levels x intervals {intervals:?}"),
        total * ni,
        Box::new(move |case| {
            let iv = intervals[(case % ni) as usize];
            let c = case / ni;
            let (s, n, l) = *table.iter().rev().find(|t| t.0 <= c).unwrap();
            let mut r = Radix(c - s);
            let cuts: Vec<u8> = (0..n.saturating_sub(1)).map(|_| r.take(l as usize + 2) as u8).collect();
            let ents = gap_keys(n);
            let bytes = Arc::new(fmt::encode(&ents, l, &cuts, iv, 0));
            FileCase { bytes, ents, desc: format!("layout levels={l} cuts={cuts:?} interval={iv}") }
        }),
    )
}

fn long_walks(f: &FileCase, ctx: &mut Ctx) -> Result<(), String> {
    let n = f.ents.len();
    let fresh = f.cursor()?;
    let mut c = fresh.clone();
    let mut pos = Pos::Fresh;
    let mut go = |c: &mut ReaderCursor<Src>, pos: &mut Pos, op: Op, what: &str, i: usize, ctx: &mut Ctx| -> Result<(), String> {
        *pos = step(c, &f.ents, *pos, &op).map_err(|m| format!("{what} walk around entry {i}: {m}; {}", f.ctx()))?;
        ctx.transitions += 1;
        Ok(())
    };
    for i in 0..n {
        let k = f.ents[i].0.clone();
        let far = f.ents[(i * 7 + n / 2) % n].0.clone();
        for (w, what) in ["forward", "backward", "zigzag", "zagzig", "far"].iter().enumerate() {
            let op = match (i + w) % 3 {
                0 => Op::Ge(k.clone()),
                1 => Op::Le(k.clone()),
                _ => Op::Eq(k.clone()),
            };
            go(&mut c, &mut pos, op, what, i, ctx)?;
            for s in 0..20 {
                let fwd = match w {
                    0 => true,
                    1 => false,
                    2 => (s / 3) % 2 == 0,
                    3 => (s / 2) % 2 == 1,
                    _ => s % 4 != 3,
                };
                if w == 4 && s == 7 {
                    go(&mut c, &mut pos, Op::Ge(far.clone()), what, i, ctx)?;
                }
                if pos == Pos::Unspec {
                    break;
                }
                go(&mut c, &mut pos, if fwd { Op::Next } else { Op::Prev }, what, i, ctx)?;
            }
        }
        ctx.traces += 5;
    }
    ctx.states_of(f.state(), n as u64 + 2);
    Ok(())
}

// ------------------------------------------------------------------ C04, C05

pub fn c04(deep: bool) -> Check {
    let mut fams = vec![];
    {
        let p = strings(&[0x00, 0xff], 2);
        let mut p2 = p.clone();
        p2.extend([vec![0x00, 0x00, 0x00], vec![0x01], vec![0xff, 0xff, 0x00], vec![0x80], vec![0xff; 4]]);
        p2.sort();
        let b = bounds_of(&p2);
        fams.push(corpus_family(
            "layouts",
            &format!("all {}^2 pairs of bounds (unbounded, inclusive, exclusive over the tree and gaps), both directions", b.len()),
            layouts(if deep { 6 } else { 4 }, if deep { 2 } else { 1 }, if deep { &[1, 2, 3] } else { &[2] }, &[0]),
            move |f, ctx| check_ranges(f, &b, ctx),
        ));
    }
    {
        let b = bounds_of(&strings(&[0x00, 0xff], 2));
        fams.push(corpus_family(
            "layouts-codecs",
            &format!("all {}^2 pairs of bounds, both directions", b.len()),
            layouts(2, 2, &[1], &[1, 2, 3, 4, 5]),
            move |f, ctx| check_ranges(f, &b, ctx),
        ));
    }
    {
        let p = tree_probes();
        let b = bounds_of(&p);
        fams.push(corpus_family(
            "tree-subsets",
            &format!("all {}^2 pairs of bounds, both directions", b.len()),
            {
                let (d, n, f) = layouts(7, 0, &[2], &[0]);
                // one layout per subset: everything cut, and nothing cut
                let _ = (d, n, f);
                subset_corpus()
            },
            move |f, ctx| check_ranges(f, &b, ctx),
        ));
    }
    fams.push(corpus_family(
        "uniform-layouts",
        "bounds: all keys and neighbours, all pairs, both directions",
        uniform_layouts(if deep { (0..=20).collect() } else { (0..=11).collect() }, vec![1, 3, 40], vec![2], vec![1, 4], 2),
        |f, ctx| {
            let mut p = uniform_probes(f.ents.len());
            if p.len() > 30 {
                p = p.into_iter().step_by(2).collect();
            }
            check_ranges(f, &bounds_of(&p), ctx)
        },
    ));
    fams.push(corpus_family(
        "written-shapes",
        "bounds: all keys, neighbours, prefixes and extensions, all pairs, both directions",
        written(if deep { 4 } else { 3 }, &SHAPES[..6], vec![0, 2], vec![1, 2], vec![0]),
        |f, ctx| {
            let mut p = probes_for(&f.ents);
            if p.len() > 12 {
                p = p.into_iter().step_by(2).collect();
            }
            check_ranges(f, &bounds_of(&p), ctx)
        },
    ));
    fams.push(corpus_family(
        "written-long",
        "bounds: 40 spread keys and neighbours, all pairs, both directions",
        long_written(if deep { vec![50, 300, 1000] } else { vec![50, 300] }, default_cfgs()),
        |f, ctx| {
            let p = uniform_probes(f.ents.len());
            let s = p.len() / 20;
            let p: Vec<_> = p.into_iter().enumerate().filter(|(i, _)| i % s < 2).map(|x| x.1).collect();
            check_ranges(f, &bounds_of(&p), ctx)
        },
    ));
    fams.push(special_keys_family("special-keys", |f, ctx| {
        let p: Vec<_> = probes_for(&f.ents).into_iter().step_by(2).collect();
        check_ranges(f, &bounds_of(&p), ctx)
    }));
    fams.push(range_types_family());
    fams.push(extreme_levels_family("extreme-levels", |f, ctx| {
        let p: Vec<_> = few_probes(&f.ents);
        check_ranges(f, &bounds_of(&p), ctx)
    }));
    fams.push(runs_family("byte-runs", if deep { (0..256).collect() } else { vec![0xff, 0x55, 0xaa, 0x0f, 0xf0, 0xe7, 0x7e, 0x6e] }, deep, |f, ctx| {
        check_ranges(f, &bounds_of(&run_probes(&f.ents)), ctx)
    }));
    fams.push(wide_family("wide-blocks", deep, false, wide_ranges));
    fams.push(crate::inter::iterators(false));
    fams.push(crate::hop::iterators(false));
    fams.push(all_bytes_family("every 19th probe as bounds", |f, p, ctx| {
        let off = f.ents.len() % 9;
        let p: Vec<Vec<u8>> = p.iter().skip(off).step_by(19).cloned().collect();
        check_ranges(f, &bounds_of(&p), ctx)
    }));
    fams.push(look_alikes_family("every 5th key or gap as bounds", |f, p, ctx| {
        let p: Vec<Vec<u8>> = p.iter().skip(f.bytes.len() % 4).step_by(5).cloned().collect();
        check_ranges(f, &bounds_of(&p), ctx)
    }));
    fams.push(tails_family("common-prefixes", "tails up to length 1 and neighbours as bounds", deep, |f, n, ctx| check_ranges(f, &bounds_of(&tail_probes(n, 1)), ctx)));
    fams.push(big_family("big-blocks", "bounds at and beside every third key", deep, |f, ctx| {
        let mut b = vec![std::ops::Bound::Unbounded];
        for i in [0usize, 1, 4, 5] {
            let k = &f.ents[i].0;
            b.push(std::ops::Bound::Included(k.clone()));
            b.push(std::ops::Bound::Excluded(k.clone()));
            b.push(std::ops::Bound::Included(k[..1].to_vec()));
            b.push(std::ops::Bound::Excluded([k, &[0][..]].concat()));
        }
        check_ranges(f, &b, ctx)
    }));
    fams.push(corpus_family("taken-back", "ranges over readers and sources given back by a cursor after every single operation", cuts_corpus(3, 2, vec![1, 2]), |f, ctx| {
        let b = bounds_of(&few_probes(&f.ents));
        taken_back(f, &taken_ops(f), 1, ctx, |make, d, ctx| {
            for lo in &b {
                for hi in &b {
                    let sel: Vec<usize> = (0..f.ents.len()).filter(|i| in_range(&f.ents[*i].0, lo, hi)).collect();
                    let rng = (lo.clone(), hi.clone());
                    let at = |w: &str, i: usize| format!("{w} range ({}, {}) step {i}, {d}", show_bound(lo), show_bound(hi));
                    let mut it = make()?.into_range_iter::<_, Vec<u8>>(rng.clone()).map_err(|e| format!("{}: {e}", at("", 0)))?;
                    let mut rit = make()?.into_rev_range_iter::<_, Vec<u8>>(rng).map_err(|e| format!("{}: {e}", at("", 0)))?;
                    for i in 0..=sel.len() {
                        same(|| at("forward", i), it.next().map_err(|e| format!("{}: {e}", at("forward", i)))?, want(&f.ents, sel.get(i).copied()))?;
                        same(|| at("reverse", i), rit.next().map_err(|e| format!("{}: {e}", at("reverse", i)))?, want(&f.ents, sel.iter().rev().nth(i).copied()))?;
                    }
                    ctx.transitions += 2 * sel.len() as u64 + 2;
                }
            }
            Ok(())
        })
    }));
    fams.push(corpus_family("shared-source", "bounds at and beside each key; forward and reverse iterators in lock step over one source", shared_corpus(deep), |f, ctx| {
        let b = bounds_of(&few_probes(&f.ents));
        let pairs: Vec<(B, B)> = b.iter().flat_map(|x| b.iter().map(move |y| (x.clone(), y.clone()))).collect();
        shared_iters(f, &pairs, &[], ctx)
    }));
    fams.push(giant_family(false, |f, idx, ctx| wide_ranges(f, &idx[2..3], ctx)));
    fams.push(giant_block_family("a range of 20 entries beyond 4 GiB, forward and backward", |_, f, ctx| {
        use std::ops::Bound::*;
        let r = (Excluded(f.ents[11].0.clone()), Included(f.ents[31].0.clone()));
        let reader = || Reader::new(Src::new(&f.bytes)).map_err(|e| e.to_string());
        let mut it = reader()?.into_range_iter::<_, Vec<u8>>(r.clone()).map_err(|e| e.to_string())?;
        for i in 12..33 {
            same(|| format!("forward range, step {i}, {}", f.ctx()), it.next().map_err(|e| e.to_string())?, want(&f.ents, (i < 32).then_some(i)))?;
        }
        drop(it);
        let mut it = reader()?.into_rev_range_iter::<_, Vec<u8>>(r).map_err(|e| e.to_string())?;
        for i in (11..32).rev() {
            same(|| format!("reverse range, step {i}, {}", f.ctx()), it.next().map_err(|e| e.to_string())?, want(&f.ents, (i > 11).then_some(i)))?;
        }
        ctx.transitions += 42;
        Ok(())
    }));
    Check { property: "C04", level: "model_checking", rule: RULE_MC, assumptions: assumptions(), families: fams }
}

/// All 2^13 subsets of a tree are too many for quadratic bounds: all 2^7, in two extreme layouts.
fn subset_corpus() -> Corpus {
    let tree = strings(&[0x00, 0xff], 2);
    (
        "all 128 subsets of the 7-key tree, one entry per block over 1 level, or all in one block".into(),
        256,
        Box::new(move |case| {
            let keys = subset(&tree, case / 2);
            let ents = with_tiny(&keys);
            let cuts = vec![if case % 2 == 0 { 0 } else { 2 }; keys.len().saturating_sub(1)];
            let bytes = Arc::new(fmt::encode(&ents, 1, &cuts, 2, 0));
            FileCase { bytes, ents, desc: format!("subset cuts={cuts:?}") }
        }),
    )
}

/// The range iterators given the std range types, and clones taken at every step.
fn range_types_family() -> Family {
    family(
        "range-types-and-clones",
        "std range types (.., a.., ..b, ..=b, a..b, a..=b) over every pair of 9 keys, every iterator cloned at every step",
        3,
        |case, ctx| {
            let e: Ents = (0..9).map(|i| (uniform_key(i), tiny(i))).collect();
            let cuts = vec![[0, 1, 2][case as usize]; 8];
            let f = FileCase { bytes: Arc::new(fmt::encode(&e, 1, &cuts, 2, 0)), ents: e, desc: format!("range types {case}") };
            let r = Reader::new(Src::new(&f.bytes)).map_err(|e| e.to_string())?;
            let keys: Vec<Vec<u8>> = f.ents.iter().map(|x| x.0.clone()).collect();
            macro_rules! go {
                ($range:expr, $sel:expr) => {{
                    let sel: Vec<usize> = (0..f.ents.len()).filter(|i| $sel(&f.ents[*i].0)).collect();
                    let mut it = r.clone().into_range_iter::<_, Vec<u8>>($range).map_err(|e| e.to_string())?;
                    let mut rit = r.clone().into_rev_range_iter::<_, Vec<u8>>($range).map_err(|e| e.to_string())?;
                    for s in 0..=sel.len() {
                        let mut it2 = it.clone();
                        let mut rit2 = rit.clone();
                        let w = want(&f.ents, sel.get(s).copied());
                        let rw = want(&f.ents, sel.iter().rev().nth(s).copied());
                        let d = || format!("{} step {s}; {}", stringify!($range), f.ctx());
                        same(d, it2.next().map_err(|e| e.to_string())?, w)?;
                        same(d, it.next().map_err(|e| e.to_string())?, w)?;
                        same(d, rit2.next().map_err(|e| e.to_string())?, rw)?;
                        same(d, rit.next().map_err(|e| e.to_string())?, rw)?;
                        ctx.transitions += 4;
                    }
                    ctx.traces += 2;
                }};
            }
            go!(.., |_k: &Vec<u8>| true);
            for a in &keys {
                let a = a.clone();
                go!(a.clone().., |k: &Vec<u8>| *k >= a);
                go!(..a.clone(), |k: &Vec<u8>| *k < a);
                go!(..=a.clone(), |k: &Vec<u8>| *k <= a);
                for b in &keys {
                    go!(a.clone()..b.clone(), |k: &Vec<u8>| *k >= a && k < b);
                    go!(a.clone()..=b.clone(), |k: &Vec<u8>| *k >= a && k <= b);
                }
            }
            ctx.states_of(f.state(), 190);
            Ok(())
        },
    )
}

pub fn c05(deep: bool) -> Check {
    let mut fams = vec![];
    // 13-key tree over {00, 61, ff} of length <= 2: all 8192 subsets, two layouts.
    {
        let tree = strings(&[0x00, 0x61, 0xff], 2);
        let mut prefixes = strings(&[0x00, 0x61, 0x62, 0xfe, 0xff], 2);
        prefixes.extend(strings(&[0x00, 0xff], 4));
        prefixes.extend([vec![0x60, 0xff], vec![0x61, 0xff, 0xff], vec![0xff; 9]]);
        prefixes.sort();
        prefixes.dedup();
        fams.push(family(
            "tree-subsets",
            format!("all 8192 subsets of the 13-key tree over {{00,61,ff}} x 3 layouts x {} prefixes, both directions", prefixes.len()),
            8192 * 3,
            move |case, ctx| {
                let keys = subset(&tree, case / 3);
                let ents = with_tiny(&keys);
                let cuts: Vec<u8> = (0..keys.len().saturating_sub(1)).map(|i| [0, 2, (i % 3) as u8][(case % 3) as usize]).collect();
                let bytes = Arc::new(fmt::encode(&ents, 1, &cuts, 2, 0));
                check_prefixes(&FileCase { bytes, ents, desc: format!("subset cuts={cuts:?}") }, &prefixes, ctx)
            },
        ));
    }
    {
        let p = tree_probes();
        let np = p.len();
        fams.push(corpus_family(
            "layouts",
            &format!("{np} prefixes, both directions"),
            layouts(if deep { 6 } else { 4 }, if deep { 3 } else { 2 }, if deep { &[1, 2, 3] } else { &[1, 2] }, &[0]),
            move |f, ctx| check_prefixes(f, &p, ctx),
        ));
    }
    {
        let p = strings(&[0x00, 0xff], 3);
        fams.push(corpus_family(
            "layouts-codecs",
            "15 prefixes, both directions",
            layouts(3, 1, &[1], &[1, 2, 3, 4, 5]),
            move |f, ctx| check_prefixes(f, &p, ctx),
        ));
    }
    fams.push(corpus_family(
        "uniform-layouts",
        "all keys, their neighbours, prefixes and extensions",
        uniform_layouts((0..=if deep { 60 } else { 30 }).collect(), vec![1, 2, 3, 5, 9, 40], vec![1, 2, 40], vec![1, 2, 3, 8], 2),
        |f, ctx| check_prefixes(f, &uniform_probes(f.ents.len()), ctx),
    ));
    fams.push(corpus_family(
        "written-shapes",
        "all keys, neighbours, prefixes and extensions",
        written(if deep { 5 } else { 4 }, &SHAPES[..6], vec![0, 1, 2], vec![1, 2], vec![0]),
        |f, ctx| check_prefixes(f, &probes_for(&f.ents), ctx),
    ));
    fams.push(corpus_family(
        "written-long",
        "all keys, neighbours, prefixes and extensions",
        long_written(if deep { vec![50, 300, 1000, 5000] } else { vec![50, 300, 1000] }, default_cfgs()),
        |f, ctx| {
            let p = uniform_probes(f.ents.len());
            let p: Vec<_> = p.into_iter().enumerate().filter(|(i, q)| q.len() >= 2 || i % 40 == 0).map(|x| x.1).collect();
            check_prefixes(f, &p, ctx)
        },
    ));
    fams.push(special_keys_family("special-keys", |f, ctx| check_prefixes(f, &probes_for(&f.ents), ctx)));
    fams.push(ff_family(deep));
    fams.push(extreme_levels_family("extreme-levels", |f, ctx| check_prefixes(f, &probes_for(&f.ents), ctx)));
    fams.push(runs_family("byte-runs", (0..256).collect(), deep, |f, ctx| check_prefixes(f, &run_probes(&f.ents), ctx)));
    fams.push(wide_family("wide-blocks", deep, false, wide_prefixes));
    fams.push(crate::inter::iterators(true));
    fams.push(crate::hop::iterators(true));
    fams.push(all_bytes_family("every byte and its successor as prefixes", |f, p, ctx| check_prefixes(f, p, ctx)));
    fams.push(look_alikes_family("each key, gap and their common part as prefixes", |f, p, ctx| {
        let n = p[0].len();
        check_prefixes(f, &[p, &[p[0][..n - 1].to_vec(), p[0][..n - 2].to_vec(), vec![]]].concat(), ctx)
    }));
    fams.push(tails_family("common-prefixes", "tails up to length 3 and neighbours as prefixes", deep, |f, n, ctx| check_prefixes(f, &tail_probes(n, 3), ctx)));
    fams.push(big_family("big-blocks", "prefixes of all keys of length 0, 1, 2, half, all but one, all and one more", deep, |f, ctx| {
        let mut p = vec![vec![], vec![0xff], vec![2]];
        for (k, _) in &f.ents {
            for n in [1, 2, k.len() / 2, k.len() - 1, k.len()] {
                p.push(k[..n.min(k.len())].to_vec());
            }
            p.push([k, &[7][..]].concat());
        }
        p.sort();
        p.dedup();
        check_prefixes(f, &p, ctx)
    }));
    fams.push(corpus_family("taken-back", "prefixes over readers and sources given back by a cursor after every history of <= 2 operations", cuts_corpus(4, 2, vec![1, 2]), |f, ctx| {
        let mut ps = few_probes(&f.ents);
        ps.extend((0..8).map(|i| vec![i]));
        taken_back(f, &taken_ops(f), 2, ctx, |make, d, ctx| {
            for p in &ps {
                let sel: Vec<usize> = (0..f.ents.len()).filter(|i| f.ents[*i].0.starts_with(p)).collect();
                let at = |w: &str, i: usize| format!("{w} prefix {} step {i}, {d}", hex(p));
                let mut it = make()?.into_prefix_iter(p.clone()).map_err(|e| format!("{}: {e}", at("", 0)))?;
                let mut rit = make()?.into_rev_prefix_iter(p.clone()).map_err(|e| format!("{}: {e}", at("", 0)))?;
                for i in 0..=sel.len() {
                    same(|| at("forward", i), it.next().map_err(|e| format!("{}: {e}", at("forward", i)))?, want(&f.ents, sel.get(i).copied()))?;
                    same(|| at("reverse", i), rit.next().map_err(|e| format!("{}: {e}", at("reverse", i)))?, want(&f.ents, sel.iter().rev().nth(i).copied()))?;
                }
                ctx.transitions += 2 * sel.len() as u64 + 2;
            }
            Ok(())
        })
    }));
    fams.push(corpus_family("shared-source", "prefixes at and beside each key; forward and reverse iterators in lock step over one source", shared_corpus(deep), |f, ctx| {
        let mut p = few_probes(&f.ents);
        p.extend((0..16).map(|i| vec![i]));
        shared_iters(f, &[], &p, ctx)
    }));
    fams.push(giant_family(false, |f, idx, ctx| {
        // Up to 128 entries, or one, around the mark and at the end.
        let mut p = vec![vec![0, 0, 6], vec![1]];
        for i in idx {
            p.push(f.ents[*i].0.clone());
        }
        check_prefixes(f, &p, ctx)
    }));
    Check { property: "C05", level: "model_checking", rule: RULE_MC, assumptions: assumptions(), families: fams }
}

/// Runs of 0xff of every length around stored keys; the successor of the prefix is itself a key.
fn ff_family(deep: bool) -> Family {
    let m: usize = if deep { 300 } else { 40 };
    family(
        "ff-runs",
        format!("prefix x . ff^r, r in 0..={m}, x in {{'', 00, 61, fe, 61 00}}: every subset of 6 keys around it (itself, extension, predecessor, successor, successor's extension, last key)"),
        5 * (m as u64 + 1),
        move |case, ctx| {
            let mut r = Radix(case);
            let x = r.pick(&[vec![], vec![0u8], vec![0x61], vec![0xfe], vec![0x61, 0]]);
            let run = r.take(m + 1);
            let mut p = x.clone();
            p.extend(vec![0xff; run]);
            let mut succ = p.clone();
            while let Some(l) = succ.last_mut() {
                if *l < 0xff {
                    *l += 1;
                    break;
                }
                succ.pop();
            }
            let mut ext = p.clone();
            ext.extend([0xff, 0xff, 1]);
            let mut pred = p.clone();
            pred.pop();
            let mut sext = succ.clone();
            sext.push(0);
            let all = [p.clone(), ext, pred, succ, sext, vec![0xff; run + 5]];
            for mask in 0..64u64 {
                let mut keys = subset(&all, mask);
                keys.sort();
                keys.dedup();
                let ents = with_tiny(&keys);
                let cuts = vec![(mask % 3) as u8; keys.len().saturating_sub(1)];
                let f = FileCase { bytes: Arc::new(fmt::encode(&ents, 1, &cuts, 2, 0)), ents, desc: format!("ff run {run} mask {mask}") };
                check_prefixes(&f, &all[..4], ctx)?;
            }
            Ok(())
        },
    )
}

// ------------------------------------------------------------------ C10

/// Everything at once on a version-1 file; the same content as a version-2 file must agree.
fn check_v1(v2: FileCase, probes: &[Vec<u8>], bounds: &[B], ctx: &mut Ctx) -> Result<(), String> {
    let codec = fmt::parse_trailer(&v2.bytes).ok_or("bad v2 file")?.codec;
    let f = FileCase { bytes: Arc::new(fmt::to_v1(&v2.bytes)), ents: v2.ents.clone(), desc: format!("v1 of {}", v2.desc) };
    check_scans(Src::new(&f.bytes), &f.ents, codec, true, &f.desc, ctx)?;
    check_seeks(&f, probes, ctx)?;
    check_ranges(&f, bounds, ctx)?;
    check_prefixes(&f, probes, ctx)?;
    // And directly against the version-2 file: seek plus relative moves around the result.
    let (a, b) = (f.cursor()?, v2.cursor()?);
    for q in probes {
        let (mut a, mut b) = (a.clone(), b.clone());
        let ra = a.move_on_key_greater_than_or_equal_to(q).map_err(|e| e.to_string())?.map(|(k, v)| (k.to_vec(), v.to_vec()));
        let rb = b.move_on_key_greater_than_or_equal_to(q).map_err(|e| e.to_string())?.map(|(k, v)| (k.to_vec(), v.to_vec()));
        if ra != rb {
            return Err(format!("ge({}) differs between versions; {}", hex(q), f.ctx()));
        }
        if ra.is_some() {
            for fwd in [true, false, false, true, true] {
                let x = if fwd { a.move_on_next() } else { a.move_on_prev() }.map_err(|e| e.to_string())?;
                let y = if fwd { b.move_on_next() } else { b.move_on_prev() }.map_err(|e| e.to_string())?;
                if x != y {
                    return Err(format!("moves after ge({}) differ between versions; {}", hex(q), f.ctx()));
                }
                if x.is_none() {
                    break;
                }
                ctx.transitions += 2;
            }
        }
        ctx.traces += 1;
    }
    Ok(())
}

pub fn c10(deep: bool) -> Check {
    let mut fams = vec![];
    {
        let probes = tree_probes();
        let b = bounds_of(&strings(&[0x00, 0xff], 2));
        let (bd, n, make) = layouts(if deep { 7 } else { 6 }, 0, &[1, 2, 3, 8], &[0]);
        fams.push(family("layouts", format!("{bd}, with a version-1 trailer; scans, {} seek and prefix probes, {}^2 ranges", probes.len(), b.len()), n, move |c, ctx| {
            check_v1(make(c), &probes, &b, ctx)
        }));
    }
    {
        let probes = tree_probes();
        let b = bounds_of(&strings(&[0x00, 0xff], 2));
        let (bd, n, make) = layouts(4, 0, &[2], &[1, 2, 3, 4, 5]);
        fams.push(family("layouts-codecs", format!("{bd}, version 1"), n, move |c, ctx| check_v1(make(c), &probes, &b, ctx)));
    }
    {
        let (bd, n, make) = uniform_layouts((0..=if deep { 40 } else { 20 }).collect(), vec![1, 2, 3, 5, 40], vec![1], vec![1, 2, 3, 8], 0);
        fams.push(family("uniform-layouts", format!("{bd}, version 1"), n, move |c, ctx| {
            let f = make(c);
            let p = uniform_probes(f.ents.len());
            let b: Vec<_> = p.iter().cloned().step_by(4).collect();
            check_v1(f, &p, &bounds_of(&b), ctx)
        }));
    }
    {
        let (bd, n, make) = written(if deep { 4 } else { 3 }, &SHAPES, vec![0], vec![1, 2, 8], fmt::CODECS.to_vec());
        fams.push(family("written-shapes", format!("{bd}, version 1"), n, move |c, ctx| {
            let f = make(c);
            let p = probes_for(&f.ents);
            let b: Vec<_> = p.iter().cloned().step_by(4).collect();
            check_v1(f, &p, &bounds_of(&b), ctx)
        }));
    }
    {
        let cfgs: Vec<Cfg> = default_cfgs().into_iter().map(|mut c| { c.levels = 0; c }).collect();
        let (bd, n, make) = long_written(if deep { vec![100, 1000, 5000, 70000] } else { vec![100, 1000] }, cfgs);
        fams.push(family("written-long", format!("{bd}, version 1"), n, move |c, ctx| {
            let f = make(c);
            let all = uniform_probes(f.ents.len());
            let k = (all.len() / 1500).max(1);
            let p: Vec<_> = all.into_iter().step_by(k).filter(|q| q.len() > 1).collect();
            let b: Vec<_> = p.iter().cloned().step_by(p.len() / 9).collect();
            check_v1(f, &p, &bounds_of(&b), ctx)
        }));
    }
    #[cfg(grenad_verif)]
    {
        let (bd, n, make) = cuts_corpus(if deep { 7 } else { 5 }, 0, vec![1, 2]);
        fams.push(family("bfs", format!("{bd}, version 1: all reachable cursor states and operations"), n, move |c, ctx| {
            let v2 = make(c);
            let f = FileCase { bytes: Arc::new(fmt::to_v1(&v2.bytes)), ents: v2.ents.clone(), desc: format!("v1 of {}", v2.desc) };
            bfs(f.cursor()?, &f, &ops_with(&few_probes(&f.ents)), 200_000, ctx, |s, _| s()).map(drop)
        }));
    }
    fams.push(v1_trailer_family(deep));
    fams.push(wide_family("wide-blocks", deep, true, |v2, idx, ctx| {
        let f = FileCase { bytes: Arc::new(fmt::to_v1(&v2.bytes)), ents: v2.ents.clone(), desc: format!("v1 of {}", v2.desc) };
        check_scans(Src::new(&f.bytes), &f.ents, 0, true, &f.desc, ctx)?;
        check_seeks(&f, &wide_probes(&f, idx), ctx)?;
        wide_walks(&f, idx, ctx)?;
        wide_ranges(&f, idx, ctx)?;
        wide_prefixes(&f, idx, ctx)
    }));
    let v1_of = |v2: &FileCase| FileCase { bytes: Arc::new(fmt::to_v1(&v2.bytes)), ents: v2.ents.clone(), desc: format!("v1 of {}", v2.desc) };
    fams.push(big_family("big-blocks", "one index level, version 1", deep, move |v2, ctx| {
        if fmt::parse_trailer(&v2.bytes).map_or(true, |t| t.levels != 0) {
            return Ok(());
        }
        let f = v1_of(v2);
        check_scans(Src::new(&f.bytes), &f.ents, f.bytes[f.bytes.len() - 13], true, &f.desc, ctx)?;
        check_seeks(&f, &probes_for(&f.ents), ctx)?;
        wide_walks(&f, &(0..f.ents.len()).collect::<Vec<_>>(), ctx)
    }));
    fams.push(tails_family("common-prefixes", "one index level, version 1; tails up to length 1 and neighbours as probes, bounds and prefixes", deep, move |v2, n, ctx| {
        if fmt::parse_trailer(&v2.bytes).map_or(true, |t| t.levels != 0) {
            return Ok(());
        }
        let f = v1_of(v2);
        let p = tail_probes(n, 1);
        check_seeks(&f, &p, ctx)?;
        check_prefixes(&f, &p, ctx)?;
        check_ranges(&f, &bounds_of(&p), ctx)
    }));
    fams.push(giant_family(true, |f, idx, ctx| {
        scan_forward(&mut f.cursor()?, &f.ents, &f.desc)?;
        check_seeks(f, &wide_probes(f, &idx[1..4]), ctx)?;
        wide_walks(f, &idx[2..3], ctx)?;
        wide_ranges(f, &idx[2..3], ctx)?;
        check_prefixes(f, &[vec![0, 0, 6, 1], f.ents[idx[2]].0.clone()], ctx)
    }));
    Check { property: "C10", level: "model_checking", rule: RULE_MC, assumptions: assumptions(), families: fams }
}

/// The version-1 metadata record itself: every codec byte, boundary counts and offsets.
fn v1_trailer_family(deep: bool) -> Family {
    let counts: Vec<u64> = {
        let mut v = vec![0, 1, 2, u64::MAX];
        for b in 0..64 {
            v.extend([1u64 << b, (1u64 << b).wrapping_sub(1)]);
        }
        for b in 0..8 {
            v.push(0xa5 << (8 * b));
        }
        v.sort();
        v.dedup();
        v
    };
    let nc = counts.len();
    family(
        "trailer-fields",
        format!("version-1 records: all 256 codec bytes x {nc} entry counts (all powers of two and neighbours) x 3 leading lengths"),
        256 * 3,
        move |case, ctx| {
            let mut r = Radix(case);
            let codec = r.take(256) as u8;
            let lead = [0usize, 1, 40][r.take(3)];
            let _ = deep;
            for n in &counts {
                let mut b = vec![0x11; lead];
                b.extend(fmt::trailer_v1(*n ^ 0x0102_0304, codec, *n));
                let b = Arc::new(b);
                ctx.transitions += 1;
                ctx.traces += 1;
                match (Reader::new(Src::new(&b)), codec <= 5) {
                    (Err(_), false) => {}
                    (Ok(r), true) => {
                        if r.len() != *n || codec_id(r.compression_type()) != codec || r.file_version() != grenad::FileVersion::FormatV1 || r.is_empty() != (*n == 0) {
                            return Err(format!("v1 trailer codec {codec} count {n}: opened as {:?} {} {:?}", r.compression_type(), r.len(), r.file_version()));
                        }
                    }
                    (Ok(_), false) => return Err(format!("v1 trailer with codec byte {codec} is accepted")),
                    (Err(e), true) => return Err(format!("v1 trailer codec {codec} count {n} is rejected: {e}")),
                }
            }
            ctx.states_of(case, nc as u64);
            Ok(())
        },
    )
}

// ------------------------------------------------------------------ C16

fn heads(f: &FileCase) -> Result<(Arc<Vec<u64>>, u64, u64), String> {
    let t = fmt::parse_trailer(&f.bytes).ok_or("bad trailer")?;
    // Every block area is a chain of length-prefixed blocks.
    let end = (f.bytes.len() - t.len) as u64;
    let mut h = vec![];
    let mut p = 0u64;
    let mut max = 0u64;
    while p < end {
        h.push(p);
        let l = u64::from_be_bytes(f.bytes[p as usize..p as usize + 8].try_into().unwrap());
        max = max.max(8 + l);
        p += 8 + l;
    }
    Ok((Arc::new(h), t.levels as u64, max))
}

fn open_counted(f: &FileCase) -> Result<(ReaderCursor<LoadSrc>, u64, u64), String> {
    let (h, levels, max) = heads(f)?;
    let s = LoadSrc::new(&f.bytes, &h);
    let stat = s.stat.clone();
    let r = Reader::new(s).map_err(|e| e.to_string())?;
    let trailer = fmt::parse_trailer(&f.bytes).unwrap().len as u64;
    let check = |what: &str| {
        if stat.loads.get() > 0 || stat.min_pos.get() < f.bytes.len() as u64 - trailer {
            Err(format!("{what} reads from offset {} of {} bytes ({} block loads); {}", stat.min_pos.get(), f.bytes.len(), stat.loads.get(), f.ctx()))
        } else {
            Ok(())
        }
    };
    check("Reader::new")?;
    let c = r.into_cursor().map_err(|e| e.to_string())?;
    check("into_cursor")?;
    stat.loads.set(0);
    stat.bytes.set(0);
    Ok((c, levels, max))
}

fn bounded_step(
    c: &mut ReaderCursor<LoadSrc>,
    f: &FileCase,
    pos: Pos,
    op: &Op,
    levels: u64,
    max: u64,
    worst: &mut u64,
) -> Result<Pos, String> {
    let stat = c.get_ref().stat.clone();
    stat.loads.set(0);
    stat.bytes.set(0);
    // The value returned is C02's and C03's subject; here an operation only has to be cheap.
    let r = step(c, &f.ents, pos, op).unwrap_or(Pos::Unspec);
    let bound = 2 * (levels + 2);
    *worst = (*worst).max(stat.loads.get());
    if stat.loads.get() > bound {
        return Err(format!("{} loads {} blocks, the bound is {bound} ({levels} index levels)", op.show(), stat.loads.get()));
    }
    if stat.bytes.get() > bound * max + 65536 {
        return Err(format!("{} reads {} bytes in {bound} blocks of at most {max} bytes", op.show(), stat.bytes.get()));
    }
    Ok(r)
}

pub fn c16(deep: bool) -> Check {
    let mut fams = vec![];
    #[cfg(grenad_verif)]
    {
        let run = |f: &FileCase, ctx: &mut Ctx| {
            let (start, levels, max) = open_counted(f)?;
            let stat = start.get_ref().stat.clone();
            let ops = ops_with(&few_probes(&f.ents));
            let bound = 2 * (levels + 2);
            let mut worst = 0;
            bfs_lenient(start, f, &ops, ctx, |s, op| {
                stat.loads.set(0);
                stat.bytes.set(0);
                let p = s();
                worst = worst.max(stat.loads.get());
                if stat.loads.get() > bound || stat.bytes.get() > bound * max + 65536 {
                    return Err(format!("{} loads {} blocks ({} bytes), the bound is {bound} ({levels} index levels)", op.show(), stat.loads.get(), stat.bytes.get()));
                }
                Ok(p.unwrap_or(Pos::Unspec))
            })?;
            ctx.outcome(worst << 8 | levels);
            Ok(())
        };
        fams.push(corpus_family(
            "bfs-layouts",
            "block loads of every operation from every reachable cursor state",
            cuts_corpus(if deep { 5 } else { 4 }, if deep { 3 } else { 2 }, vec![1]),
            run,
        ));
        fams.push(corpus_family(
            "bfs-deep-chain",
            "block loads of every operation from every reachable cursor state",
            if deep { uniform_layouts(vec![8, 9], vec![1], vec![2], vec![1], 3) } else { uniform_layouts(vec![5, 6, 8], vec![1], vec![2], vec![1], 2) },
            run,
        ));
        fams.push(corpus_family(
            "bfs-written",
            "block loads of every operation from every reachable cursor state",
            written(if deep { 4 } else { 3 }, &[Shape::Tiny, Shape::Val1100, Shape::Key520, Shape::Key1100], vec![0, 1, 2], vec![2], vec![0]),
            run,
        ));
        fams.push(corpus_family(
            "bfs-codecs",
            "block loads of every operation from every reachable cursor state",
            layouts(2, 1, &[1], &[1, 2, 3, 4, 5]),
            run,
        ));
    }
    fams.push(corpus_family(
        "long",
        "block loads of every seek to each key and gap from fresh, reset and used cursors, first, last, and full walks both ways",
        long_written(if deep { vec![100, 1000, 5000, 20000, 70000] } else { vec![100, 1000, 5000] }, default_cfgs()),
        |f, ctx| long_loads(f, &uniform_probes(f.ents.len()), ctx),
    ));
    fams.push(corpus_family(
        "long-layouts",
        "as above, on layouts with many blocks at each level",
        uniform_layouts(if deep { vec![17, 64, 100, 250, 600] } else { vec![17, 64, 100] }, vec![1, 2, 3], vec![2, 3, 5, 1000], vec![1, 8], if deep { 6 } else { 4 }),
        |f, ctx| long_loads(f, &uniform_probes(f.ents.len()), ctx),
    ));
    fams.push(corpus_family(
        "histories",
        "block loads along all histories of 3 operations, on cursors never cloned",
        cuts_corpus(if deep { 4 } else { 3 }, 2, vec![1]),
        |f, ctx| {
            let mut p = few_probes(&f.ents);
            p.truncate(5);
            let ops = ops_with(&p);
            let n = ops.len() as u64;
            let mut worst = 0;
            for s in 0..n * n * n {
                let (mut c, levels, max) = open_counted(f)?;
                let mut pos = Pos::Fresh;
                let mut x = s;
                for _ in 0..3 {
                    let op = &ops[(x % n) as usize];
                    x /= n;
                    pos = bounded_step(&mut c, f, pos, op, levels, max, &mut worst).map_err(|m| format!("history {s}: {m}; {}", f.ctx()))?;
                }
                ctx.transitions += 3;
                ctx.traces += 1;
            }
            ctx.states_of(f.state() ^ 3, 1 + f.ents.len() as u64);
            Ok(())
        },
    ));
    fams.push(extreme_levels_family("extreme-levels", |f, ctx| long_loads(f, &probes_for(&f.ents), ctx)));
    fams.push(wide_family("wide-blocks", deep, false, |f, idx, ctx| long_loads(f, &wide_probes(f, idx), ctx)));
    fams.push(big_family("big-blocks", "block loads as above", deep, |f, ctx| long_loads(f, &probes_for(&f.ents), ctx)));
    fams.push(corpus_family(
        "version-1",
        "block loads as above, under a version-1 trailer",
        long_written(vec![0, 1, 2, 10, 100, 1000], default_cfgs().into_iter().map(|mut c| { c.levels = 0; c }).collect()),
        |v2, ctx| {
            let f = FileCase { bytes: Arc::new(fmt::to_v1(&v2.bytes)), ents: v2.ents.clone(), desc: format!("v1 of {}", v2.desc) };
            long_loads(&f, &uniform_probes(f.ents.len()), ctx)
        },
    ));
    fams.push(giant_family(false, |f, idx, ctx| long_loads(f, &wide_probes(f, &idx[1..3]), ctx)));
    Check {
        property: "C16",
        level: "model_checking",
        rule: "a state is one reachable state of the real cursor over an instrumented source; a transition one public operation whose block loads (reads starting at a block) are counted against 2 x (index levels + 2)",
        assumptions: assumptions(),
        families: fams,
    }
}

/// As `bfs`, but the values returned are not judged (they are C02's and C03's subject).
#[cfg(grenad_verif)]
fn bfs_lenient<P>(start: ReaderCursor<LoadSrc>, f: &FileCase, ops: &[Op], ctx: &mut Ctx, probe: P) -> Result<(), String>
where
    P: FnMut(&mut dyn FnMut() -> Result<Pos, String>, &Op) -> Result<Pos, String>,
{
    bfs(start, f, ops, 100_000, ctx, probe).map(drop)
}

fn long_loads(f: &FileCase, probes: &[Vec<u8>], ctx: &mut Ctx) -> Result<(), String> {
    let (fresh, levels, max) = open_counted(f)?;
    let mut worst = 0u64;
    let n = f.ents.len();
    let mut used = fresh.clone();
    let say = |m: String| format!("{m}; {}", f.ctx());
    for op in [Op::First, Op::Last, Op::Next, Op::Prev] {
        let mut c = fresh.clone();
        bounded_step(&mut c, f, Pos::Fresh, &op, levels, max, &mut worst).map_err(say)?;
    }
    for q in probes {
        for op in [Op::Ge(q.clone()), Op::Le(q.clone()), Op::Eq(q.clone())] {
            let mut c = fresh.clone();
            let p = bounded_step(&mut c, f, Pos::Fresh, &op, levels, max, &mut worst).map_err(say)?;
            for m in [Op::Next, Op::Prev] {
                let mut d = c.clone();
                bounded_step(&mut d, f, p, &m, levels, max, &mut worst).map_err(say)?;
            }
            // a cursor with a long history
            let p = bounded_step(&mut used, f, Pos::Unspec, &op, levels, max, &mut worst).map_err(say)?;
            bounded_step(&mut used, f, p, &Op::Next, levels, max, &mut worst).map_err(say)?;
            bounded_step(&mut used, f, Pos::Unspec, &Op::Prev, levels, max, &mut worst).map_err(say)?;
            ctx.transitions += 6;
        }
    }
    for (op, rev) in [(Op::Next, false), (Op::Prev, true)] {
        let mut c = fresh.clone();
        let mut pos = Pos::Fresh;
        for _ in 0..=n {
            pos = bounded_step(&mut c, f, pos, &op, levels, max, &mut worst).map_err(say)?;
        }
        // and past the end
        for _ in 0..3 {
            bounded_step(&mut c, f, Pos::Unspec, &op, levels, max, &mut worst).map_err(say)?;
        }
        let back = if rev { Op::Next } else { Op::Prev };
        for _ in 0..3 {
            bounded_step(&mut c, f, Pos::Unspec, &back, levels, max, &mut worst).map_err(say)?;
        }
        ctx.transitions += n as u64 + 7;
    }
    ctx.traces += probes.len() as u64;
    ctx.states_of(f.state(), n as u64 + 2);
    ctx.outcome(worst << 8 | levels);
    ctx.sample(|| format!("{}: at most {worst} loads per operation, bound {}", f.ctx(), 2 * (levels + 2)));
    Ok(())
}
