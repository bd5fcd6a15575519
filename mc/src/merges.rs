//! C06, C07, C08: merger and sorter.
use crate::engine::{family, hash, Check, Ctx, Family, H, rep};
use crate::fmt::{self, Ents};
use crate::gen::*;
use crate::io::{Creator, Env, Src};
use crate::model::*;
use grenad::{ChunkCreator, CursorVec, MergeFunction, Merger, ReaderCursor, SortAlgorithm, SorterBuilder, TempFileChunk};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Seek};
use std::num::NonZeroUsize;
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ C06

/// How a merge function answers.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// Order-sensitive digest of key and all values, owned; a lone value unchanged, borrowed.
    Digest,
    /// The same with the lone value copied.
    DigestOwned,
    /// Borrows the first value.
    First,
    /// Borrows the last value.
    Last,
    /// Concatenation.
    Concat,
    /// The empty value for several values.
    Empty,
}
const KINDS: [Kind; 6] = [Kind::Digest, Kind::DigestOwned, Kind::First, Kind::Last, Kind::Concat, Kind::Empty];

type CallLog = RefCell<Vec<(Vec<u8>, Vec<Vec<u8>>)>>;
struct LogMerge {
    kind: Kind,
    log: Rc<CallLog>,
}
fn apply(kind: Kind, key: &[u8], values: &[Vec<u8>]) -> Vec<u8> {
    if values.len() == 1 {
        return values[0].clone();
    }
    match kind {
        Kind::Digest | Kind::DigestOwned => {
            let mut v = vec![];
            v.extend((key.len() as u32).to_be_bytes());
            v.extend(key);
            for x in values {
                v.push(0xEE);
                v.extend((x.len() as u32).to_be_bytes());
                v.extend(x);
            }
            v
        }
        Kind::First => values[0].clone(),
        Kind::Last => values.last().unwrap().clone(),
        Kind::Concat => values.concat(),
        Kind::Empty => vec![],
    }
}
impl MergeFunction for LogMerge {
    type Error = std::convert::Infallible;
    fn merge<'a>(&self, key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, Self::Error> {
        let vs: Vec<Vec<u8>> = values.iter().map(|v| v.to_vec()).collect();
        let out = match (self.kind, values.len()) {
            (Kind::First, _) => values[0].clone(),
            (Kind::Last, _) => values[values.len() - 1].clone(),
            (Kind::DigestOwned, 1) => Cow::Owned(vs[0].clone()),
            (_, 1) => values[0].clone(),
            (k, _) => Cow::Owned(apply(k, key, &vs)),
        };
        self.log.borrow_mut().push((key.to_vec(), vs));
        Ok(out)
    }
}

struct Source {
    ents: Ents,
    cfg: Cfg,
}
/// `how`: how sources are added, bit 0..: add/push/extend; `out`: 0 stream, 1 writer.
fn check_merge(sources: &[Source], kind: Kind, how: usize, out: usize, d: &dyn Fn() -> String, ctx: &mut Ctx) -> Result<(), String> {
    let mut cursors = vec![];
    for (i, s) in sources.iter().enumerate() {
        let b = s.cfg.write(&s.ents).map_err(|e| format!("{e}; {}", d()))?;
        let mut c = open(Src::new(&Arc::new(b)), &d())?;
        if how >= 4 && i % 2 == 0 {
            // A cursor with a history, reset.
            let _ = c.move_on_last().map_err(rep).map_err(|e| format!("{e}; {}", d()))?;
            c.reset();
        }
        cursors.push(c);
    }
    // The model.
    let mut model: BTreeMap<&[u8], Vec<Vec<u8>>> = BTreeMap::new();
    for s in sources {
        for (k, v) in &s.ents {
            model.entry(k).or_default().push(v.clone());
        }
    }
    let log = Rc::new(RefCell::new(vec![]));
    let mf = LogMerge { kind, log: log.clone() };
    let builder = add_all(Merger::builder(mf), cursors, how % 4);
    let merger = builder.build();
    let d2 = |m: String| format!("{m}; {}", d());
    if out == 0 {
        let mut it = merger.into_stream_merger_iter().map_err(|e| d2(format!("into_stream_merger_iter: {e}")))?;
        for (step, (k, vs)) in model.iter().enumerate() {
            let v = apply(kind, k, vs);
            let got = it.next().map_err(|e| d2(format!("next #{step}: {e}")))?;
            same(|| d2(format!("merger step {step}")), got, Some((k, &v[..])))?;
        }
        for _ in 0..2 {
            let got = it.next().map_err(|e| d2(format!("last next: {e}")))?;
            same(|| d2("merger end".into()), got, None)?;
        }
    } else {
        let cfg = Cfg::new(0, 1024, 2, (out - 1) as u8);
        let mut w = cfg.builder().memory();
        merger.write_into_stream_writer(&mut w).map_err(|e| d2(format!("write_into_stream_writer: {e}")))?;
        let b = w.into_inner().map_err(|e| d2(format!("into_inner: {e}")))?;
        let ents: Ents = model.iter().map(|(k, vs)| (k.to_vec(), apply(kind, k, vs))).collect();
        let mut c = open(Src::new(&Arc::new(b)), &d())?;
        if c.len() != ents.len() as u64 {
            return Err(d2(format!("merged file of {} entries, {} expected", c.len(), ents.len())));
        }
        scan_forward(&mut c, &ents, &d())?;
    }
    // The calls for keys held by several sources: exactly once each, values in source order.
    let log = log.borrow();
    let multi: Vec<_> = log.iter().filter(|(_, v)| v.len() != 1).collect();
    let mut expected: Vec<(&[u8], &Vec<Vec<u8>>)> = model.iter().filter(|(_, v)| v.len() > 1).map(|(k, v)| (*k, v)).collect();
    expected.sort();
    if multi.len() != expected.len() {
        return Err(d2(format!("{} merge calls over several values, {} keys held by several sources", multi.len(), expected.len())));
    }
    let mut multi: Vec<(&[u8], &Vec<Vec<u8>>)> = multi.into_iter().map(|(k, v)| (&k[..], v)).collect();
    multi.sort();
    for (m, e) in multi.iter().zip(&expected) {
        if m != e {
            return Err(d2(format!("merge called with key {} and values {:?} instead of {} {:?}", hex(m.0), show_vals(m.1), hex(e.0), show_vals(e.1))));
        }
    }
    let mut lone: Vec<&[u8]> = log.iter().filter(|(_, v)| v.len() == 1).map(|(k, _)| &k[..]).collect();
    lone.sort();
    for w in lone.windows(2) {
        if w[0] == w[1] {
            return Err(d2(format!("key {} held by one source merged twice", hex(w[0]))));
        }
    }
    if lone.iter().any(|k| model.get(k).map_or(true, |v| v.len() != 1)) {
        return Err(d2("merge called with one value for a key held by several sources".into()));
    }
    ctx.transitions += model.len() as u64 + 2;
    ctx.traces += 1;
    ctx.nontrivial += (!expected.is_empty()) as u64;
    let mut h = H::new();
    for s in sources {
        for (k, v) in &s.ents {
            h.b(k).b(v);
        }
        h.u(0x5E9A);
    }
    // A state: the sources and the number of keys merged so far.
    ctx.states_of(h.get(), model.len() as u64 + 1);
    let mut o = H::new();
    for (k, vs) in &model {
        o.b(k).u(vs.len() as u64);
    }
    ctx.outcome(o.get());
    ctx.sample(d);
    Ok(())
}
fn show_vals(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().take(6).map(|x| hex(x)).collect()
}
fn add_all<R, MF>(mut b: grenad::MergerBuilder<R, MF>, cursors: Vec<ReaderCursor<R>>, how: usize) -> grenad::MergerBuilder<R, MF> {
    match how {
        0 => b.extend(cursors),
        1 => {
            for c in cursors {
                b.push(c);
            }
        }
        2 => {
            for c in cursors {
                b = b.add(c);
            }
        }
        _ => {
            let mut it = cursors.into_iter();
            if let Some(c) = it.next() {
                b.push(c);
            }
            b.extend(it.by_ref().take(2).collect::<Vec<_>>());
            if let Some(c) = it.next() {
                b = b.add(c);
            }
            b.extend(it);
        }
    }
    b
}
fn source_cfg(i: usize) -> Cfg {
    [Cfg::new(0, 1024, 1, 0), Cfg::new(5, 1024, 8, 1), Cfg::new(0, 1024, 2, 2), Cfg::new(3, 2048, 3, 0)][i % 4]
}
/// Every assignment of key subsets to `k` sources.
fn overlaps(name: &'static str, k: usize, universe: Vec<Vec<u8>>, big: bool) -> Family {
    let u = universe.len() as u32;
    let n = (1u64 << u).pow(k as u32);
    let kd: Vec<String> = universe.iter().map(|k| hex(k)).collect();
    family(
        name,
        format!(
            "{k} sources, each any subset of {kd:?}{}; merge functions, ways of adding and output rotate over the cases",
            if big { ", values of 1100 bytes: a block per entry" } else { "" }
        ),
        n * 2,
        move |case, ctx| {
            let out = case as usize % 2;
            let c = case / 2;
            let kind = KINDS[((c ^ (c / 7)) % 6) as usize];
            let how = ((c / 3) % 8) as usize;
            let mut r = Radix(c);
            let sources: Vec<Source> = (0..k)
                .map(|i| {
                    let mask = r.take(1 << u) as u64;
                    let ents = subset(&universe, mask)
                        .into_iter()
                        .enumerate()
                        .map(|(j, key)| {
                            let mut v = vec![i as u8; (i + j) % 3];
                            if big {
                                v = bytes((i * 8 + j) as u64, 1100, 2);
                            }
                            (key, v)
                        })
                        .collect();
                    Source { ents, cfg: source_cfg(i + c as usize) }
                })
                .collect();
            let d = || format!("merge of {:?} with {kind:?}, how {how}, out {out}", sources.iter().map(|s| show_keys(&s.ents)).collect::<Vec<_>>());
            check_merge(&sources, kind, how, out * 2, &d, ctx)
        },
    )
}
fn many_sources(deep: bool) -> Family {
    let ks: Vec<usize> = if deep { (0..=80).chain([127, 128, 255, 256, 257, 300, 512, 1000, 2000]).collect() } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 255, 256, 257, 300, 1000] };
    let dims = [ks.len(), 6, 6];
    family(
        "many-sources",
        format!("k in {ks:?} sources x 6 overlap patterns (all the same keys, disjoint, interleaved, staircase, reversed staircase, modular) x 6 merge functions"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let kind = KINDS[r.take(6)];
            let pat = r.take(6);
            let k = r.pick(&ks);
            let key = |i: usize| (i as u32).to_be_bytes()[1..].to_vec();
            let m = if k > 300 { 3 } else { 6 };
            let sources: Vec<Source> = (0..k)
                .map(|i| {
                    let ks: Vec<usize> = match pat {
                        0 => (0..m).collect(),
                        1 => (0..m).map(|j| i * m + j).collect(),
                        2 => (0..m).map(|j| j * k + i).collect(),
                        3 => (i..i + m).collect(),
                        4 => (k - i..k - i + m).collect(),
                        _ => (0..3 * m).filter(|j| (i * 7 + j) % 3 == 0).collect(),
                    };
                    Source { ents: ks.into_iter().map(|x| (key(x), (i as u16).to_be_bytes().to_vec())).collect(), cfg: source_cfg(i) }
                })
                .collect();
            let d = || format!("{k} sources, pattern {pat}, {kind:?}");
            check_merge(&sources, kind, case as usize % 8, (case % 3) as usize, &d, ctx)
        },
    )
}
fn long_sources(deep: bool) -> Family {
    let ns: Vec<usize> = if deep { vec![30, 100, 700, 3000, 20000] } else { vec![30, 100, 700] };
    let dims = [ns.len(), 5, 5, 4, 6];
    family(
        "long-sources",
        format!("2..6 sources of n in {ns:?} keys with strides 1..5 (overlapping at their multiples), 4 block layouts, 6 merge functions"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (n, k, stride, lay) = (r.pick(&ns), 2 + r.take(5), 1 + r.take(5), r.take(4));
            let kind = KINDS[r.take(6)];
            let sources: Vec<Source> = (0..k)
                .map(|i| {
                    let st = (stride * (i + 1)) % 5 + 1;
                    let off = (i * stride) % 3;
                    let ents = (0..n / (1 + i % 2))
                        .map(|j| {
                            let x = off + j * st;
                            (uniform_key(x), bytes((i * 1000 + j) as u64, (i + j) % 40, 2))
                        })
                        .collect();
                    let cfg = match lay {
                        0 => source_cfg(i),
                        1 => Cfg::new(0, 1024, 1, 3),
                        2 => Cfg::new(4, 4096, 64, 1),
                        _ => Cfg::new(0, 1 << 20, 8, 0),
                    };
                    Source { ents, cfg }
                })
                .collect();
            let d = || format!("{k} sources of {n}, stride {stride}, layout {lay}, {kind:?}");
            check_merge(&sources, kind, case as usize % 8, (case % 3) as usize, &d, ctx)
        },
    )
}
/// Keys sharing a prefix of each length, spread over sources.
fn merge_tails(deep: bool) -> Family {
    let lens = prefix_lens(deep);
    let dims = [lens.len(), 12, 6];
    family(
        "common-prefixes",
        format!("keys of a common prefix of n and a common suffix of m bytes, (n, m) in {lens:?}, and parts between over {{00,41,ff}} up to length 2, spread over 2..=4 sources in 12 ways, 6 merge functions"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (n, way, kind) = (r.pick(&lens), r.take(12), KINDS[r.take(6)]);
            let k = 2 + way % 3;
            let tails = strings(&[0x00, 0x41, 0xff], 2);
            let sources: Vec<Source> = (0..k)
                .map(|i| {
                    let ents = tails
                        .iter()
                        .enumerate()
                        .filter(|(j, _)| match way / 3 {
                            0 => j % k == i,
                            1 => (j + i) % 3 != 0,
                            2 => j % (i + 1) == 0,
                            _ => (j / 2) % k == k - 1 - i,
                        })
                        .map(|(j, t)| (tailed(n, t), vec![i as u8; j % 4]))
                        .collect();
                    Source { ents: crate::gen::sorted_unique(ents), cfg: source_cfg(i) }
                })
                .collect();
            let d = || format!("common prefix and suffix of {n:?}, way {way}, {kind:?}");
            check_merge(&sources, kind, case as usize % 8, (case % 3) as usize, &d, ctx)
        },
    )
}
/// Every byte as a key, spread over sources.
fn merge_bytes() -> Family {
    let dims = [5, 3, 6];
    family("all-bytes", "keys of one byte after 0, 3 or 8 bytes, all 256 spread over 2..=4 sources in 5 ways, 6 merge functions", product(&dims), |case, ctx| {
        let mut r = Radix(case);
        let (way, before, kind) = (r.take(5), [0usize, 3, 8][r.take(3)], KINDS[r.take(6)]);
        let k = 2 + way % 3;
        let sources: Vec<Source> = (0..k)
            .map(|i| {
                let own = |b: usize| match way {
                    0 => true,
                    1 => b % k == i,
                    2 => (b >> 5) & 1 == i & 1,
                    3 => (b >> 7) == i & 1,
                    _ => (b + i) % 3 != 0,
                };
                let ents = (0..256usize).filter(|b| own(*b)).map(|b| ([vec![0x6b; before], vec![b as u8]].concat(), vec![i as u8; b % 3])).collect();
                Source { ents, cfg: source_cfg(i) }
            })
            .collect();
        let d = || format!("all bytes after {before}, way {way}, {kind:?}");
        check_merge(&sources, kind, case as usize % 8, (case % 3) as usize, &d, ctx)
    })
}
/// More sources than 16 bits count.
fn huge_k() -> Family {
    family("65537-sources", "65537 sources sharing two keys, with a private key each hundredth: values in source order", 1, |_, ctx| {
        let k = 65537u32;
        let sources: Vec<Source> = (0..k)
            .map(|i| {
                let mut e: Ents = vec![(vec![1], i.to_be_bytes().to_vec())];
                if i % 100 == 3 {
                    let mut p = vec![2];
                    p.extend(i.to_be_bytes());
                    e.push((p, vec![]));
                }
                Source { ents: e, cfg: Cfg::new(0, 1024, 8, 0) }
            })
            .collect();
        check_merge(&sources, Kind::Concat, 0, 0, &|| "65537 sources".into(), ctx)
    })
}
/// `&MF` and `Either` merge functions.
/// Cursors over one source, whose position they all move.
fn shared_merge() -> Family {
    let cfgs = [Cfg::new(0, 1024, 1, 0), Cfg::new(0, 1024, 8, 2), Cfg::new(5, 1024, 2, 1)];
    let ns = [0usize, 1, 5, 60, 400];
    let dims = [cfgs.len(), ns.len(), 5, 2];
    family("shared-source", format!("1..=5 cursors over one file and one source (opened on their own, or cloned) x {ns:?} entries x {} configurations: every key once, with its value as often", cfgs.len()), product(&dims), move |case, ctx| {
        let mut r = Radix(case);
        let (cfg, n, k, cloned) = (r.pick(&cfgs), r.pick(&ns), 1 + r.take(5), r.take(2) == 1);
        let ents: Ents = (0..n).map(|i| (uniform_key(i), token(i, (i * 31) % 200))).collect();
        let d = format!("{k} cursors over one shared source, cloned {cloned}, {n} entries {cfg:?}");
        let src = crate::io::SharedSrc::new(&Arc::new(cfg.write(&ents)?));
        let mut cursors = vec![open(src.clone(), &d)?];
        for _ in 1..k {
            let c = if cloned { cursors[0].clone() } else { open(src.clone(), &d)? };
            cursors.push(c);
        }
        let out = collect_merger(Concat, cursors).map_err(|e| format!("{e}; {d}"))?;
        let want: Ents = ents.iter().map(|(key, v)| (key.clone(), v.repeat(k))).collect();
        if out != want {
            let i = out.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(out.len().min(want.len()));
            return Err(format!("{} entries instead of {}, first difference at {i}; {d}", out.len(), want.len()));
        }
        ctx.transitions += (n + 1) as u64;
        ctx.traces += 1;
        ctx.states_of(H::new().u(case).u(0x54A).get(), n as u64 + 1);
        Ok(())
    })
}
fn merge_impls() -> Family {
    family("merge-function-impls", "the merge function given by reference, and as either side of an Either, 3 sources x 64 overlap patterns", 64 * 3, |case, ctx| {
        let mut r = Radix(case);
        let w = r.take(3);
        let mask = r.take(64);
        let log = Rc::new(RefCell::new(vec![]));
        let mf = LogMerge { kind: Kind::Digest, log: log.clone() };
        let universe = [vec![], vec![7u8]];
        let mut cursors = vec![];
        let mut model: BTreeMap<Vec<u8>, Vec<Vec<u8>>> = BTreeMap::new();
        for i in 0..3usize {
            let mut e: Ents = vec![];
            for (j, k) in universe.iter().enumerate() {
                if mask >> (i * 2 + j) & 1 == 1 {
                    e.push((k.clone(), vec![i as u8, j as u8]));
                    model.entry(k.clone()).or_default().push(vec![i as u8, j as u8]);
                }
            }
            let b = Cfg::new(0, 1024, 1, 0).write(&e)?;
            cursors.push(open(Src::new(&Arc::new(b)), "impls")?);
        }
        let expected: Ents = model.iter().map(|(k, v)| (k.clone(), apply(Kind::Digest, k, v))).collect();
        let got = match w {
            0 => collect_merger(&mf, cursors),
            1 => collect_merger(either::Either::<_, LogMerge>::Left(mf), cursors),
            _ => collect_merger(either::Either::<LogMerge, _>::Right(mf), cursors),
        }?;
        if got != expected {
            return Err(format!("merge function form {w}, mask {mask}: {} instead of {}", show_keys(&got), show_keys(&expected)));
        }
        ctx.transitions += expected.len() as u64 + 1;
        ctx.traces += 1;
        ctx.states_of(H::new().u(case).u(0x1A).get(), expected.len() as u64);
        Ok(())
    })
}
fn collect_merger<R: Read + Seek, MF: MergeFunction>(mf: MF, cursors: Vec<ReaderCursor<R>>) -> Result<Ents, String>
where
    MF::Error: std::fmt::Debug,
{
    let mut b = Merger::builder(mf);
    b.extend(cursors);
    let mut it = b.build().into_stream_merger_iter().map_err(rep).map_err(|e| format!("into_stream_merger_iter: {e}"))?;
    let mut v = vec![];
    while let Some((k, x)) = it.next().map_err(rep).map_err(|e| format!("merger next: {e:?}"))? {
        v.push((k.to_vec(), x.to_vec()));
    }
    Ok(v)
}
pub fn c06(deep: bool) -> Check {
    let u3 = vec![vec![], vec![0], vec![0, 0]];
    let u4 = vec![vec![], b"a".to_vec(), b"ab".to_vec(), b"b".to_vec()];
    let mut fams = vec![
        overlaps("overlaps-0", 0, u3.clone(), false),
        overlaps("overlaps-1", 1, u4.clone(), false),
        overlaps("overlaps-2", 2, u4.clone(), false),
        overlaps("overlaps-3", 3, u4.clone(), false),
        overlaps("overlaps-4", 4, if deep { u4.clone() } else { u3.clone() }, false),
        overlaps("overlaps-5", 5, u3.clone(), false),
        overlaps("overlaps-6", 6, u3.clone(), false),
        overlaps("overlaps-7", 7, vec![vec![], b"x".to_vec()], false),
        overlaps("overlaps-blocks", 3, u4.clone(), true),
        overlaps("overlaps-12", 12, vec![b"x".to_vec()], false),
        many_sources(deep),
        long_sources(deep),
        merge_impls(),
        shared_merge(),
        merge_tails(deep),
        merge_bytes(),
        crate::inter::mergers(),
        crate::hop::mergers(),
        huge_k(),
    ];
    if deep {
        fams.push(overlaps("overlaps-7-keys", 7, u3, false));
        fams.push(overlaps("overlaps-9", 9, vec![vec![], b"x".to_vec()], false));
        fams.push(overlaps("overlaps-5-keys", 3, strings(&[0, 0xff], 2), false));
    }
    Check {
        property: "C06",
        level: "model_checking",
        rule: "a state is a (source contents, number of merged keys) pair, a transition one step of the real merger, a trace one complete merge compared with the model and the merge calls it made",
        assumptions: vec![
            "small scope over overlap patterns; sources are files of the real writer".into(),
            "calls of the merge function for keys held by one source are only required not to be repeated".into(),
        ],
        families: fams,
    }
}

// ------------------------------------------------------------------ sorter driver

#[derive(Clone, Debug)]
pub struct SCfg {
    /// `dump_threshold`, when called.
    pub budget: Option<usize>,
    /// Initial buffer size through the hook.
    pub initial: Option<usize>,
    /// Lowers the minimum budget through the hook.
    pub small: bool,
    pub realloc: bool,
    pub max_chunks: Option<usize>,
    pub unstable: bool,
    pub parallel: bool,
    pub file: Option<Cfg>,
    /// 0 CursorVec, 1 TempFileChunk, 2 instrumented.
    pub creator: u8,
    /// 0 stream, 1 writer, 2 cursors merged, 3 cursors merged in pairs, the results merged.
    pub out: u8,
    /// Order of the setters: 0 chunk creator last, 1 first, 2 in between, the others reversed.
    pub setters: u8,
    /// Merge function, see `SMerge`.
    pub merge: u8,
}
impl SCfg {
    pub fn small(budget: usize, initial: usize, realloc: bool, max_chunks: usize) -> SCfg {
        SCfg { budget: Some(budget), initial: Some(initial), small: true, realloc, max_chunks: Some(max_chunks), unstable: false, parallel: false, file: None, creator: 0, out: 0, setters: 0, merge: 0 }
    }
    pub fn real(budget: Option<usize>, realloc: bool, max_chunks: Option<usize>) -> SCfg {
        SCfg { budget, initial: None, small: false, realloc, max_chunks, unstable: false, parallel: false, file: None, creator: 0, out: 0, setters: 0, merge: 0 }
    }
    /// The builder set up in the order that `setters` says.
    pub fn builder<MF, CC: ChunkCreator>(&self, mf: MF, cc: CC) -> SorterBuilder<MF, CC> {
        self.limits();
        let mut b = SorterBuilder::new(mf);
        match self.setters {
            0 => {
                (0..5).for_each(|i| self.set(&mut b, i));
                b.chunk_creator(cc)
            }
            1 => {
                let mut b = b.chunk_creator(cc);
                (0..5).for_each(|i| self.set(&mut b, i));
                b
            }
            _ => {
                (3..5).rev().for_each(|i| self.set(&mut b, i));
                let mut b = b.chunk_creator(cc);
                (0..3).rev().for_each(|i| self.set(&mut b, i));
                b
            }
        }
    }
    fn set<MF, CC>(&self, b: &mut SorterBuilder<MF, CC>, i: usize) {
        match (i, self.budget, self.max_chunks, self.file) {
            (0, Some(x), _, _) => {
                b.dump_threshold(x);
            }
            (1, ..) => {
                b.allow_realloc(self.realloc);
            }
            (2, _, Some(m), _) => {
                b.max_nb_chunks(m);
            }
            (3, ..) => {
                if self.unstable {
                    b.sort_algorithm(SortAlgorithm::Unstable);
                }
                if self.parallel {
                    crate::alloc::shared();
                    b.sort_in_parallel(true);
                }
            }
            (4, _, _, Some(c)) => {
                b.chunk_compression_type(ctype(c.codec)).chunk_compression_level(c.level).index_levels(c.levels);
                if let Some(i) = c.interval {
                    b.index_key_interval(NonZeroUsize::new(i).unwrap());
                }
                if let Some(s) = c.block {
                    b.block_size(s);
                }
            }
            _ => (),
        }
    }
    /// Installs this configuration's overrides on the current thread.
    pub fn limits(&self) {
        #[cfg(grenad_verif)]
        {
            let min = if self.small { Some(1) } else { None };
            grenad::verif::set_sorter_limits(min, if self.small { self.initial } else { None });
        }
    }
}

/// Concatenation: associative, a lone value unchanged.
pub struct Concat;
impl MergeFunction for Concat {
    type Error = std::convert::Infallible;
    fn merge<'a>(&self, _key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, Self::Error> {
        Ok(if values.len() == 1 { values[0].clone() } else { Cow::Owned(values.concat()) })
    }
}

/// Associative merge functions that return a lone value unchanged.
#[derive(Clone, Copy)]
pub struct SMerge(pub u8);
pub const SMERGES: [&str; 6] = ["concatenation", "first", "last", "greatest", "longest common prefix", "first for the empty key, last for others"];
impl SMerge {
    fn of<'a>(self, key: &[u8], mut values: impl Iterator<Item = &'a [u8]>) -> &'a [u8] {
        let first = values.next().unwrap();
        match self.0 {
            1 => first,
            5 if key.is_empty() => first,
            5 => values.last().unwrap_or(first),
            2 => values.last().unwrap_or(first),
            3 => values.fold(first, |a, b| a.max(b)),
            _ => values.fold(first, |a, b| &a[..a.iter().zip(b).take_while(|(x, y)| x == y).count()]),
        }
    }
}
impl MergeFunction for SMerge {
    type Error = std::convert::Infallible;
    fn merge<'a>(&self, key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, Self::Error> {
        if self.0 == 0 {
            return Concat.merge(key, values);
        }
        if let Some(v) = values.iter().map(|v| if let Cow::Borrowed(b) = v { Some(*b) } else { None }).collect::<Option<Vec<&'a [u8]>>>() {
            return Ok(Cow::Borrowed(self.of(key, v.into_iter())));
        }
        Ok(Cow::Owned(self.of(key, values.iter().map(|v| &v[..])).to_vec()))
    }
}

pub fn drive<CC: ChunkCreator>(cfg: &SCfg, cc: CC, ents: &[(Vec<u8>, Vec<u8>)]) -> Result<Ents, String> {
    let mf = SMerge(cfg.merge);
    let mut s = cfg.builder(mf, cc).build();
    for (i, (k, v)) in ents.iter().enumerate() {
        s.insert(k, v).map_err(rep).map_err(|e| format!("insert {i}: {e}"))?;
    }
    let mut out = vec![];
    match cfg.out {
        0 => {
            let mut it = s.into_stream_merger_iter().map_err(rep).map_err(|e| format!("into_stream_merger_iter: {e}"))?;
            while let Some((k, v)) = it.next().map_err(rep).map_err(|e| format!("next: {e}"))? {
                out.push((k.to_vec(), v.to_vec()));
            }
        }
        1 => {
            let mut w = Cfg::new(0, 1024, 2, 1).builder().memory();
            s.write_into_stream_writer(&mut w).map_err(rep).map_err(|e| format!("write_into_stream_writer: {e}"))?;
            let b = w.into_inner().map_err(rep).map_err(|e| format!("into_inner: {e}"))?;
            let mut c = open(Src::new(&Arc::new(b)), "sorter output")?;
            while let Some((k, v)) = c.move_on_next().map_err(rep).map_err(|e| format!("next: {e}"))? {
                out.push((k.to_vec(), v.to_vec()));
            }
        }
        2 => {
            let cursors = s.into_reader_cursors().map_err(rep).map_err(|e| format!("into_reader_cursors: {e}"))?;
            out = collect_merger(mf, cursors)?;
        }
        _ => {
            let mut cursors = s.into_reader_cursors().map_err(rep).map_err(|e| format!("into_reader_cursors: {e}"))?;
            let mut pairs = vec![];
            while !cursors.is_empty() {
                let rest = cursors.split_off(cursors.len().min(2));
                let mut b = Merger::builder(mf);
                b.extend(cursors);
                let mut w = Cfg::new(0, 1024, 2, 0).builder().memory();
                b.build().write_into_stream_writer(&mut w).map_err(rep).map_err(|e| format!("write_into_stream_writer: {e}"))?;
                pairs.push(open(Src::new(&Arc::new(w.into_inner().map_err(rep).map_err(|e| e.to_string())?)), "merged pair")?);
                cursors = rest;
            }
            out = collect_merger(mf, pairs)?;
        }
    }
    Ok(out)
}
/// Self-delimiting value: recoverable from a concatenation in any order.
pub fn token(id: usize, pad: usize) -> Vec<u8> {
    let mut v = (pad as u32).to_be_bytes().to_vec();
    v.extend((id as u32).to_be_bytes());
    v.extend(bytes(id as u64, pad, 2));
    v
}
fn untoken(mut v: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut out = vec![];
    while !v.is_empty() {
        if v.len() < 8 {
            return Err("broken value".into());
        }
        let pad = u32::from_be_bytes(v[..4].try_into().unwrap()) as usize;
        if v.len() < 8 + pad {
            return Err("broken value".into());
        }
        out.push(v[..8 + pad].to_vec());
        v = &v[8 + pad..];
    }
    out.sort();
    Ok(out)
}
/// `ents` in insertion order; under the unstable algorithm concatenated values must be tokens or empty.
pub fn check_sorted(out: &Ents, ents: &[(Vec<u8>, Vec<u8>)], unstable: bool) -> Result<(), String> {
    check_sorted_by(SMerge(0), out, ents, unstable)
}
fn check_sorted_by(mf: SMerge, out: &Ents, ents: &[(Vec<u8>, Vec<u8>)], unstable: bool) -> Result<(), String> {
    let mut model: BTreeMap<&[u8], Vec<u8>> = BTreeMap::new();
    if mf.0 == 0 {
        for (k, v) in ents {
            model.entry(k).or_default().extend(v);
        }
    } else {
        let mut values: BTreeMap<&[u8], Vec<&[u8]>> = BTreeMap::new();
        for (k, v) in ents {
            values.entry(k).or_default().push(v);
        }
        for (k, vs) in values {
            let mut v = mf.of(k, vs.iter().copied());
            if unstable && ![3, 4].contains(&mf.0) {
                // Whatever value comes first or last.
                v = out.iter().find(|o| o.0 == k).and_then(|o| vs.iter().find(|v| ***v == o.1[..])).copied().unwrap_or(v);
            }
            model.insert(k, v.to_vec());
        }
    }
    for (i, w) in out.windows(2).enumerate() {
        if w[0].0 >= w[1].0 {
            return Err(format!("output keys {} then {} at {i}", hex(&w[0].0), hex(&w[1].0)));
        }
    }
    if out.len() != model.len() {
        return Err(format!("{} output keys for {} distinct inserted keys", out.len(), model.len()));
    }
    for ((k, v), (mk, mv)) in out.iter().zip(&model) {
        if k != mk {
            return Err(format!("output key {} instead of {}", hex(k), hex(mk)));
        }
        if v == mv {
            continue;
        }
        if mf.0 != 0 || !unstable || v.len() != mv.len() || untoken(v)? != untoken(mv)? {
            return Err(format!("key {}: value {} instead of {}", hex(k), hex(v), hex(mv)));
        }
    }
    Ok(())
}
fn run_sorter(cfg: &SCfg, ents: &[(Vec<u8>, Vec<u8>)], d: &dyn Fn() -> String, ctx: &mut Ctx) -> Result<(), String> {
    let mut spills = 0;
    let out = match cfg.creator {
        0 => drive(cfg, CursorVec, ents),
        1 => drive(cfg, TempFileChunk, ents),
        _ => {
            let c = Creator::new(&Env::full());
            let st = c.stats.clone();
            let r = drive(cfg, c, ents);
            spills = st.created.get();
            r
        }
    };
    let dd = |e: String| format!("{e}; {} {cfg:?}", d());
    let out = out.map_err(dd)?;
    check_sorted_by(SMerge(cfg.merge), &out, ents, cfg.unstable).map_err(dd)?;
    ctx.transitions += ents.len() as u64 + out.len() as u64 + 2;
    ctx.traces += 1;
    ctx.nontrivial += (out.len() < ents.len()) as u64;
    let mut h = H::new();
    for (k, v) in ents {
        h.b(k).u(v.len() as u64);
    }
    ctx.outcome(H::new().u(out.len() as u64).u(spills as u64).u(h.get()).get());
    h.u(cfg.budget.unwrap_or(0) as u64).u(cfg.initial.unwrap_or(0) as u64).u(cfg.realloc as u64).u(cfg.max_chunks.unwrap_or(99) as u64);
    // A state: configuration and inserts so far.
    ctx.states_of(h.get(), ents.len() as u64 + 1);
    ctx.sample(|| format!("{} {cfg:?}", d()));
    Ok(())
}

// ------------------------------------------------------------------ C07

fn small_cfgs(budgets: &[usize], initials: &[usize], maxes: &[usize]) -> Vec<SCfg> {
    let mut v = vec![];
    for b in budgets {
        for m in maxes {
            v.push(SCfg::small(*b, 16, false, *m));
            for i in initials {
                v.push(SCfg::small(*b, *i, true, *m));
            }
        }
    }
    v
}
fn c07_seqs(name: &'static str, max_n: usize, keys: Vec<Vec<u8>>, pads: Vec<Option<usize>>, cfgs: Vec<SCfg>) -> Family {
    let sym = keys.len() * pads.len();
    let mut total = 0u64;
    let mut starts = vec![];
    for n in 0..=max_n {
        starts.push(total);
        total += (sym as u64).pow(n as u32);
    }
    let nc = cfgs.len() as u64;
    let kd: Vec<String> = keys.iter().map(|k| hex(k)).collect();
    family(
        name,
        format!("all sequences of <= {max_n} inserts over keys {kd:?} x value paddings {pads:?} (None: empty value) x {nc} (budget, initial size, realloc, max chunks) settings; algorithm, parallelism, creator and output rotate"),
        total * nc,
        move |case, ctx| {
            let s = case / nc;
            let mut cfg = cfgs[(case % nc) as usize].clone();
            let n = starts.partition_point(|x| *x <= s) - 1;
            let mut r = Radix(s - starts[n]);
            let ents: Ents = (0..n)
                .map(|i| {
                    let k = r.pick(&keys);
                    let v = r.pick(&pads).map_or(vec![], |p| token(i, p));
                    (k, v)
                })
                .collect();
            let rot = s ^ (s / 5) ^ (case % nc) * 3;
            cfg.unstable = rot % 4 == 1;
            cfg.out = (rot / 4 % 4) as u8;
            cfg.creator = if rot / 16 % 8 == 0 { 2 } else { 0 };
            run_sorter(&cfg, &ents, &|| format!("inserts {}", show_keys(&ents)), ctx)
        },
    )
}
/// Insert orders of `n` entries over `d` distinct keys.
fn pattern(p: usize, n: usize, d: usize) -> Vec<usize> {
    (0..n)
        .map(|i| match p {
            0 => i * d / n.max(1),
            1 => d - 1 - i * d / n.max(1),
            2 => i % d,
            3 => d - 1 - i % d,
            4 => (i * 7919 + 13) % d,
            5 => {
                if i % 2 == 0 {
                    i % d
                } else {
                    d - 1 - i % d
                }
            }
            6 => (i * i + i / 3) % d,
            _ => {
                let x = (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                ((x >> 33) as usize) % d
            }
        })
        .collect()
}
fn c07_configs(deep: bool) -> Family {
    let ns: Vec<usize> = if deep { vec![7, 40, 200, 1500] } else { vec![40, 200] };
    let budgets: Vec<usize> = if deep { vec![64, 500, 2000, 4096, 40_000] } else { vec![500, 4096] };
    let maxes: Vec<usize> = if deep { vec![0, 1, 2, 3, 5, 25] } else { vec![1, 2, 5] };
    let levels: Vec<u8> = if deep { vec![0, 1, 2, 3, 255] } else { vec![0, 2] };
    let dims = [ns.len(), 8, budgets.len(), maxes.len(), 2, 2, 2, 6, levels.len()];
    family(
        "configurations",
        format!("n in {ns:?} inserts x 8 orders x budgets {budgets:?} x max chunks {maxes:?} x realloc x stable/unstable x sequential/parallel x 6 chunk codecs x levels {levels:?}; block size, interval, level, creator and output rotate"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (n, p, b, m) = (r.pick(&ns), r.take(8), r.pick(&budgets), r.pick(&maxes));
            let (re, un, par) = (r.take(2) == 1, r.take(2) == 1, r.take(2) == 1);
            let c = r.pick(&fmt::CODECS);
            let l = r.pick(&levels);
            let rot = hash(&case.to_le_bytes()) as usize;
            let mut cfg = SCfg::small(b, [16, 64, 100, 1000][rot % 4], re, m);
            cfg.unstable = un;
            cfg.parallel = par;
            let f = Cfg { codec: c, level: 0, block: [None, Some(0), Some(1024), Some(2000)][rot / 4 % 4], interval: [None, Some(1), Some(3)][rot / 16 % 3], levels: l };
            cfg.file = Some(f);
            cfg.creator = if rot / 64 % 16 == 0 { 1 } else if rot / 64 % 2 == 0 { 0 } else { 2 };
            cfg.out = (rot / 4096 % 4) as u8;
            cfg.setters = (rot / 65536 % 3) as u8;
            let d = [1, 3, n / 3 + 1, n][rot / 16384 % 4];
            let order = pattern(p, n, d);
            let ents: Ents = order.iter().enumerate().map(|(i, k)| (uniform_key(*k), if i % 5 == 0 { vec![] } else { token(i, (i * 13) % 60) })).collect();
            run_sorter(&cfg, &ents, &|| format!("n={n} order {p} over {d} keys"), ctx)
        },
    )
}
/// Sizes stepping over every fit boundary, with one, two and three entries.
fn c07_fit(deep: bool) -> Family {
    let max = if deep { 200usize } else { 90 };
    let budgets = [16usize, 48, 64, 100];
    let dims = [max + 1, max + 1, budgets.len(), 3, 2];
    family(
        "fit-boundaries",
        format!("all pairs of entry sizes 0..={max} (then a third small entry), budgets {budgets:?}, no reallocation or initial buffers of 16 and 32 bytes, 1 or 3 chunks at most"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (a, b, bu, re, m) = (r.take(max + 1), r.take(max + 1), r.pick(&budgets), r.take(3), r.pick(&[1usize, 3]));
            let mut cfg = if re == 0 { SCfg::small(bu, 16, false, m) } else { SCfg::small(bu, 16 * re, true, m) };
            cfg.out = ((a + b) % 3) as u8;
            let split = |i: usize, s: usize| {
                let kl = [0, s, s / 2, s.min(3)][(a + b + i) % 4];
                (bytes(40 - i as u64, kl, 1), bytes(i as u64, s - kl, 2))
            };
            let ents: Ents = vec![split(0, a), split(1, b), (vec![9], vec![1]), split(2, (a + b) / 3)];
            run_sorter(&cfg, &ents, &|| format!("sizes {a}, {b}: {}", show_keys(&ents)), ctx)
        },
    )
}
fn c07_permutations(n: usize) -> Family {
    let fact: u64 = (1..=n as u64).product();
    let cfgs = small_cfgs(&[40, 80, 130], &[16, 48], &[1, 2]);
    let nc = cfgs.len() as u64;
    family(
        "permutations",
        format!("all {n}! orders of {n} distinct keys, and of the same keys with the last three equal, x {nc} settings"),
        fact * 2 * nc,
        move |case, ctx| {
            let mut r = Radix(case);
            let mut cfg = r.pick(&cfgs);
            let dup = r.take(2) == 1;
            let mut pool: Vec<usize> = (0..n).collect();
            let mut x = r.0;
            let mut order = vec![];
            for i in (1..=n).rev() {
                order.push(pool.remove((x % i as u64) as usize));
                x /= i as u64;
            }
            cfg.out = (case % 3) as u8;
            cfg.unstable = case / 3 % 3 == 0;
            let ents: Ents = order
                .iter()
                .enumerate()
                .map(|(i, k)| (vec![b'a' + if dup { (*k).min(n - 3) } else { *k } as u8], token(i, 0)))
                .collect();
            run_sorter(&cfg, &ents, &|| format!("order {order:?} dup {dup}"), ctx)
        },
    )
}
/// Lengths where the sorting algorithms of the standard library and of rayon change their strategy.
fn c07_stability(deep: bool) -> Family {
    let mut ns: Vec<usize> = (0..=70).collect();
    ns.extend([100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 2000, 2001, 3000, 5001]);
    if deep {
        ns.extend(71..256);
        ns.extend([4095, 4096, 4097, 10_000, 20_000, 50_000, 66_000]);
    }
    let dims = [ns.len(), 8, 5, 4];
    family(
        "sort-lengths",
        format!("n in 0..=70 and {:?} inserts in one buffer x 8 orders x 1, 2, 3, n/2, n keys x stable/unstable x sequential/parallel: value order within keys", &ns[71..]),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (alg, p, d) = (r.take(4), r.take(8), r.take(5));
            let n = r.pick(&ns);
            let d = [1, 2, 3, n / 2, n][d].max(1);
            let mut cfg = SCfg::real(Some(64 << 20), true, None);
            cfg.unstable = alg & 1 == 1;
            cfg.parallel = alg & 2 == 2;
            let ents: Ents = pattern(p, n, d).iter().enumerate().map(|(i, k)| (uniform_key(*k), token(i, 0))).collect();
            run_sorter(&cfg, &ents, &|| format!("{n} inserts, order {p}, {d} keys"), ctx)
        },
    )
}
/// More entries in one buffer than 16 or 20 bits count.
fn c07_many(deep: bool) -> Family {
    let ns: Vec<usize> = if deep { vec![65_535, 65_536, 65_537, 131_073, 262_145, 1_048_577, 2_100_000] } else { vec![65_537, 131_073, 1_048_577] };
    let dims = [ns.len(), 4, 2, 2];
    family("sort-many", format!("{ns:?} inserts in one buffer x 2 orders x 3 or 30000 keys x stable/unstable x sequential/parallel"), product(&dims), move |case, ctx| {
        let mut r = Radix(case);
        let (n, alg, p, d) = (r.pick(&ns), r.take(4), [4, 7][r.take(2)], [3, 30_000][r.take(2)]);
        let mut cfg = SCfg::real(Some(1 << 30), true, None);
        cfg.unstable = alg & 1 == 1;
        cfg.parallel = alg & 2 == 2;
        let ents: Ents = pattern(p, n, d).iter().enumerate().map(|(i, k)| (uniform_key(*k), token(i, 0))).collect();
        run_sorter(&cfg, &ents, &|| format!("{n} inserts, order {p}, {d} keys"), ctx)
    })
}
/// rayon pools of all sizes.
fn c07_pools(deep: bool) -> Family {
    let ns: Vec<usize> = if deep { vec![2000, 6000, 12_000, 40_000, 200_000] } else { vec![6000, 12_000, 40_000] };
    let dims = [8, ns.len(), 8, 3, 2];
    family(
        "parallel-pools",
        format!("rayon pools of 1..=8 threads x n in {ns:?} inserts x 8 orders x 1, 50, n keys x stable/unstable, parallel sort"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (t, n, p, d, un) = (1 + r.take(8), r.pick(&ns), r.take(8), r.take(3), r.take(2) == 1);
            let d = [1, 50, n][d];
            let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().map_err(|e| e.to_string())?;
            let ents: Ents = pattern(p, n, d).iter().enumerate().map(|(i, k)| (uniform_key(*k), token(i, 0))).collect();
            let mut cfg = SCfg::real(Some(64 << 20), true, None);
            cfg.unstable = un;
            cfg.parallel = true;
            let out = pool.install(|| drive(&cfg, CursorVec, &ents));
            let dd = |e: String| format!("{e}; {n} inserts, order {p}, {d} keys, {t} threads, unstable {un}");
            check_sorted(&out.map_err(dd)?, &ents, un).map_err(dd)?;
            ctx.transitions += n as u64;
            ctx.traces += 1;
            ctx.states_of(H::new().u(case).u(0x9001).get(), n as u64);
            Ok(())
        },
    )
}
/// The real thresholds, hooks or not: spills, reallocation, chunk merges.
fn c07_real(deep: bool) -> Family {
    // (entry value size, total bytes)
    let loads: Vec<(usize, usize)> = if deep {
        vec![(100, 25 << 20), (1000, 60 << 20), (30_000, 60 << 20), (300_000, 150 << 20), (3 << 20, 100 << 20), (11 << 20, 60 << 20), (40 << 20, 130 << 20)]
    } else {
        vec![(200, 22 << 20), (30_000, 40 << 20), (300_000, 55 << 20), (11 << 20, 48 << 20)]
    };
    let maxes = [1usize, 2, 25];
    let dims = [loads.len(), maxes.len(), 2, 4, 3];
    family(
        "real-thresholds",
        format!("the 10 MiB minimum budget and 128 KiB initial buffer: (value size, volume) in {loads:?} x max chunks {maxes:?} x realloc x stable/unstable x sequential/parallel x 3 outputs; creators rotate"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (load, m, re, alg, out) = (r.pick(&loads), r.pick(&maxes), r.take(2) == 1, r.take(4), r.take(3));
            let mut cfg = SCfg::real(Some([1, 10 << 20, 11 << 20][case as usize % 3]), re, Some(m));
            cfg.unstable = alg & 1 == 1;
            cfg.parallel = alg & 2 == 2;
            cfg.out = out as u8;
            cfg.creator = (case / 7 % 3) as u8;
            cfg.file = Some(Cfg { codec: [0, 0, 5, 3][case as usize % 4], level: 0, block: [None, Some(1024)][case as usize / 4 % 2], interval: None, levels: (case % 2) as u8 });
            let n = load.1 / load.0;
            // Sizes vary around the load's; the padding is cheap to make.
            let ents: Ents = pattern(7, n, n * 2 / 3 + 1)
                .iter()
                .enumerate()
                .map(|(i, k)| {
                    let pad = load.0 - (i * 31) % (load.0 / 4 + 1);
                    let mut v = (pad as u32).to_be_bytes().to_vec();
                    v.extend((i as u32).to_be_bytes());
                    v.resize(8 + pad, i as u8);
                    (uniform_key(*k), v)
                })
                .collect();
            run_sorter(&cfg, &ents, &|| format!("{n} inserts of about {} bytes", load.0), ctx)
        },
    )
}
fn c07_keys() -> Family {
    // Key lengths at boundaries, prefix-related keys.
    let lens: Vec<usize> = vec![0, 1, 2, 7, 8, 9, 127, 128, 255, 256, 257, 1023, 1024, 1025, 65535, 65536, 70000];
    let cfgs = vec![SCfg::small(300, 16, true, 1), SCfg::small(5000, 16, false, 2), SCfg::small(300_000, 64, true, 3), SCfg::small(1, 16, true, 2)];
    let dims = [lens.len(), lens.len(), cfgs.len(), 3];
    family("key-lengths", format!("pairs of key lengths in {lens:?} with common prefixes, three copies each, x {} settings x 3 outputs", cfgs.len()), product(&dims), move |case, ctx| {
        let mut r = Radix(case);
        let (a, b, mut cfg, out) = (r.pick(&lens), r.pick(&lens), r.pick(&cfgs), r.take(3));
        cfg.out = out as u8;
        let mut ents: Ents = vec![];
        for i in 0..3 {
            ents.push((stem(a, &[1]), token(i * 4, i)));
            ents.push((stem(b, &[]), token(i * 4 + 1, 2 * i)));
            ents.push((stem(b, &[0]), token(i * 4 + 2, 40)));
            ents.push((stem(a, &[]), token(i * 4 + 3, 0)));
        }
        run_sorter(&cfg, &ents, &|| format!("key lengths {a}, {b}"), ctx)
    })
}
/// Merge functions that keep one of the values or a part of all of them.
pub fn c07_merges(max_n: usize) -> Family {
    let keys: Vec<Vec<u8>> = vec![vec![], b"a".to_vec()];
    let vals: Vec<Vec<u8>> = [&b""[..], b"a", b"ab", b"b", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac"].iter().map(|v| v.to_vec()).collect();
    let sym = (keys.len() * vals.len()) as u64;
    let cfgs: Vec<SCfg> = small_cfgs(&[40, 90], &[16], &[1, 2]);
    let nc = cfgs.len() as u64;
    let mut total = 0u64;
    let mut starts = vec![];
    for n in 0..=max_n {
        starts.push(total);
        total += sym.pow(n as u32);
    }
    family(
        "merge-functions",
        format!("all sequences of <= {max_n} inserts over keys \"\" and a x values of 0, 1, 1, 2 and 41 bytes x {nc} settings, merged by {SMERGES:?}; algorithm and output rotate"),
        total * nc * 6,
        move |case, ctx| {
            let mut cfg = cfgs[(case / 6 % nc) as usize].clone();
            let s = case / 6 / nc;
            let n = starts.partition_point(|x| *x <= s) - 1;
            let mut r = Radix(s - starts[n]);
            let ents: Ents = (0..n).map(|_| (r.pick(&keys), r.pick(&vals))).collect();
            let rot = hash(&case.to_le_bytes()) as usize;
            cfg.merge = (case % 6) as u8;
            cfg.unstable = cfg.merge != 0 && rot / 5 % 3 == 0;
            cfg.out = (rot / 15 % 4) as u8;
            cfg.setters = (rot / 60 % 3) as u8;
            run_sorter(&cfg, &ents, &|| format!("inserts {}", ents.iter().map(|(k, v)| format!("{}={}", hex(k), hex(v))).collect::<Vec<_>>().join(" ")), ctx)
        },
    )
}
/// Budgets and chunk counts up to the largest integers: arithmetic on them may not overflow.
fn c07_extremes() -> Family {
    let budgets = [0usize, 1, (1 << 32) - 1, 1 << 32, 1 << 63, usize::MAX - 15, usize::MAX];
    let maxes = [0usize, 1, 2, u32::MAX as usize, 1 << 32, usize::MAX];
    let ns = [0usize, 1, 2000, 20_000];
    let dims = [budgets.len(), maxes.len(), ns.len(), 4, 3];
    family(
        "extreme-budgets",
        format!("budgets {budgets:?} with reallocation x max chunks {maxes:?} x {ns:?} inserts x stable/unstable x sequential/parallel x 3 outputs; setter order rotates"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (b, m, n, alg, out) = (r.pick(&budgets), r.pick(&maxes), r.pick(&ns), r.take(4), r.take(3));
            let mut cfg = SCfg::real(Some(b), true, Some(m));
            cfg.unstable = alg & 1 == 1;
            cfg.parallel = alg & 2 == 2;
            cfg.out = out as u8;
            cfg.setters = (case % 3) as u8;
            let ents: Ents = pattern(7, n, n / 2 + 1).iter().enumerate().map(|(i, k)| (uniform_key(*k), token(i, i % 40))).collect();
            run_sorter(&cfg, &ents, &|| format!("{n} inserts"), ctx)
        },
    )
}
/// More than 4 GiB in the buffer, and in the one chunk that is written.
fn c07_four_gib() -> Family {
    let mut f = family(
        "beyond-4GiB",
        "290 values of 16 MiB and as many small ones in one buffer of 4.7 GiB, keys of 1 and 2 entries in a scattered order",
        1,
        move |_, ctx| {
            let cfg = SCfg::real(Some(4800 << 20), false, None);
            let (n, big) = (580usize, (16usize << 20) - 1);
            let mut val = vec![0u8; big];
            // Entry i has key number i * 7 % 389: the first of keys 0..191 come back.
            let ents: Vec<(u32, u32, usize)> = (0..n).map(|i| ((i * 7 % 389) as u32, i as u32, if i % 2 == 0 { big } else { 5 + i % 8 / 2 * 2 })).collect();
            let mut s = cfg.builder(Heads, Sparsely).build();
            for (k, t, l) in &ents {
                val[..4].copy_from_slice(&t.to_be_bytes());
                s.insert(k.to_be_bytes(), &val[..*l]).map_err(rep).map_err(|e| format!("insert {t}: {e}"))?;
            }
            let mut model: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
            for (k, t, l) in &ents {
                let m = model.entry(*k).or_default();
                m.extend(t.to_be_bytes());
                m.extend((*l as u32).to_be_bytes());
            }
            let mut it = s.into_stream_merger_iter().map_err(rep).map_err(|e| format!("into_stream_merger_iter: {e}"))?;
            let mut want = model.iter();
            while let Some((k, v)) = it.next().map_err(rep).map_err(|e| format!("next: {e}"))? {
                let Some((mk, mv)) = want.next() else { return Err(format!("key {} in excess", hex(k))) };
                if k != mk.to_be_bytes() || Heads::head(v) != *mv {
                    return Err(format!("4.7 GiB buffer: key {} with values (number, length) {} instead of key {mk:08x} with {}", hex(k), hex(&Heads::head(v)), hex(mv)));
                }
            }
            if let Some((k, _)) = want.next() {
                return Err(format!("4.7 GiB buffer: key {k:08x} is missing"));
            }
            ctx.transitions += n as u64 * 2;
            ctx.traces += 1;
            ctx.states_of(H::new().u(0x4617).get(), n as u64);
            Ok(())
        },
    )
    .serial();
    f.limit_s = 400;
    f
}
/// Concatenates the first four bytes and the length of each value; a length that is a multiple of
/// 8 is the mark of such a result.
struct Heads;
impl Heads {
    fn head(v: &[u8]) -> Vec<u8> {
        if v.len() % 8 == 0 {
            return v.to_vec();
        }
        let mut o = v[..v.len().min(4)].to_vec();
        o.extend((v.len() as u32).to_be_bytes());
        o
    }
}
impl MergeFunction for Heads {
    type Error = std::convert::Infallible;
    fn merge<'a>(&self, _key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, Self::Error> {
        if values.len() == 1 {
            return Ok(values[0].clone());
        }
        Ok(Cow::Owned(values.iter().flat_map(|v| Heads::head(v)).collect()))
    }
}
/// Chunks in memory that do not store zeros.
struct Sparsely;
impl ChunkCreator for Sparsely {
    type Chunk = crate::io::Sparse;
    type Error = std::convert::Infallible;
    fn create(&self) -> Result<Self::Chunk, Self::Error> {
        Ok(Default::default())
    }
}
fn c07_tails(deep: bool) -> Family {
    let lens = prefix_lens(deep);
    let cfgs = vec![SCfg::small(300, 16, true, 1), SCfg::small(5000, 16, false, 2), SCfg::small(300_000, 64, true, 3)];
    let dims = [lens.len(), 8, 2, 4, cfgs.len()];
    family(
        "common-prefixes",
        format!("keys of a common prefix of n and a common suffix of m bytes, (n, m) in {lens:?}, and parts between over {{00,41,ff}} up to length 2, in 8 orders, once or thrice, stable/unstable, sequential/parallel, {} settings", cfgs.len()),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (n, p, times, alg) = (r.pick(&lens), r.take(8), 1 + 2 * r.take(2), r.take(4));
            let mut cfg = r.pick(&cfgs);
            cfg.unstable = alg & 1 == 1;
            cfg.parallel = alg & 2 == 2;
            cfg.out = (case % 3) as u8;
            let tails = strings(&[0x00, 0x41, 0xff], 2);
            let ents: Ents = pattern(p, tails.len() * times, tails.len()).iter().enumerate().map(|(i, t)| (tailed(n, &tails[*t]), token(i, i % 3))).collect();
            run_sorter(&cfg, &ents, &|| format!("common prefix and suffix of {n:?}, order {p}, {times} times"), ctx)
        },
    )
}
/// Every byte as a key.
fn c07_bytes() -> Family {
    let cfgs = vec![SCfg::small(300, 16, true, 1), SCfg::small(5000, 16, false, 2), SCfg::small(300_000, 64, true, 3)];
    let dims = [3, 8, 2, 4, cfgs.len()];
    family("all-bytes", format!("keys of one byte, all 256, after 0, 3 or 8 bytes, in 8 orders, once or twice, stable/unstable, sequential/parallel, {} settings", cfgs.len()), product(&dims), move |case, ctx| {
        let mut r = Radix(case);
        let (before, p, times, alg) = ([0usize, 3, 8][r.take(3)], r.take(8), 1 + r.take(2), r.take(4));
        let mut cfg = r.pick(&cfgs);
        cfg.unstable = alg & 1 == 1;
        cfg.parallel = alg & 2 == 2;
        cfg.out = (case % 3) as u8;
        let ents: Ents = pattern(p, 256 * times, 256).iter().enumerate().map(|(i, t)| ([vec![0x6b; before], vec![*t as u8]].concat(), token(i, i % 3))).collect();
        run_sorter(&cfg, &ents, &|| format!("all bytes after {before}, order {p}, {times} times"), ctx)
    })
}
fn c07_defaults() -> Family {
    family("default-builder", "Sorter::new, Sorter::builder and SorterBuilder::new with their defaults, 8 orders x 0..=40 inserts, 3 outputs", 41 * 8 * 3, |case, ctx| {
        let mut r = Radix(case);
        let (n, p, how) = (r.take(41), r.take(8), r.take(3));
        #[cfg(grenad_verif)]
        grenad::verif::set_sorter_limits(None, None);
        let mut s = match how {
            0 => grenad::Sorter::new(Concat),
            1 => grenad::Sorter::builder(Concat).build(),
            _ => SorterBuilder::new(Concat).build(),
        };
        let ents: Ents = pattern(p, n, n / 2 + 1).iter().enumerate().map(|(i, k)| (uniform_key(*k), token(i, i))).collect();
        for (k, v) in &ents {
            s.insert(k, v).map_err(rep).map_err(|e| format!("insert: {e}"))?;
        }
        let mut out: Ents = vec![];
        let mut it = s.into_stream_merger_iter().map_err(|e| e.to_string())?;
        while let Some((k, v)) = it.next().map_err(|e| e.to_string())? {
            out.push((k.to_vec(), v.to_vec()));
        }
        check_sorted(&out, &ents, false).map_err(|e| format!("{e}; default sorter {how}, {n} inserts, order {p}"))?;
        ctx.transitions += 2 * n as u64;
        ctx.traces += 1;
        Ok(())
    })
}
pub fn c07(deep: bool) -> Check {
    let keys3 = vec![vec![], b"a".to_vec(), b"ab".to_vec()];
    let fams = vec![
        c07_real(deep),
        c07_seqs("sequences", if deep { 10 } else { 8 }, keys3.clone(), vec![Some(0)], small_cfgs(if deep { &[1, 40, 48, 64, 80, 120] } else { &[1, 48, 80] }, if deep { &[16, 32, 64] } else { &[16, 48] }, &[1, 2, 3])),
        c07_seqs("sequences-sizes", if deep { 6 } else { 5 }, keys3, vec![None, Some(0), Some(30)], small_cfgs(if deep { &[1, 33, 64, 100, 150] } else { &[40, 100] }, &[16, 40], &[1, 2])),
        c07_seqs("sequences-one-key", if deep { 14 } else { 11 }, vec![b"k".to_vec()], vec![None, Some(0)], small_cfgs(&[30, 50, 100], &[16], &[1, 2, 3])),
        c07_configs(deep),
        c07_fit(deep),
        c07_permutations(if deep { 8 } else { 7 }),
        c07_stability(deep),
        c07_many(deep),
        c07_pools(deep),
        c07_keys(),
        c07_tails(deep),
        c07_bytes(),
        crate::inter::sorters(),
        crate::hop::sorters(),
        crate::inter::flushed_chunks(),
        c07_defaults(),
        c07_merges(if deep { 6 } else { 5 }),
        c07_four_gib(),
        c07_extremes(),
    ];
    Check {
        property: "C07",
        level: "model_checking",
        rule: "a state is a (configuration, inserts so far) pair, a transition one insert or one output step of the real sorter, a trace one complete sort compared with the sort-and-merge model",
        assumptions: vec![
            "small scope over insert sequences; small budgets are reached through a hook that overrides the minimum budget and the initial buffer size, the real ones are exercised by one family".into(),
            "rayon's own scheduling is not enumerated: its sorts only compare immutable bytes, and pools of 1..=8 threads are run".into(),
        ],
        families: fams,
    }
}

// ------------------------------------------------------------------ C08

struct First;
impl MergeFunction for First {
    type Error = std::convert::Infallible;
    fn merge<'a>(&self, _key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, Self::Error> {
        Ok(values[0].clone())
    }
}

/// Whether the small-budget hook is in effect (it is not when the crate is built without it).
fn hook_works() -> bool {
    if !cfg!(grenad_verif) {
        return false;
    }
    let cfg = SCfg::small(4096, 64, false, 100_000);
    let c = Creator::new(&Env::full());
    let st = c.stats.clone();
    let mut s = cfg.builder(First, c).build();
    for _ in 0..1024 {
        if s.insert([1u8], [0u8; 1000]).is_err() {
            return true;
        }
    }
    st.created.get() > 0
}

/// Inserts `sizes` (key length, value length) and watches the bounds at every step.
fn watch<I: Iterator<Item = (usize, usize)>>(cfg: &SCfg, effective: usize, sizes: I, finish: bool, d: &dyn Fn() -> String, ctx: &mut Ctx) -> Result<(), String> {
    let creator = Creator::new(&Env::full());
    let st = creator.stats.clone();
    let max = cfg.max_chunks.unwrap_or(25).max(1);
    let bound = if cfg.realloc { effective * 2 } else { effective };
    let dd = |e: String| format!("{e}; {} {cfg:?}", d());
    let mut s = cfg.builder(First, creator).build();
    let mut volume = 0usize;
    let mut h = H::new();
    let mut key = vec![];
    let mut val = vec![];
    let mut n = 0u64;
    for (kl, vl) in sizes {
        key.clear();
        key.extend_from_slice(&hash(&(n * n % 1009).to_le_bytes()).to_le_bytes());
        key.resize(kl, 1);
        val.resize(vl, 7);
        let before = st.created.get();
        s.insert(&key, &val).map_err(|e| dd(format!("insert {n}: {e}")))?;
        n += 1;
        if st.created.get() > before {
            volume = kl + vl;
            h.u(n);
        } else {
            volume += kl + vl;
        }
        if volume > bound {
            return Err(dd(format!("{volume} bytes inserted since the last spill, bound {bound} (insert {n} of {kl}+{vl} bytes)")));
        }
        if st.max_live.get() > max + 2 {
            return Err(dd(format!("{} chunks live at once, maximum {max} (insert {n})", st.max_live.get())));
        }
    }
    if finish {
        let mut it = s.into_stream_merger_iter().map_err(|e| dd(format!("{e}")))?;
        while it.next().map_err(|e| dd(format!("{e}")))?.is_some() {}
    }
    if st.max_live.get() > max + 2 {
        return Err(dd(format!("{} chunks live at once, maximum {max}, at the end", st.max_live.get())));
    }
    ctx.transitions += n + 1;
    ctx.traces += 1;
    ctx.nontrivial += (st.created.get() > 1) as u64;
    ctx.outcome(h.u(st.created.get() as u64).u(st.max_live.get() as u64).get());
    h.u(effective as u64).u(cfg.initial.unwrap_or(0) as u64).u(max as u64).u(cfg.realloc as u64).u(n);
    ctx.states_of(h.get(), n + 1);
    ctx.sample(|| format!("{} inserts, {} spills or merges, at most {} chunks: {} {cfg:?}", n, st.created.get(), st.max_live.get(), d()));
    Ok(())
}
pub fn c08(deep: bool) -> Check {
    let mut fams = vec![];
    // The hook is looked at inside of the cases: a panic of the crate must not escape here.
    let hook = std::sync::Arc::new(std::sync::OnceLock::new());
    let small = {
        let hook = hook.clone();
        move || *hook.get_or_init(hook_works)
    };
    let budgets: Vec<usize> = if deep { vec![64, 100, 128, 256, 500, 1000] } else { vec![64, 100, 256] };
    let mut cfgs = vec![];
    for b in &budgets {
        for m in [0usize, 1, 2, 3] {
            cfgs.push(SCfg::small(*b, 16, false, m));
            for i in [16, 48, 100, 256] {
                if i <= *b {
                    cfgs.push(SCfg::small(*b, i, true, m));
                }
            }
        }
    }
    {
        let (cfgs, small) = (cfgs.clone(), small.clone());
        let max_n = if deep { 9 } else { 8 };
        let nc = cfgs.len() as u64;
        let mut total = 0u64;
        let mut starts = vec![];
        for n in 0..=max_n {
            starts.push(total);
            total += 4u64.pow(n as u32);
        }
        fams.push(family(
            "size-sequences",
            format!("all sequences of <= {max_n} inserts with sizes 0, 1, a ninth and a quarter of the budget, budgets {budgets:?}, {nc} settings"),
            total * nc,
            move |case, ctx| {
                if !small() {
                    return Ok(());
                }
                let cfg = &cfgs[(case % nc) as usize];
                let s = case / nc;
                let n = starts.partition_point(|x| *x <= s) - 1;
                let mut r = Radix(s - starts[n]);
                let b = cfg.budget.unwrap();
                let sizes: Vec<(usize, usize)> = (0..n).map(|i| split_size(r.pick(&[0, 1, b / 9, b / 4]), i)).collect();
                let d = || format!("sizes {sizes:?}");
                let cfg = SCfg { setters: (s % 3) as u8, ..cfg.clone() };
                watch(&cfg, b, sizes.iter().copied(), true, &d, ctx)
            },
        ));
    }
    {
        let small = small.clone();
        let budgets: Vec<usize> = if deep { vec![64, 100, 256, 500, 1000, 4096, 20_000] } else { vec![64, 100, 500, 4096] };
        let mut cfgs = vec![];
        for b in &budgets {
            for m in [0usize, 1, 2, 3, 7, 25] {
                cfgs.push(SCfg::small(*b, 16, false, m));
                for i in [16, 64, 100, 3000] {
                    if i <= *b {
                        cfgs.push(SCfg::small(*b, i, true, m));
                    }
                }
            }
        }
        let nc = cfgs.len() as u64;
        let steps = if deep { 64u64 } else { 24 };
        fams.push(family(
            "uniform-volume",
            format!("entries of one size (every {steps}th part of a quarter of the budget, 0 included) or of two alternating sizes, up to 40 budgets of volume, budgets {budgets:?}, {nc} settings"),
            (steps + 1) * 2 * nc,
            move |case, ctx| {
                if !small() {
                    return Ok(());
                }
                let mut r = Radix(case);
                let mut cfg = cfgs[r.take(nc as usize)].clone();
                let alt = r.take(2) == 1;
                let b = cfg.budget.unwrap();
                cfg.setters = (r.0 % 3) as u8;
                let sz = (b / 4) * r.take(steps as usize + 1) / steps as usize;
                let n = (40 * b / (sz + 16)).min(3000);
                let d = || format!("{n} entries of {sz} bytes, alternating {alt}");
                watch(&cfg, b, (0..n).map(|i| split_size(if alt && i % 2 == 1 { sz / 7 } else { sz }, i)), true, &d, ctx)
            },
        ));
    }
    // The real thresholds.
    {
        let b = 10usize << 20;
        let sizes: Vec<usize> = if deep { vec![0, 20, 1000, 65_000, 131_072, 300_000, 1 << 20, b / 4] } else { vec![0, 1000, 131_072, 700_000, b / 4] };
        let asked: Vec<usize> = vec![0, 1024, b - 1, b, b + 1, b + (1 << 20)];
        let dims = [sizes.len(), asked.len(), 2, 3];
        fams.push(family(
            "real-thresholds",
            format!("entries of {sizes:?} bytes up to 5 budgets of volume, requested budgets {asked:?}, realloc or not, max chunks 1, 2, 25, no hook"),
            product(&dims),
            move |case, ctx| {
                let mut r = Radix(case);
                let (sz, asked, re, m) = (r.pick(&sizes), r.pick(&asked), r.take(2) == 1, r.pick(&[1usize, 2, 25]));
                let mut cfg = SCfg::real(Some(asked), re, Some(m));
                cfg.setters = (case / 7 % 3) as u8;
                let eff = asked.max(b);
                let n = (5 * eff / (sz + 16)).min(1_500_000);
                let d = || format!("{n} entries of {sz} bytes");
                watch(&cfg, eff, (0..n).map(|i| split_size(sz, i)), n < 5000, &d, ctx)
            },
        ));
    }
    fams.push(
        family("default-budget", "the default 1 GiB budget, 1 MiB then 200 MiB entries up to 2.3 GiB, realloc or not, default or 3 chunks", 4, |case, ctx| {
            let mut r = Radix(case);
            let (re, big) = (r.take(2) == 1, r.take(2) == 1);
            let cfg = SCfg::real(None, re, if big { Some(3) } else { None });
            let sz = if big { 200 << 20 } else { 1 << 20 };
            let n = (2300usize << 20) / sz;
            watch(&cfg, 1 << 30, (0..n).map(|_| (8, sz - 8)), false, &|| format!("{n} entries of {sz} bytes"), ctx)
        })
        .serial(),
    );
    fams.push(heap_family(deep));
    Check {
        property: "C08",
        level: "model_checking",
        rule: "a state is a (configuration, inserts so far) pair, a transition one insert of the real sorter after which the bounds are judged, a trace one complete sequence",
        assumptions: vec![
            "volume counts key and value bytes; a creation of a chunk during an insert is a spill of everything before that insert".into(),
            "small budgets through the hook; the real minimum and default budgets without it".into(),
        ],
        families: fams,
    }
}
fn split_size(s: usize, i: usize) -> (usize, usize) {
    let k = match i % 3 {
        0 => s.min(8),
        1 => s / 2,
        _ => s.min(2),
    };
    (k, s - k)
}
/// Heap high-water mark: bounded by the budget, and does not grow with the volume inserted.
fn heap_family(deep: bool) -> Family {
    let rounds = if deep { 60 } else { 16 };
    let shapes: Vec<(usize, usize)> = vec![(4, 5000), (4, 100), (4, 4), (1, 0), (0, 0), (0, 1), (4, 100_000), (3, 1 << 20)];
    let dims = [2, 3, shapes.len()];
    let names = format!("{shapes:?}");
    family(
        "heap-high-water",
        format!("heap high-water mark while inserting {rounds} budgets (10 MiB, each entry counted with 16 bytes of bookkeeping) of entries of (key, value) bytes {names} into disk chunks: the second half may not need more than the first, nor either more than eight budgets, realloc or not, max chunks 1, 3, 25"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (re, m, (kl, vl)) = (r.take(2) == 1, r.pick(&[1usize, 3, 25]), r.pick(&shapes));
            let b = 10usize << 20;
            let cfg = SCfg::real(Some(b), re, Some(m));
            let base = crate::alloc::peak_start();
            let mut s = cfg.builder(First, TempFileChunk).build();
            let val = vec![3u8; vl];
            let n = rounds * b / (kl + vl + 16);
            let mut half = 0;
            for i in 0..n {
                if i == n / 2 {
                    half = crate::alloc::peak() - base;
                    crate::alloc::peak_start();
                }
                let k = ((i * 7919 % 2000) as u32).to_le_bytes();
                s.insert(&k[..kl], &val).map_err(|e| e.to_string())?;
            }
            let second = crate::alloc::peak() - base;
            if second > half + half / 4 + (2 << 20) {
                return Err(format!("heap high-water mark grows with the volume: {half} bytes for the first {} budgets, {second} for the next; entries of ({kl}, {vl}) bytes, {cfg:?}", rounds / 2));
            }
            if half.max(second) > 8 * b as i64 {
                return Err(format!("{} bytes of heap for a budget of {b}; entries of ({kl}, {vl}) bytes, {cfg:?}", half.max(second)));
            }
            drop(s);
            ctx.transitions += n as u64;
            ctx.traces += 1;
            ctx.states_of(H::new().u(case).u(0x4EA).get(), n as u64);
            ctx.sample(|| format!("high-water marks {half} then {second}: entries of ({kl}, {vl}) bytes, {cfg:?}"));
            Ok(())
        },
    )
}
