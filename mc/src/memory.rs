//! C17: memory safety of the buffer management, observed by AddressSanitizer, by an allocator that
//! checks layouts and by overflow checks. Only meaningful in the build that `c17.sh` makes.
use crate::alloc;
use crate::engine::{family, guard, rejudge, Case, Check, Ctx, Family, H};
use crate::fmt::Ents;
use crate::gen::*;
use crate::io::Env;
use crate::io::Creator;
use crate::merges::SCfg;
use grenad::{ChunkCreator, CursorVec, MergeFunction};
use std::borrow::Cow;
use std::sync::Arc;

/// The messages of the panics that stand for an access outside of a buffer or for an overflow.
fn is_memory(e: &str) -> bool {
    [
        "with overflow",
        "out of range",
        "out of bounds",
        "misaligned",
        "slice index starts",
        "TargetAlignment",
        "OutputSliceWouldHaveSlop",
        "mid > len",
        "copy_from_slice",
        "LayoutError",
        "unsafe precondition",
        "MEMORY",
    ]
    .iter()
    .any(|p| e.contains(p))
}
fn judge(run: &mut dyn FnMut() -> Result<Case, String>) -> Case {
    let mut left = vec![];
    for _ in 0..3 {
        // What a case does not free is either a cache that stays warm, or a leak: then it grows
        // again at every run.
        match alloc::left_by(&mut *run) {
            (Err(e), _) | (Ok(Err(e)), _) => return if is_memory(&e) { Err(e) } else { Ok(()) },
            (Ok(Ok(())), Some(n)) if n > 0 => left.push(n),
            _ => return Ok(()),
        }
    }
    Err(format!("MEMORY: three runs of the case leave {left:?} bytes allocated"))
}
fn watched(check: Check, names: &[&str]) -> Vec<Family> {
    rejudge(check, "memory", "memory accesses, deallocations and leaks of", names, judge)
}
fn mfamily<F>(name: &'static str, bounds: String, size: u64, run: F) -> Family
where
    F: Fn(u64, &mut Ctx) -> Case + Sync + Send + 'static,
{
    family(name, bounds, size, move |case, ctx| judge(&mut || guard(|| run(case, ctx))))
}

/// The first value.
struct First;
impl MergeFunction for First {
    type Error = std::convert::Infallible;
    fn merge<'a>(&self, _key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, Self::Error> {
        Ok(values[0].clone())
    }
}
/// An entry of `size` bytes made of one byte value, its key and value lengths chosen by `how`.
fn entry(i: usize, size: usize, how: usize) -> (Vec<u8>, Vec<u8>) {
    let k = match how % 4 {
        0 => size.min(4),
        1 => size / 2,
        2 => size,
        _ => 0,
    };
    (vec![i as u8 + 1; k], vec![i as u8 + 101; size - k])
}
fn altered(ents: &Ents, k: &[u8], v: &[u8]) -> Case {
    if ents.iter().any(|(a, b)| a == k && b == v) {
        return Ok(());
    }
    Err(format!("MEMORY: a key of {} bytes with a value of {} bytes comes out of the buffer that were not inserted: {} = {}", k.len(), v.len(), hex(k), hex(v)))
}
/// Inserts, then ends the sorter in one of six ways; every entry that comes out is one that went in.
fn sort<CC: ChunkCreator>(cfg: &SCfg, cc: CC, ents: &Ents, end: usize) -> Case {
    let mut s = cfg.builder(First, cc).build();
    for (k, v) in ents {
        s.insert(k, v).map_err(|e| e.to_string())?;
    }
    match end % 6 {
        0 | 1 => {
            let mut it = s.into_stream_merger_iter().map_err(|e| e.to_string())?;
            let mut n = 0;
            while let Some((k, v)) = it.next().map_err(|e| e.to_string())? {
                altered(ents, k, v)?;
                n += 1;
                if end % 6 == 1 && n == 2 {
                    break;
                }
            }
        }
        2 => {
            let mut w = Cfg::new(0, 1024, 2, 1).builder().memory();
            s.write_into_stream_writer(&mut w).map_err(|e| e.to_string())?;
            let b = Arc::new(w.into_inner().map_err(|e| e.to_string())?);
            let mut c = grenad::Reader::new(crate::io::Src::new(&b)).and_then(|r| r.into_cursor()).map_err(|e| e.to_string())?;
            while let Some((k, v)) = c.move_on_next().map_err(|e| e.to_string())? {
                altered(ents, k, v)?;
            }
        }
        3 | 4 => {
            for mut c in s.into_reader_cursors().map_err(|e| e.to_string())? {
                let back = end % 6 == 4;
                while let Some((k, v)) = if back { c.move_on_prev() } else { c.move_on_next() }.map_err(|e| e.to_string())? {
                    altered(ents, k, v)?;
                    if back {
                        break;
                    }
                }
            }
        }
        _ => drop(s),
    }
    Ok(())
}
fn sort_case(cfg: &SCfg, ents: &Ents, end: usize, instrumented: bool, ctx: &mut Ctx) -> Case {
    let r = if instrumented { sort(cfg, Creator::new(&Env::full()), ents, end) } else { sort(cfg, CursorVec, ents, end) };
    let sizes: Vec<(usize, usize)> = ents.iter().map(|(k, v)| (k.len(), v.len())).collect();
    r.map_err(|e| format!("{e}; inserts of (key, value) sizes {sizes:?}, end {}, {cfg:?}", end % 6))?;
    let mut h = H::new();
    for (k, v) in &sizes {
        h.u(*k as u64).u(*v as u64);
    }
    h.u(cfg.budget.unwrap_or(0) as u64).u(cfg.initial.unwrap_or(0) as u64).u(cfg.realloc as u64).u(cfg.max_chunks.unwrap_or(0) as u64).u(cfg.small as u64);
    ctx.states_of(h.get(), ents.len() as u64 + 1);
    ctx.outcome(h.u(end as u64 % 6).get());
    ctx.transitions += ents.len() as u64 + 1;
    ctx.traces += 1;
    ctx.sample(|| format!("sizes {sizes:?}, end {}, {cfg:?}", end % 6));
    Ok(())
}
/// Every sequence of `n` entry sizes up to `max`, over small budgets and initial buffers.
fn fill(name: &'static str, n: usize, sizes: Vec<usize>, budgets: Vec<usize>, initials: Vec<usize>, maxes: Vec<usize>) -> Family {
    let kinds = 1 + initials.len();
    let dims: Vec<usize> = vec![kinds, budgets.len(), maxes.len()];
    let per = product(&dims);
    let total = (sizes.len() as u64).pow(n as u32);
    mfamily(
        name,
        format!("all sequences of {n} inserts of sizes {sizes:?} x budgets {budgets:?} x (no reallocation, initial buffers {initials:?}) x max chunks {maxes:?}; key/value split, ending (streamed, written, cursors, dropped half way) and creator rotate"),
        total * per,
        move |case, ctx| {
            let mut r = Radix(case);
            let kind = r.take(kinds);
            let (b, m) = (r.pick(&budgets), r.pick(&maxes));
            let rot = (case / per + case % per) as usize;
            let ents: Ents = (0..n).map(|i| entry(i, r.pick(&sizes), rot / 6 + i)).collect();
            let cfg = SCfg::small(b, if kind == 0 { 16 } else { initials[kind - 1] }, kind > 0, m);
            sort_case(&cfg, &ents, rot, rot % 5 == 0, ctx)
        },
    )
}
/// One entry that needs several doublings at once, after and before a small one.
fn growth(deep: bool) -> Family {
    let max = if deep { 40_000 } else { 6_000 };
    mfamily(
        "sorter-growth",
        format!("one insert of every size 0..={max} into initial buffers of 16, 32, 48 and 100 bytes, or a budget of 64 without reallocation, before and after inserts of 10 bytes"),
        5 * (max as u64 + 1),
        move |case, ctx| {
            let mut r = Radix(case);
            let kind = r.take(5);
            let size = r.0 as usize;
            let ents: Ents = [10, size, 10, size / 2].iter().enumerate().map(|(i, s)| entry(i, *s, i + size)).collect();
            let cfg = match kind {
                4 => SCfg::small(64, 16, false, 2),
                k => SCfg::small(1 << 20, [16, 32, 48, 100][k], true, 2),
            };
            sort_case(&cfg, &ents, size, size % 3 == 0, ctx)
        },
    )
}
/// The real initial buffer and minimum budget, filled to within a few bytes of their doublings.
fn real(deep: bool) -> Family {
    let around: Vec<i64> = if deep { (-40..=40).collect() } else { vec![-33, -32, -31, -17, -16, -15, -1, 0, 1, 15, 16, 17] };
    let caps: Vec<usize> = vec![131_072, 262_144, 1 << 20, 10 << 20, 20 << 20];
    let counts = [1usize, 2, 7];
    let dims = [around.len(), caps.len(), counts.len(), 3];
    mfamily(
        "real-buffers",
        format!("real sorters: 1, 2 or 7 equal inserts that fill {caps:?} bytes to within {around:?} bytes, then a small one; reallocation with a budget of 10 MiB or the default, or none with 10 MiB"),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (a, cap, n, how) = (r.pick(&around), r.pick(&caps), r.pick(&counts), r.take(3));
            let each = (cap as i64 / n as i64 - 16) as usize;
            let mut ents: Ents = (0..n).map(|i| entry(i, each, 0)).collect();
            let rest = cap as i64 - n as i64 * (each as i64 + 16);
            let last = &mut ents[n - 1].1;
            let len = (last.len() as i64 + rest + a) as usize;
            last.resize(len, 7);
            ents.push((vec![0xEE], vec![1, 2]));
            ents.push((vec![], vec![]));
            let cfg = SCfg::real(if how == 1 { None } else { Some(10 << 20) }, how != 2, Some(2));
            sort_case(&cfg, &ents, case as usize, false, ctx)
        },
    )
}
/// Chunks of every codec.
fn codecs() -> Family {
    let dims = [6, 3, 2, 6, 4];
    mfamily("sorter-codecs", "60 inserts x 6 chunk codecs x index levels 0..=2 x realloc x 6 endings x 4 size patterns, block size 1024".into(), product(&dims), |case, ctx| {
        let mut r = Radix(case);
        let (codec, levels, re, end, p) = (r.pick(&crate::fmt::CODECS), r.take(3), r.take(2) == 1, r.take(6), r.take(4));
        let mut cfg = SCfg::small(3000, 64, re, 3);
        cfg.file = Some(Cfg::new(codec, 1024, 1 + levels, levels as u8));
        let ents: Ents = (0..60).map(|i| entry(i * 37 % 60, [i, 100, i * i % 700, 1500 * (i % 2)][p], i)).collect();
        sort_case(&cfg, &ents, end, case % 2 == 0, ctx)
    })
}
/// The estimate of the memory usage, at every point.
fn estimates() -> Family {
    mfamily("estimates", "Sorter::estimated_dumped_memory_usage and Debug after each of 0..=200 inserts x 12 settings, default chunks".into(), 12, |case, ctx| {
        let mut r = Radix(case);
        let m = r.pick(&[1usize, 2, 25]);
        let (b, re) = r.pick(&[(64usize, false), (64, true), (600, true), (600, false)]);
        let cfg = SCfg::small(b, 16, re, m);
        let mut s = cfg.builder(First, grenad::DefaultChunkCreator::default()).build();
        for i in 0..200usize {
            s.insert(vec![i as u8; i % 7], vec![1; i % 50]).map_err(|e| e.to_string())?;
            std::hint::black_box(s.estimated_dumped_memory_usage());
            std::hint::black_box(format!("{s:?}"));
            ctx.transitions += 3;
            ctx.state(H::new().u(case).u(i as u64).u(0xE5).get());
        }
        ctx.traces += 1;
        Ok(())
    })
}
/// Settings whose buffer cannot exist: a refusal is fine, an overflow or a wild buffer is not.
fn extremes() -> Family {
    let sizes = [usize::MAX, usize::MAX - 7, usize::MAX - 14, usize::MAX - 15, usize::MAX - 16, 1 << 63, (1 << 63) - 1, (1 << 63) - 16, (1 << 63) - 17, 1 << 60];
    let dims = [sizes.len(), 2, 3];
    mfamily("extreme-budgets", format!("budgets of {sizes:x?} bytes, with and without reallocation, 0..=2 inserts"), product(&dims), move |case, ctx| {
        let mut r = Radix(case);
        let (b, re, n) = (r.pick(&sizes), r.take(2) == 1, r.take(3));
        let cfg = SCfg::real(Some(b), re, Some(2));
        let ents: Ents = (0..n).map(|i| entry(i, 200_000 * i, 0)).collect();
        ctx.states_of(H::new().u(case).u(0xE7).get(), n as u64 + 1);
        ctx.traces += 1;
        ctx.transitions += n as u64 + 1;
        match guard(|| sort(&cfg, CursorVec, &ents, case as usize)) {
            Ok(r) => r,
            // Refusing to build is not an overflow.
            Err(e) if !re && !e.contains("with overflow") => Ok(()),
            Err(e) => Err(e),
        }
    })
}
/// A reader's borrowed entries while other cursors over the same source live and die.
fn borrowed(deep: bool) -> Family {
    let n = if deep { 40 } else { 14 };
    mfamily(
        "borrowed-entries",
        format!("entries kept while the cursor they come from is cloned, the clone moved and dropped: {n} entries x 6 codecs x 3 layouts x all pairs of (operation, operation of the clone)"),
        6 * 3 * 49,
        move |case, ctx| {
            let mut r = Radix(case);
            let codec = r.pick(&crate::fmt::CODECS);
            let lay = r.take(3);
            let (a, b) = (r.take(7), r.take(7));
            let ents: Ents = (0..n).map(|i| (vec![b'k', i as u8], vec![i as u8; 50 + 400 * (lay > 0) as usize])).collect();
            let cfg = Cfg::new(codec, 1024, 1 + lay, lay as u8);
            let bytes = Arc::new(cfg.write(&ents)?);
            let mut c = crate::model::open(crate::io::Src::new(&bytes), "borrowed")?;
            fn op<R: std::io::Read + std::io::Seek>(c: &mut grenad::ReaderCursor<R>, o: usize, i: usize) -> Result<Option<(&[u8], &[u8])>, String> {
                let q = [b'k', i as u8];
                match o {
                    0 => c.move_on_first(),
                    1 => c.move_on_last(),
                    2 => c.move_on_next(),
                    3 => c.move_on_prev(),
                    4 => c.move_on_key_greater_than_or_equal_to(q),
                    5 => c.move_on_key_lower_than_or_equal_to(q),
                    _ => c.move_on_key_equal_to(q),
                }
                .map_err(|e| e.to_string())
            }
            for i in 0..n {
                op(&mut c, 4, i)?;
                let mut d = c.clone();
                let mut e = c.clone();
                let held = op(&mut c, a, n - 1 - i)?;
                let mine = held.map(|(k, v)| (k.to_vec(), v.to_vec()));
                for j in 0..n {
                    op(&mut d, b, j)?;
                }
                drop(d);
                let other = op(&mut e, a, n - 1 - i)?;
                if held != mine.as_ref().map(|(k, v)| (&k[..], &v[..])) || held != other {
                    return Err(format!("MEMORY: a borrowed entry changed under operations on a clone: {} then {}; {cfg:?}", show(mine.as_ref().map(|(k, v)| (&k[..], &v[..]))), show(held)));
                }
                drop(e);
                ctx.transitions += n as u64 + 3;
            }
            ctx.traces += 1;
            ctx.states_of(H::new().u(case).u(0xB0).get(), n as u64);
            Ok(())
        },
    )
}

pub fn c17(deep: bool) -> Check {
    let mut fams = vec![
        vec![
            real(deep),
            fill("sorter-fill-3", 3, (0..=if deep { 56 } else { 33 }).collect(), vec![48, 64, 100], vec![16, 32, 48], vec![2]),
            fill("sorter-fill-2", 2, (0..=if deep { 300 } else { 130 }).collect(), vec![16, 17, 64, 100, 128, 200], vec![16, 17, 32, 48, 64, 100], vec![1]),
            fill("sorter-fill-6", 6, if deep { vec![0, 1, 15, 16, 17, 32] } else { vec![0, 1, 16, 17, 32] }, vec![48, 64, 96], vec![16, 32, 64], vec![1, 3]),
            fill("sorter-fill-9", if deep { 12 } else { 9 }, vec![0, 7, 16], vec![64, 128], vec![16, 48], vec![1, 2]),
            growth(deep),
            codecs(),
            estimates(),
            extremes(),
            borrowed(deep),
        ],
        watched(crate::faults::failing_scenarios(deep), &["creator-errors", "failing-calls"]),
        watched(crate::merges::c07(deep), &["sequences-one-key", "sort-lengths", "key-lengths", "default-builder"]),
        watched(Check { families: vec![crate::merges::c07_merges(if deep { 4 } else { 3 })], ..crate::merges::c07(deep) }, &["merge-functions"]),
        watched(crate::merges::c06(deep), &["shared-source", "overlaps-3", "overlaps-4", "overlaps-blocks", "many-sources", "long-sources", "merge-function-impls"]),
        watched(crate::writers::c01(deep), &["shapes-long", "index-depths", "boundary-sizes", "huge-values", "scale"]),
        watched(crate::readers::c02(deep), &["written-shapes", "special-keys", "extreme-levels"]),
        watched(crate::readers::c03(deep), &["bfs-layouts", "bfs-deep-chain", "bfs-written", "bfs-codecs", "bfs-one-block"]),
        watched(crate::readers::c04(deep), &["layouts", "written-shapes", "range-types-and-clones"]),
        watched(crate::readers::c05(deep), &["tree-subsets", "written-shapes", "ff-runs"]),
        watched(crate::readers::c10(deep), &["bfs"]),
        watched(crate::writers::c13(deep), &["short-strings", "records"]),
    ];
    if deep {
        // The quick bounds of more families.
        fams.push(watched(crate::merges::c07(false), &["real-thresholds", "sequences", "sequences-sizes", "configurations", "permutations", "parallel-pools"]));
        fams.push(watched(crate::merges::c06(false), &["overlaps-5", "overlaps-7"]));
        fams.push(watched(crate::writers::c01(false), &["shapes", "grid", "grid-long"]));
        fams.push(watched(crate::readers::c02(false), &["layouts", "uniform-layouts", "written-deep"]));
        fams.push(watched(crate::readers::c03(false), &["after-source-failures", "histories"]));
        fams.push(watched(crate::readers::c04(false), &["layouts-codecs"]));
        fams.push(watched(crate::readers::c05(false), &["layouts-codecs"]));
    }
    Check {
        property: "C17",
        level: "model_checking",
        rule: "a state is a (configuration, inserts so far) pair or a (file, cursor state) pair, a transition one public call on the real code, a trace one complete run under AddressSanitizer, the layout-checking allocator and overflow checks",
        assumptions: vec![
            "small scope over insert sizes: small budgets and initial buffers through the hook, the real ones by the families real-*".into(),
            "AddressSanitizer sees accesses of Rust code and of the copying functions, not of zstd's C code; undefined behaviour that touches no wrong memory is only looked for by Miri, over smaller bounds".into(),
            "a leak is memory left allocated by each of three runs of a case; not judged for cases that use rayon".into(),
        ],
        families: fams.drain(..).flatten().collect(),
    }
}
