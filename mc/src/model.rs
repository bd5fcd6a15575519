//! The reference model (a sorted list), the file corpora the reader properties are checked on, and
//! the comparison of real results with the model.
use crate::engine::{hash, Ctx, H, rep};
use crate::fmt::{self, Ents};
use crate::gen::*;
use crate::io::Src;
use grenad::{Reader, ReaderCursor};
use std::io::{Read, Seek};
use std::ops::Bound;
use std::sync::Arc;

pub fn ge(e: &Ents, q: &[u8]) -> Option<usize> {
    let i = e.iter().position(|(k, _)| &k[..] >= q);
    i
}
pub fn le(e: &Ents, q: &[u8]) -> Option<usize> {
    e.iter().rposition(|(k, _)| &k[..] <= q)
}
pub fn eq(e: &Ents, q: &[u8]) -> Option<usize> {
    e.iter().position(|(k, _)| &k[..] == q)
}
/// Binary-search versions for long lists (checked against the plain ones in `selftest`).
pub fn ge_fast(e: &Ents, q: &[u8]) -> Option<usize> {
    let i = e.partition_point(|(k, _)| &k[..] < q);
    (i < e.len()).then_some(i)
}
pub fn le_fast(e: &Ents, q: &[u8]) -> Option<usize> {
    e.partition_point(|(k, _)| &k[..] <= q).checked_sub(1)
}

#[derive(Clone, Debug)]
pub struct FileCase {
    pub bytes: Arc<Vec<u8>>,
    pub ents: Ents,
    pub desc: String,
}
impl FileCase {
    pub fn state(&self) -> u64 {
        hash(&self.bytes)
    }
    pub fn cursor(&self) -> Result<ReaderCursor<Src>, String> {
        open(Src::new(&self.bytes), &self.desc)
    }
    pub fn ctx(&self) -> String {
        format!("file {} keys {}", self.desc, show_keys(&self.ents))
    }
}
pub fn open<R: Read + Seek>(src: R, desc: &str) -> Result<ReaderCursor<R>, String> {
    Reader::new(src)
        .map_err(rep).map_err(|e| format!("Reader::new failed: {e} on {desc}"))?
        .into_cursor()
        .map_err(rep).map_err(|e| format!("into_cursor failed: {e} on {desc}"))
}

pub fn want(e: &Ents, i: Option<usize>) -> Option<(&[u8], &[u8])> {
    i.map(|i| (&e[i].0[..], &e[i].1[..]))
}
pub fn same(what: impl Fn() -> String, got: Option<(&[u8], &[u8])>, want: Option<(&[u8], &[u8])>) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: returned {} instead of {}", what(), show(got), show(want)))
    }
}

// ------------------------------------------------------------- corpora

pub type Corpus = (String, u64, Box<dyn Fn(u64) -> FileCase + Send + Sync>);

/// Every subset of the prefix tree over {00,ff} up to length 2 (7 keys), in every block layout
/// (every way to cut data and index blocks) over 0..=max_levels index levels. Bounded by `max_n` keys.
pub fn layouts(max_n: usize, max_levels: u8, intervals: &'static [usize], codecs: &'static [u8]) -> Corpus {
    let tree = strings(&[0x00, 0xff], 2);
    let mut table: Vec<(u64, u8, u64)> = vec![]; // (mask, levels, layouts)
    let mut starts: Vec<u64> = vec![];
    let mut total = 0u64;
    for mask in 0..(1u64 << tree.len()) {
        let n = mask.count_ones() as usize;
        if n > max_n {
            continue;
        }
        for l in 0..=max_levels {
            let c = (l as u64 + 2).pow(n.saturating_sub(1) as u32);
            starts.push(total);
            table.push((mask, l, c));
            total += c;
        }
    }
    let per = intervals.len() as u64 * codecs.len() as u64;
    let b = format!(
        "all {} (key subset of <=%d keys of the 7-key tree over {{00,ff}}, 0..={max_levels} index levels, data/index block cuts) layouts x intervals {intervals:?} x codecs {codecs:?}, tiny blocks",
        total
    )
    .replace("%d", &max_n.to_string());
    (
        b,
        total * per,
        Box::new(move |case| {
            let interval = intervals[(case % per) as usize % intervals.len()];
            let codec = codecs[(case % per) as usize / intervals.len()];
            let c = case / per;
            let t = starts.partition_point(|s| *s <= c) - 1;
            let (mask, l, _) = table[t];
            let mut r = Radix(c - starts[t]);
            let keys = subset(&tree, mask);
            let cuts: Vec<u8> = (0..keys.len().saturating_sub(1)).map(|_| r.take(l as usize + 2) as u8).collect();
            let ents = with_tiny(&keys);
            let bytes = Arc::new(fmt::encode(&ents, l, &cuts, interval, codec));
            FileCase { bytes, ents, desc: format!("layout levels={l} cuts={cuts:?} interval={interval} codec={codec}") }
        }),
    )
}

/// Uniform layouts: `n` keys, `a` entries per data block, `b` children per index block.
pub fn uniform_layouts(ns: Vec<usize>, aa: Vec<usize>, bb: Vec<usize>, intervals: Vec<usize>, max_levels: u8) -> Corpus {
    let dims = [ns.len(), aa.len(), bb.len(), intervals.len(), max_levels as usize + 1];
    let bounds = format!(
        "uniform layouts: n in {ns:?} entries, {aa:?} entries per data block, {bb:?} children per index block, intervals {intervals:?}, 0..={max_levels} levels"
    );
    (
        bounds,
        product(&dims),
        Box::new(move |case| {
            let mut r = Radix(case);
            let (n, a, b, iv) = (r.pick(&ns), r.pick(&aa), r.pick(&bb), r.pick(&intervals));
            let l = r.take(max_levels as usize + 1);
            let ents: Ents = (0..n).map(|i| (uniform_key(i), tiny(i))).collect();
            let cuts: Vec<u8> = (1..n)
                .map(|i| {
                    let mut c = 0;
                    let mut span = a;
                    while c <= l && i % span == 0 {
                        c += 1;
                        span *= b;
                    }
                    c as u8
                })
                .collect();
            let bytes = Arc::new(fmt::encode(&ents, l as u8, &cuts, iv, 0));
            FileCase { bytes, ents, desc: format!("uniform n={n} a={a} b={b} interval={iv} levels={l}") }
        }),
    )
}
/// Keys of alternating length 1..3 in ascending order, leaving gaps for absent probes.
pub fn uniform_key(i: usize) -> Vec<u8> {
    let g = i / 3;
    let mut k = vec![(g / 100) as u8, (2 * (g % 100) + 1) as u8];
    match i % 3 {
        0 => {}
        1 => k.push(0),
        _ => k.extend([0, 0xff]),
    }
    k
}
pub fn uniform_probes(n: usize) -> Vec<Vec<u8>> {
    let mut p = vec![vec![], vec![0], vec![0xff, 0xff, 0xff, 0xff]];
    for i in 0..n {
        let k = uniform_key(i);
        p.push(k.clone());
        let mut a = k.clone();
        a.push(0);
        p.push(a);
        let mut a = k.clone();
        a.push(0xff);
        p.push(a);
        let mut a = k.clone();
        *a.last_mut().unwrap() = a.last().unwrap().wrapping_sub(1);
        p.push(a);
        let mut a = k.clone();
        a.pop();
        p.push(a);
    }
    p.sort();
    p.dedup();
    p
}

/// Files of the real writer (1024-byte blocks): every sequence of `n <= max_n` entry shapes.
pub fn written(max_n: usize, shapes: &'static [Shape], levels: Vec<u8>, intervals: Vec<usize>, codecs: Vec<u8>) -> Corpus {
    let mut total = 0u64;
    let mut starts = vec![];
    for n in 0..=max_n {
        starts.push(total);
        total += (shapes.len() as u64).pow(n as u32);
    }
    let per = product(&[levels.len(), intervals.len(), codecs.len()]);
    let bounds = format!("real writer, block size 1024: all sequences of <= {max_n} entries of shapes {shapes:?} x levels {levels:?} x intervals {intervals:?} x codecs {codecs:?}");
    (
        bounds,
        total * per,
        Box::new(move |case| {
            let mut r = Radix(case % per);
            let (l, iv, c) = (r.pick(&levels), r.pick(&intervals), r.pick(&codecs));
            let s = case / per;
            let n = starts.partition_point(|x| *x <= s) - 1;
            let mut r = Radix(s - starts[n]);
            let sh: Vec<Shape> = (0..n).map(|_| r.pick(shapes)).collect();
            let ents = shaped_seq(&sh, s % 2 == 1);
            let cfg = Cfg::new(c, 1024, iv, l);
            let bytes = cfg.write(&ents).expect("writing a valid sequence");
            FileCase { bytes: Arc::new(bytes), ents, desc: format!("{cfg:?} shapes {sh:?}") }
        }),
    )
}

/// Long files of the real writer: `n` small entries.
pub fn long_written(ns: Vec<usize>, cfgs: Vec<Cfg>) -> Corpus {
    let bounds = format!("real writer: {ns:?} small entries x {} configurations {:?}", cfgs.len(), cfgs);
    (
        bounds,
        product(&[ns.len(), cfgs.len()]),
        Box::new(move |case| {
            let mut r = Radix(case);
            let n = r.pick(&ns);
            let cfg = r.pick(&cfgs);
            let ents: Ents = (0..n).map(|i| (uniform_key(i), tiny(i))).collect();
            let bytes = cfg.write(&ents).expect("writing a valid sequence");
            FileCase { bytes: Arc::new(bytes), ents, desc: format!("long {cfg:?} n={n}") }
        }),
    )
}

/// Probes around the keys of any entry list: each key, its neighbours, prefixes and extensions.
pub fn probes_for(e: &Ents) -> Vec<Vec<u8>> {
    let mut p: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff], vec![0xff; 3]];
    for (k, _) in e {
        p.push(k.clone());
        let mut a = k.clone();
        a.push(0);
        p.push(a);
        let mut a = k.clone();
        a.push(0xff);
        p.push(a);
        if let Some(l) = k.last() {
            let mut a = k.clone();
            a.pop();
            p.push(a.clone());
            if *l > 0 {
                a.push(l - 1);
                p.push(a.clone());
                a.pop();
            }
            if *l < 0xff {
                a.push(l + 1);
                p.push(a);
            }
        }
        if k.len() > 4 {
            p.push(k[..k.len() / 2].to_vec());
            let mut a = k[..k.len() / 2].to_vec();
            a.push(0xff);
            a.push(0xff);
            p.push(a);
        }
    }
    p.sort();
    p.dedup();
    p
}
pub fn tree_probes() -> Vec<Vec<u8>> {
    let mut p = strings(&[0x00, 0x01, 0xfe, 0xff], 3);
    p.extend([vec![0x80], vec![0x00, 0x80], vec![0xff, 0xff, 0xff, 0xff], vec![0; 6], vec![0xff; 40], vec![0x7f, 0xff]]);
    p.sort();
    p.dedup();
    p
}

// ------------------------------------------------------------- scans

pub fn scan_forward<R: Read + Seek>(c: &mut ReaderCursor<R>, e: &Ents, d: &str) -> Result<(), String> {
    for i in 0..=e.len() {
        let got = c.move_on_next().map_err(rep).map_err(|x| format!("{d}: move_on_next #{i} failed: {x}"))?;
        same(|| format!("{d}: forward scan, step {i}"), got, want(e, (i < e.len()).then_some(i)))?;
    }
    Ok(())
}
pub fn scan_backward<R: Read + Seek>(c: &mut ReaderCursor<R>, e: &Ents, d: &str) -> Result<(), String> {
    scan_backward_of(c, e, e.len(), d)
}
/// Only `steps` entries, or all of them and the end.
fn scan_backward_of<R: Read + Seek>(c: &mut ReaderCursor<R>, e: &Ents, steps: usize, d: &str) -> Result<(), String> {
    for j in 0..=steps {
        let got = c.move_on_prev().map_err(rep).map_err(|x| format!("{d}: move_on_prev #{j} failed: {x}"))?;
        same(|| format!("{d}: backward scan, step {j}"), got, want(e, (e.len() - j).checked_sub(1)))?;
    }
    Ok(())
}

/// Reader-level facts and both scans, from fresh and from reset cursors.
pub fn check_scans<R: Read + Seek + Clone>(src: R, e: &Ents, codec: u8, v1: bool, d: &str, ctx: &mut Ctx) -> Result<(), String> {
    check_scans_of(src, e, codec, v1, e.len(), d, ctx)
}
/// The same with only the first `back` steps of the backward scans.
pub fn check_scans_of<R: Read + Seek + Clone>(src: R, e: &Ents, codec: u8, v1: bool, back: usize, d: &str, ctx: &mut Ctx) -> Result<(), String> {
    let r = Reader::new(src).map_err(rep).map_err(|x| format!("{d}: Reader::new failed: {x}"))?;
    if r.len() != e.len() as u64 || r.is_empty() != e.is_empty() {
        return Err(format!("{d}: len() = {}, is_empty() = {} for {} entries", r.len(), r.is_empty(), e.len()));
    }
    if codec_id(r.compression_type()) != codec {
        return Err(format!("{d}: codec {:?} instead of {codec}", r.compression_type()));
    }
    let want_v = if v1 { grenad::FileVersion::FormatV1 } else { grenad::FileVersion::FormatV2 };
    if r.file_version() != want_v {
        return Err(format!("{d}: version {:?} instead of {want_v:?}", r.file_version()));
    }
    let mut c = r.clone().into_cursor().map_err(rep).map_err(|x| format!("{d}: into_cursor failed: {x}"))?;
    scan_forward(&mut c, e, d)?;
    c.reset();
    scan_backward_of(&mut c, e, back, d)?;
    c.reset();
    scan_forward(&mut c, e, d)?;
    let mut c = r.into_cursor().map_err(rep).map_err(|x| format!("{d}: into_cursor failed: {x}"))?;
    scan_backward_of(&mut c, e, back, d)?;
    ctx.transitions += 2 * (e.len() + back + 2) as u64 + 4;
    ctx.traces += 4;
    Ok(())
}

// ------------------------------------------------------------- seeks

/// C02: the three seeks for each probe, each on a fresh cursor and on a cursor that has been moved,
/// then reset.
pub fn check_seeks(f: &FileCase, probes: &[Vec<u8>], ctx: &mut Ctx) -> Result<(), String> {
    let fresh = f.cursor()?;
    let mut used = fresh.clone();
    let mut toggle = false;
    let mut out = H::new();
    for q in probes {
        let (g, l, x) = (ge_fast(&f.ents, q), le_fast(&f.ents, q), None);
        let x: Option<usize> = if g == l { g } else { x };
        for (name, exp, op) in [("ge", g, 0), ("le", l, 1), ("eq", x, 2)] {
            for reset in [false, true] {
                let mut c = if reset {
                    // A cursor with a history, reset.
                    let mut c = used.clone();
                    c.reset();
                    c
                } else {
                    fresh.clone()
                };
                let got = match op {
                    0 => c.move_on_key_greater_than_or_equal_to(q),
                    1 => c.move_on_key_lower_than_or_equal_to(q),
                    _ => c.move_on_key_equal_to(q),
                };
                let got = got.map_err(rep).map_err(|e| format!("{name}({}) failed: {e} on {}", hex(q), f.ctx()))?;
                same(
                    || format!("{name}({}) on a {} cursor, {}", hex(q), if reset { "reset" } else { "fresh" }, f.ctx()),
                    got,
                    want(&f.ents, exp),
                )?;
                if let Some(i) = exp {
                    same(|| format!("current() after {name}({}), {}", hex(q), f.ctx()), c.current(), want(&f.ents, Some(i)))?;
                }
                out.u(exp.map_or(u64::MAX, |i| i as u64));
                if reset {
                    used = c;
                    toggle = !toggle;
                    if toggle {
                        let _ = used.move_on_next();
                    } else {
                        let _ = used.move_on_prev();
                    }
                }
            }
        }
    }
    let n = probes.len() as u64 * 6;
    ctx.transitions += n;
    ctx.traces += n;
    ctx.nontrivial += f.ents.len().min(1) as u64;
    ctx.outcome(out.get());
    // A state: the file plus a cursor before (1) and after each distinct seek result.
    ctx.states_of(f.state(), f.ents.len() as u64 + 2);
    ctx.sample(|| format!("{} x {} probes, e.g. ge({})", f.ctx(), probes.len(), hex(&probes[probes.len() / 2])));
    Ok(())
}

// ------------------------------------------------------------- ranges

pub type B = Bound<Vec<u8>>;
pub fn bounds_of(probes: &[Vec<u8>]) -> Vec<B> {
    let mut b = vec![Bound::Unbounded];
    for p in probes {
        b.push(Bound::Included(p.clone()));
        b.push(Bound::Excluded(p.clone()));
    }
    b
}
pub fn show_bound(b: &B) -> String {
    match b {
        Bound::Unbounded => "Unbounded".into(),
        Bound::Included(k) => format!("Included({})", hex(k)),
        Bound::Excluded(k) => format!("Excluded({})", hex(k)),
    }
}
pub fn in_range(k: &[u8], lo: &B, hi: &B) -> bool {
    (match lo {
        Bound::Unbounded => true,
        Bound::Included(b) => k >= &b[..],
        Bound::Excluded(b) => k > &b[..],
    }) && (match hi {
        Bound::Unbounded => true,
        Bound::Included(b) => k <= &b[..],
        Bound::Excluded(b) => k < &b[..],
    })
}

pub fn check_ranges(f: &FileCase, bounds: &[B], ctx: &mut Ctx) -> Result<(), String> {
    let reader = Reader::new(Src::new(&f.bytes)).map_err(rep).map_err(|e| format!("Reader::new failed: {e} on {}", f.desc))?;
    let mut calls = 0;
    let mut out = H::new();
    for lo in bounds {
        for hi in bounds {
            let sel: Vec<usize> = (0..f.ents.len()).filter(|i| in_range(&f.ents[*i].0, lo, hi)).collect();
            out.u(sel.len() as u64).u(sel.first().map_or(99, |x| *x as u64));
            let rng = (lo.clone(), hi.clone());
            let d = |dir: &str, i: usize| {
                format!("{dir} range ({}, {}) step {i}, {}", show_bound(lo), show_bound(hi), f.ctx())
            };
            let mut it = reader.clone().into_range_iter::<_, Vec<u8>>(rng.clone()).map_err(rep).map_err(|e| format!("{e}"))?;
            for i in 0..=sel.len() {
                let got = it.next().map_err(rep).map_err(|e| format!("{}: {e}", d("forward", i)))?;
                same(|| d("forward", i), got, want(&f.ents, sel.get(i).copied()))?;
            }
            let mut it = reader.clone().into_rev_range_iter::<_, Vec<u8>>(rng).map_err(rep).map_err(|e| format!("{e}"))?;
            for i in 0..=sel.len() {
                let got = it.next().map_err(rep).map_err(|e| format!("{}: {e}", d("reverse", i)))?;
                same(|| d("reverse", i), got, want(&f.ents, sel.iter().rev().nth(i).copied()))?;
            }
            calls += 2 * (sel.len() as u64 + 1);
            ctx.traces += 2;
        }
    }
    ctx.transitions += calls;
    ctx.outcome(out.get());
    ctx.states_of(f.state(), (f.ents.len() as u64 + 2) * bounds.len() as u64);
    ctx.sample(|| {
        format!("{} x {}^2 bounds, e.g. ({}, {})", f.ctx(), bounds.len(), show_bound(&bounds[bounds.len() / 3]), show_bound(&bounds[bounds.len() / 2]))
    });
    Ok(())
}

// ------------------------------------------------------------- prefixes

pub fn check_prefixes(f: &FileCase, prefixes: &[Vec<u8>], ctx: &mut Ctx) -> Result<(), String> {
    let reader = Reader::new(Src::new(&f.bytes)).map_err(rep).map_err(|e| format!("Reader::new failed: {e} on {}", f.desc))?;
    let mut out = H::new();
    for p in prefixes {
        let sel: Vec<usize> = (0..f.ents.len()).filter(|i| f.ents[*i].0.starts_with(p)).collect();
        out.u(sel.len() as u64);
        let d = |dir: &str, i: usize| format!("{dir} prefix {} step {i}, {}", hex(p), f.ctx());
        let mut it = reader.clone().into_prefix_iter(p.clone()).map_err(rep).map_err(|e| format!("{e}"))?;
        for i in 0..=sel.len() {
            let got = it.next().map_err(rep).map_err(|e| format!("{}: {e}", d("forward", i)))?;
            same(|| d("forward", i), got, want(&f.ents, sel.get(i).copied()))?;
        }
        let mut it = reader.clone().into_rev_prefix_iter(p.clone()).map_err(rep).map_err(|e| format!("{e}"))?;
        for i in 0..=sel.len() {
            let got = it.next().map_err(rep).map_err(|e| format!("{}: {e}", d("reverse", i)))?;
            same(|| d("reverse", i), got, want(&f.ents, sel.iter().rev().nth(i).copied()))?;
        }
        ctx.transitions += 2 * (sel.len() as u64 + 1);
        ctx.traces += 2;
    }
    ctx.outcome(out.get());
    ctx.states_of(f.state(), (f.ents.len() as u64 + 2) * prefixes.len() as u64);
    ctx.sample(|| format!("{} x {} prefixes, e.g. {}", f.ctx(), prefixes.len(), hex(&prefixes[prefixes.len() / 2])));
    Ok(())
}
