//! Several writers, readers, mergers or sorters used in turn on one thread, and components that only
//! take or show bytes when flushed.
use crate::engine::{family, rep, Ctx, Family, H};
use crate::fmt::{self, Ents};
use crate::gen::*;
use crate::io::Src;
use crate::merges::{check_sorted, token, SCfg};
use crate::model::*;
use crate::readers::{step, Op, Pos};
use grenad::{Merger, Reader};
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::sync::Arc;

/// All orders of `a` steps of the first and `b` of the second, as bit masks over `a + b` places.
fn orders(a: usize, b: usize) -> Vec<u32> {
    (0u32..1 << (a + b)).filter(|m| m.count_ones() as usize == b).collect()
}
const PAIR: [(u8, usize, u8, u8, usize, u8); 8] = [
    (0, 1, 0, 0, 1, 0),
    (0, 2, 2, 0, 1, 1),
    (5, 1, 1, 5, 3, 1),
    (2, 2, 1, 2, 2, 0),
    (3, 1, 2, 3, 1, 2),
    (4, 8, 0, 4, 1, 0),
    (1, 1, 1, 1, 8, 2),
    (0, 1, 2, 4, 2, 1),
];
fn pair(i: usize) -> [Cfg; 2] {
    let p = PAIR[i];
    [Cfg::new(p.0, 1024, p.1, p.2), Cfg::new(p.3, 1024, p.4, p.5)]
}
/// Entries of two writers, with nothing in common.
fn pair_ents(shapes: usize, n: usize) -> [Ents; 2] {
    let size = [(1usize, 0usize), (1, 1100), (520, 3), (1, 400)];
    let of = |which: usize, s: usize| -> Ents {
        (0..n)
            .map(|i| {
                let (k, v) = size[(s >> (i % 2)) % 4];
                let mut key = vec![(40 * which + 5 * i) as u8; k];
                key.push(which as u8);
                (key, bytes((which * 100 + i) as u64, v, 3))
            })
            .collect()
    };
    [of(0, shapes % 4), of(1, shapes / 4)]
}
/// Two writers whose inserts and ends take turns: each file as if it had been written alone.
pub fn writers(deep: bool, scans: bool) -> Family {
    let n = if deep { 5 } else { 4 };
    let ord = orders(n + 1, n + 1);
    let dims = [ord.len(), 16, PAIR.len()];
    family(
        "two-writers",
        format!("two writers of {n} entries, all {} orders of their inserts and ends on one thread x 16 entry sizes x {} pairs of configurations", ord.len(), PAIR.len()),
        product(&dims),
        move |case, ctx| {
            let mut r = Radix(case);
            let (order, shapes, p) = (r.pick(&ord), r.take(16), r.take(PAIR.len()));
            let (cfgs, ents) = (pair(p), pair_ents(shapes, n));
            let d = format!("two writers {cfgs:?} in order {order:b}, sizes {shapes}");
            let mut w = [Some(cfgs[0].builder().memory()), Some(cfgs[1].builder().memory())];
            let mut at = [0, 0];
            let mut out = [vec![], vec![]];
            for s in 0..2 * n + 2 {
                let x = (order >> s & 1) as usize;
                if at[x] < n {
                    let (k, v) = &ents[x][at[x]];
                    w[x].as_mut().unwrap().insert(k, v).map_err(rep).map_err(|e| format!("insert: {e}; {d}"))?;
                } else {
                    out[x] = w[x].take().unwrap().into_inner().map_err(rep).map_err(|e| format!("into_inner: {e}; {d}"))?;
                }
                at[x] += 1;
                ctx.transitions += 1;
            }
            for x in 0..2 {
                if scans {
                    check_scans(Src::new(&Arc::new(out[x].clone())), &ents[x], cfgs[x].codec, false, &format!("file {x} of {d}"), ctx)?;
                } else if out[x] != cfgs[x].write(&ents[x])? {
                    return Err(format!("file {x} is not the one written alone: {d}"));
                }
            }
            ctx.traces += 1;
            ctx.state(H::new().u(case).u(0x117).get());
            Ok(())
        },
    )
}
/// Two files, one more than the other.
fn two_files(case: usize) -> [FileCase; 2] {
    let codec = [fmt::NONE, 5, 2, 3, 4, 1][case / 3 % 6];
    let lay = case % 3;
    let one = |n: usize, which: usize, codec: u8| {
        let ents: Ents = (0..n).map(|i| (vec![b'a' + 2 * i as u8 + which as u8], bytes((10 * which + i) as u64, [1, 300][(i + which) % 2], 3))).collect();
        let cuts: Vec<u8> = (1..n).map(|i| [0, 1, 1 + (i % 2) as u8][lay]).collect();
        FileCase { bytes: Arc::new(fmt::encode(&ents, [0, 1, 2][lay], &cuts, 1 + which, codec)), ents, desc: format!("file {which} of two, layout {lay}, codec {codec}") }
    };
    [one(4, 0, codec), one(3, 1, if case % 2 == 0 { codec } else { fmt::NONE })]
}
/// Cursors over two files, their operations in turn: each as if it were alone.
pub fn cursors(deep: bool) -> Family {
    let depth = if deep { 5 } else { 4 };
    let pairs: Vec<usize> = if deep { (0..18).collect() } else { vec![0, 4, 8, 9, 13, 17] };
    family("two-files", format!("{} pairs of files x all histories of {depth} operations (8 of them) on a cursor over either", pairs.len()), 16 * pairs.len() as u64, move |case, ctx| {
        let f = two_files(pairs[case as usize / 16]);
        let ops: Vec<Vec<Op>> = f
            .iter()
            .map(|f| {
                let k = f.ents[f.ents.len() / 2].0.clone();
                vec![Op::First, Op::Last, Op::Next, Op::Prev, Op::Reset, Op::Ge(k.clone()), Op::Le([k.clone(), vec![1]].concat()), Op::Eq(k)]
            })
            .collect();
        let start = [f[0].cursor()?, f[1].cursor()?];
        for s in (case % 16..16u64.pow(depth)).step_by(16) {
            let mut both = start.clone();
            let mut pos = [Pos::Fresh, Pos::Fresh];
            let mut x = s;
            for _ in 0..depth {
                let (w, o) = ((x % 2) as usize, (x / 2 % 8) as usize);
                x /= 16;
                pos[w] = step(&mut both[w], &f[w].ents, pos[w], &ops[w][o]).map_err(|m| format!("cursors over two files, history {s:x}: {m}; {}", f[w].ctx()))?;
                // The other one has not moved.
                if let Pos::At(i) = pos[1 - w] {
                    same(|| format!("the other cursor, history {s:x}"), both[1 - w].current(), want(&f[1 - w].ents, Some(i)))?;
                }
                ctx.transitions += 1;
            }
        }
        ctx.traces += 16u64.pow(depth - 1);
        ctx.states_of(f[0].state() ^ 0x2F ^ case << 8, 20);
        Ok(())
    })
}
/// Iterators over two files, their steps in turn.
pub fn iterators(prefixes: bool) -> Family {
    let ord = orders(5, 4);
    let n = ord.len();
    let dims = [18, n];
    family("two-files", format!("18 pairs of files x forward and reverse iterators over each, their steps in all {n} orders"), product(&dims), move |case, ctx| {
        let mut r = Radix(case);
        let f = two_files(r.take(18));
        let order = r.pick(&ord);
        let read = |w: usize| Reader::new(Src::new(&f[w].bytes)).map_err(|e| e.to_string());
        macro_rules! run {
            ($a:expr, $b:expr, $rev:expr) => {{
                let (mut a, mut b) = ($a, $b);
                let mut at = [0usize; 2];
                for s in 0..9 {
                    let x = (order >> s & 1) as usize;
                    let n = f[x].ents.len();
                    let i = at[x];
                    at[x] += 1;
                    if i > n {
                        continue;
                    }
                    let rev = $rev[x];
                    let exp = want(&f[x].ents, (i < n).then(|| if rev { n - 1 - i } else { i }));
                    let d = || format!("iterators over two files in order {order:b}, step {s}; {}", f[x].ctx());
                    let got = if x == 0 { a.next() } else { b.next() };
                    same(d, got.map_err(|e| format!("{e}: {}", d()))?, exp)?;
                    ctx.transitions += 1;
                }
            }};
        }
        let e = |e: grenad::Error| e.to_string();
        if prefixes {
            run!(read(0)?.into_prefix_iter(vec![]).map_err(e)?, read(1)?.into_rev_prefix_iter(vec![]).map_err(e)?, [false, true]);
            run!(read(0)?.into_rev_prefix_iter(vec![]).map_err(e)?, read(1)?.into_prefix_iter(vec![]).map_err(e)?, [true, false]);
            run!(read(0)?.into_prefix_iter(vec![]).map_err(e)?, read(1)?.into_prefix_iter(vec![]).map_err(e)?, [false, false]);
        } else {
            run!(read(0)?.into_range_iter::<_, Vec<u8>>(..).map_err(e)?, read(1)?.into_rev_range_iter::<_, Vec<u8>>(..).map_err(e)?, [false, true]);
            run!(read(0)?.into_rev_range_iter::<_, Vec<u8>>(..).map_err(e)?, read(1)?.into_range_iter::<_, Vec<u8>>(..).map_err(e)?, [true, false]);
            run!(read(0)?.into_range_iter::<_, Vec<u8>>(..).map_err(e)?, read(1)?.into_range_iter::<_, Vec<u8>>(..).map_err(e)?, [false, false]);
        }
        ctx.traces += 3;
        ctx.state(H::new().u(case).u(0x2F1).get());
        Ok(())
    })
}
/// Two mergers, their steps in turn.
pub fn mergers() -> Family {
    let ord = orders(7, 6);
    let dims = [ord.len(), 6];
    family("two-mergers", format!("two mergers of three files each, their steps in all {} orders, 6 codecs", ord.len()), product(&dims), move |case, ctx| {
        let mut r = Radix(case);
        let order = r.pick(&ord);
        let codec = r.take(6) as u8;
        let mut its = vec![];
        let mut exp: Vec<Ents> = vec![];
        for w in 0..2usize {
            let mut b = Merger::builder(crate::merges::Concat);
            let mut all = std::collections::BTreeMap::<Vec<u8>, Vec<u8>>::new();
            for s in 0..3usize {
                let ents: Ents = (0..7 - w).filter(|i| (i + s) % 3 != 0).map(|i| (vec![(2 * i + w) as u8; 1 + i], vec![(16 * w + s) as u8; 1 + (i + s) % 3])).collect();
                for (k, v) in &ents {
                    all.entry(k.clone()).or_default().extend(v);
                }
                b.push(open(Src::new(&Arc::new(Cfg::new(codec, 1024, 1 + s, w as u8).write(&ents)?)), "source of two mergers")?);
            }
            its.push(b.build().into_stream_merger_iter().map_err(|e| e.to_string())?);
            exp.push(all.into_iter().collect());
        }
        let mut at = [0usize; 2];
        for s in 0..13 {
            let x = (order >> s & 1) as usize;
            let d = || format!("merger {x} of two in order {order:b}, step {s}, codec {codec}");
            let got = its[x].next().map_err(|e| format!("{e}: {}", d()))?;
            same(d, got, exp[x].get(at[x]).map(|(k, v)| (&k[..], &v[..])))?;
            at[x] += 1;
            ctx.transitions += 1;
            if at[x] > exp[x].len() {
                break;
            }
        }
        ctx.traces += 1;
        ctx.state(H::new().u(case).u(0x3E).get());
        Ok(())
    })
}
/// Two sorters, their inserts and then their outputs in turn.
pub fn sorters() -> Family {
    let ord = orders(6, 6);
    let dims = [ord.len(), 3, 2, 4, 2];
    family("two-sorters", format!("two sorters of 12 inserts each, two at a time in all {} orders, 3 budgets, 1 or 2 chunks, 4 codecs, output of one before or in turn with the other", ord.len()), product(&dims), move |case, ctx| {
        let mut r = Radix(case);
        let (order, budget, max, codec, turn) = (r.pick(&ord), r.pick(&[64, 160, 4000]), 1 + r.take(2), r.pick(&[0u8, 5, 3, 4]), r.take(2) == 1);
        let cfg = SCfg::small(budget, 16, true, max);
        let d = format!("two sorters in order {order:b}, budget {budget}, at most {max} chunks, codec {codec}, outputs in turn: {turn}");
        let make = || {
            let mut b = cfg.builder(crate::merges::Concat, grenad::CursorVec);
            b.chunk_compression_type(ctype(codec));
            b.build()
        };
        let ents: Vec<Ents> = (0..2usize).map(|w| (0..12usize).map(|i| (vec![b'k', (i * (5 + 2 * w) % 12 / 2) as u8], token(100 * w + i, (i + w) % 3))).collect()).collect();
        let mut s = [make(), make()];
        let mut at = [0usize; 2];
        for i in 0..12 {
            let x = (order >> i & 1) as usize;
            for _ in 0..2 {
                let (k, v) = &ents[x][at[x]];
                s[x].insert(k, v).map_err(rep).map_err(|e| format!("insert: {e}; {d}"))?;
                at[x] += 1;
                ctx.transitions += 1;
            }
        }
        let [a, b] = s;
        let mut its = vec![a.into_stream_merger_iter().map_err(|e| format!("{e}; {d}"))?, b.into_stream_merger_iter().map_err(|e| format!("{e}; {d}"))?];
        let mut out: Vec<Ents> = vec![vec![], vec![]];
        for i in 0..14 {
            let x = if turn { i % 2 } else { i / 7 };
            if let Some((k, v)) = its[x].next().map_err(|e| format!("{e}; {d}"))? {
                out[x].push((k.to_vec(), v.to_vec()));
            }
            ctx.transitions += 1;
        }
        for x in 0..2 {
            check_sorted(&out[x], &ents[x], false).map_err(|e| format!("sorter {x}: {e}; {d}"))?;
        }
        ctx.traces += 1;
        ctx.state(H::new().u(case).u(0x50).get());
        Ok(())
    })
}

/// Takes bytes into a buffer; only what has been flushed is there for others, or for reads.
#[derive(Default)]
struct OnFlush {
    done: Rc<RefCell<Vec<u8>>>,
    pending: Vec<u8>,
    pos: u64,
}
impl Write for OnFlush {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(700);
        self.pending.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.done.borrow_mut().append(&mut self.pending);
        Ok(())
    }
}
impl Read for OnFlush {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let d = self.done.borrow();
        let n = (&d[d.len().min(self.pos as usize)..]).read(b)?;
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for OnFlush {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let n = self.done.borrow().len() as i64;
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(o) => n + o,
            SeekFrom::Current(o) => self.pos as i64 + o,
        };
        self.pos = u64::try_from(p).map_err(|_| io::Error::from(io::ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}
struct Flushing;
impl grenad::ChunkCreator for Flushing {
    type Chunk = OnFlush;
    type Error = io::Error;
    fn create(&self) -> io::Result<OnFlush> {
        Ok(OnFlush::default())
    }
}
/// Sinks that buffer: the file is there once the writer is finished.
pub fn flushed_sinks() -> Family {
    let dims = [16, PAIR.len(), 6, 2];
    family("flushed-sinks", "sinks that only deliver when flushed: 16 entry sizes x 8 configurations x 0..=5 entries x finish / into_inner", product(&dims), |case, ctx| {
        let mut r = Radix(case);
        let (shapes, p, n, into) = (r.take(16), r.take(PAIR.len()), r.take(6), r.take(2) == 1);
        let cfg = pair(p)[0];
        let [_, ents] = pair_ents(shapes, n);
        let sink = OnFlush::default();
        let done = sink.done.clone();
        let d = format!("a sink that delivers when flushed, {cfg:?}, sizes {shapes}, {n} entries, into_inner: {into}");
        let mut w = cfg.builder().build(sink);
        for (k, v) in &ents {
            w.insert(k, v).map_err(rep).map_err(|e| format!("insert: {e}; {d}"))?;
        }
        if into {
            w.into_inner().map(drop).map_err(rep).map_err(|e| format!("into_inner: {e}; {d}"))?;
        } else {
            w.finish().map_err(rep).map_err(|e| format!("finish: {e}; {d}"))?;
        }
        let b = done.borrow().clone();
        check_scans(Src::new(&Arc::new(b)), &ents, cfg.codec, false, &d, ctx)?;
        ctx.traces += 1;
        ctx.state(H::new().u(case).u(0xF1).get());
        Ok(())
    })
}
/// The same as chunk storage.
pub fn flushed_chunks() -> Family {
    let dims = [3, 3, 4, 4, 41];
    family("flushed-chunks", "chunk storage that only shows what has been flushed: 0..=40 inserts, 3 budgets, 1..=3 chunks, 4 outputs, 4 algorithms", product(&dims), |case, ctx| {
        let mut r = Radix(case);
        let mut cfg = SCfg::small(r.pick(&[64, 300, 5000]), 16, true, 1 + r.take(3));
        let alg = r.take(4);
        cfg.unstable = alg & 1 == 1;
        cfg.parallel = alg & 2 == 2;
        cfg.out = r.take(4) as u8;
        let n = r.take(41);
        let ents: Ents = (0..n).map(|i| (uniform_key(i * 7 % 13), token(i, i % 4))).collect();
        let d = |e: String| format!("{e}; chunk storage that shows what is flushed, {n} inserts, {cfg:?}");
        let out = crate::merges::drive(&cfg, Flushing, &ents).map_err(d)?;
        check_sorted(&out, &ents, cfg.unstable).map_err(d)?;
        ctx.transitions += n as u64 + out.len() as u64;
        ctx.traces += 1;
        ctx.state(H::new().u(case).u(0xF2).get());
        Ok(())
    })
}
/// A sink with room for so many bytes.
struct Room(usize);
impl Write for Room {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        if n == 0 && !b.is_empty() {
            return Err(io::Error::from_raw_os_error(28));
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// A buffer in front of a sink that fills up: some call must tell.
pub fn buffered_sinks() -> Family {
    let dims = [16, PAIR.len(), 4, 2, 5];
    family(
        "buffered-sinks",
        "std::io::BufWriter (buffers of 0, 10, 1000, 8192 bytes, or 1 MiB) before a sink that takes so many bytes, for every number short of the file, by steps; 16 entry sizes x 8 configurations x 0, 1, 3, 5 entries x finish / into_inner",
        product(&dims),
        |case, ctx| {
            let mut r = Radix(case);
            let (shapes, p, n, into, cap) = (r.take(16), r.take(PAIR.len()), r.pick(&[0usize, 1, 3, 5]), r.take(2) == 1, r.pick(&[0, 10, 1000, 8192, 1 << 20]));
            let cfg = pair(p)[0];
            let [_, ents] = pair_ents(shapes, n);
            let len = cfg.write(&ents)?.len();
            let mut rooms: Vec<usize> = (0..len).step_by(1 + len / 12).collect();
            rooms.extend([len - 1, len.saturating_sub(22), len, len + 1]);
            for room in rooms {
                let d = format!("a buffer of {cap} before a sink of {room} bytes, a file of {len}; {cfg:?}, sizes {shapes}, {n} entries, into_inner: {into}");
                let mut w = cfg.builder().build(io::BufWriter::with_capacity(cap, Room(room)));
                let mut res: io::Result<()> = Ok(());
                for (k, v) in &ents {
                    res = w.insert(k, v);
                    if res.is_err() {
                        break;
                    }
                }
                if res.is_ok() {
                    res = if into { w.into_inner().map(drop) } else { w.finish() };
                }
                match res {
                    Ok(()) if room < len => return Err(format!("no failure reported: {d}")),
                    Err(e) if room >= len => return Err(format!("{e}: {d}")),
                    Err(e) if e.raw_os_error() != Some(28) => return Err(format!("another error, {e}: {d}")),
                    _ => (),
                }
                ctx.traces += 1;
                ctx.transitions += n as u64 + 1;
                ctx.state(H::new().u(case).u(room as u64).u(0xF3).get());
            }
            Ok(())
        },
    )
}
