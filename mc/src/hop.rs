//! Values handed from thread to thread between the calls on them. The calls never overlap: the calling
//! thread waits for each. What a crate keeps per thread must not matter.
use crate::engine::{family, rep, Ctx, Family, H};
use crate::fmt::{self, Ents};
use crate::gen::*;
use crate::io::Src;
use crate::merges::{check_sorted, token, Concat, SCfg};
use crate::model::*;
use crate::readers::{step, Op, Pos};
use grenad::{Merger, Reader};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;

/// Whether a type may change threads at all: found out by the compiler, so that a crate whose types
/// may not still builds, and is not moved.
struct Movable<T>(std::marker::PhantomData<T>);
trait No {
    const YES: bool = false;
}
impl<T> No for Movable<T> {}
impl<T: Send> Movable<T> {
    const YES: bool = true;
}

type Job = Box<dyn FnOnce() + Send>;
struct Workers {
    jobs: [Sender<Job>; 2],
    done: Receiver<Option<Box<dyn std::any::Any + Send>>>,
}
thread_local! {
    static WORKERS: RefCell<Option<Workers>> = const { RefCell::new(None) };
}
struct Over<T>(T);
// The receiving thread is the only one running until it is done, and what is moved is `Send` where it counts.
unsafe impl<T> Send for Over<T> {}
impl<T> Over<T> {
    fn take(self) -> T {
        self.0
    }
}
/// Runs `f` on worker `w` of the calling thread and waits for it.
fn on<T>(w: usize, f: impl FnOnce() -> T) -> T {
    let mut out: Option<T> = None;
    let job = {
        let out = Over(&mut out);
        let f = Over(f);
        move || *out.take() = Some(f.take()())
    };
    let job: Box<dyn FnOnce() + Send + '_> = Box::new(job);
    // The caller does not go on before the job is over.
    let job: Job = unsafe { std::mem::transmute(job) };
    let panicked = WORKERS.with(|p| {
        let mut p = p.borrow_mut();
        let p = p.get_or_insert_with(|| {
            let (tx, done) = channel();
            let jobs = [0, 1].map(|_| {
                let (jobs, rx) = channel::<Job>();
                let tx = tx.clone();
                std::thread::spawn(move || {
                    for j in rx {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j));
                        if tx.send(r.err()).is_err() {
                            break;
                        }
                    }
                });
                jobs
            });
            Workers { jobs, done }
        });
        p.jobs[w].send(job).expect("worker");
        p.done.recv().expect("worker")
    });
    if let Some(p) = panicked {
        std::panic::resume_unwind(p);
    }
    out.expect("the job has run")
}
/// The same where `T` may be moved, else in place.
fn hop<T>(movable: bool, w: usize, f: impl FnOnce() -> T) -> T {
    if movable {
        on(w, f)
    } else {
        f()
    }
}

type C = Cursor<Arc<[u8]>>;
fn src(b: &[u8]) -> C {
    Cursor::new(Arc::from(b))
}
const CFGS: [(u8, usize, u8); 7] = [(0, 1, 0), (0, 2, 2), (5, 1, 1), (2, 3, 1), (3, 1, 0), (4, 2, 1), (1, 1, 0)];
fn cfg(i: usize) -> Cfg {
    let c = CFGS[i];
    Cfg::new(c.0, 1024, c.1, c.2)
}
fn ents(n: usize, which: usize, big: usize) -> Ents {
    (0..n).map(|i| (vec![(3 * i + which) as u8 + 1; [1, 340][(i + big) % 2 * (big / 2 % 2)]], bytes((50 * which + i) as u64, [2, 700][(i + which + big) % 2], 2))).collect()
}
const TWO: &str = "two of them used in turn, each call on one of two threads, all assignments";

/// Two writers, each call made on either of two threads.
pub fn writers() -> Family {
    let n = 3;
    let dims = [1 << (2 * n + 2), CFGS.len(), 4];
    family("moved-between-threads", format!("writers of {n} entries: {TWO} x {} configurations x 4 size patterns", CFGS.len()), product(&dims), move |case, ctx| {
        let mut r = Radix(case);
        let (sched, c, big) = (r.take(1 << (2 * n + 2)), r.take(CFGS.len()), r.take(4));
        let cfgs = [cfg(c), cfg((c + 2) % CFGS.len())];
        let e = [ents(n, 0, big), ents(n, 1, big)];
        let mv = Movable::<grenad::Writer<Vec<u8>>>::YES;
        let d = format!("two writers {cfgs:?}, sizes {big}, threads {sched:b}");
        let mut w = [Some(cfgs[0].builder().memory()), Some(cfgs[1].builder().memory())];
        let mut out = vec![];
        for s in 0..2 * n + 2 {
            let (x, i) = (s % 2, s / 2);
            if i < n {
                let w = w[x].as_mut().unwrap();
                hop(mv, sched >> s & 1, || w.insert(&e[x][i].0, &e[x][i].1)).map_err(rep).map_err(|e| format!("insert: {e}; {d}"))?;
            } else {
                let w = w[x].take().unwrap();
                out.push(hop(mv, sched >> s & 1, || w.into_inner()).map_err(rep).map_err(|e| format!("into_inner: {e}; {d}"))?);
            }
            ctx.transitions += 1;
        }
        for x in 0..2 {
            check_scans(Src::new(&Arc::new(out[x].clone())), &e[x], cfgs[x].codec, false, &format!("file {x} of {d}"), ctx)?;
        }
        ctx.traces += 1;
        ctx.state(H::new().u(case).u(0x40).get());
        Ok(())
    })
}
fn two(case: usize) -> [FileCase; 2] {
    [0usize, 1].map(|w| {
        let (codec, lay) = ([0u8, 5, 2, 3, 4, 1][(case / 3 + w) % 6], (case + w) % 3);
        let e = ents(4, w, case % 4);
        let cuts: Vec<u8> = (1..4).map(|i| [0, 1, 1 + (i % 2) as u8][lay]).collect();
        FileCase { bytes: Arc::new(fmt::encode(&e, [0, 1, 2][lay], &cuts, 1 + w, codec)), ents: e, desc: format!("file {w} of two, layout {lay}, codec {codec}") }
    })
}
/// Cursors over two files, each call made on either of two threads.
pub fn cursors(deep: bool) -> Family {
    let depth = if deep { 4 } else { 3 };
    let n = if deep { 18 } else { 3 };
    let hists = 1usize << (3 * depth);
    family("moved-between-threads", format!("cursors over {n} pairs of files: {TWO} x all histories of {depth} operations (8 of them) x which cursor starts"), (n * 2 * hists) as u64, move |case, ctx| {
        let mut r = Radix(case);
        let (hist, first, p) = (r.take(hists), r.take(2), r.take(n));
        let f = two(if deep { p } else { 7 * p });
        let mv = Movable::<grenad::ReaderCursor<C>>::YES;
        for sched in 0..1usize << depth {
            let open = |w: usize| Reader::new(src(&f[w].bytes)).and_then(|r| r.into_cursor()).map_err(|e| e.to_string());
            let mut c = [open(0)?, open(1)?];
            let mut pos = [Pos::Fresh, Pos::Fresh];
            for s in 0..depth {
                let x = (s + first) % 2;
                let k = f[x].ents[1 + s / 2].0.clone();
                let op = match hist >> (3 * s) & 7 {
                    0 => Op::First,
                    1 => Op::Last,
                    2 => Op::Next,
                    3 => Op::Prev,
                    4 => Op::Reset,
                    5 => Op::Ge(k),
                    6 => Op::Le([&k[..], &[1]].concat()),
                    _ => Op::Eq(k),
                };
                let (cur, e, at) = (&mut c[x], &f[x].ents, pos[x]);
                pos[x] = hop(mv, sched >> s & 1, || step(cur, e, at, &op)).map_err(|m| format!("step {s} of history {hist:o}, threads {sched:b}: {m}; {}", f[x].ctx()))?;
                ctx.transitions += 1;
            }
            ctx.traces += 1;
        }
        ctx.states_of(f[0].state() ^ case << 9, 1 << depth);
        Ok(())
    })
}
/// Iterators over two files, each call made on either of two threads.
pub fn iterators(prefixes: bool) -> Family {
    let dims = [1 << 10, 18, 2];
    family("moved-between-threads", format!("iterators over 18 pairs of files, forward and reverse: {TWO}"), product(&dims), move |case, ctx| {
        let mut r = Radix(case);
        let (sched, p, rev) = (r.take(1 << 10), r.take(18), r.take(2) == 1);
        let f = two(p);
        let read = |w: usize| Reader::new(src(&f[w].bytes)).map_err(|e| e.to_string());
        let er = |e: grenad::Error| e.to_string();
        macro_rules! run {
            ($a:expr, $b:expr, $ma:expr, $mb:expr) => {{
                let (mut a, mut b) = ($a, $b);
                for s in 0..10 {
                    let (x, i) = (s % 2, s / 2);
                    let back = rev != (x == 1);
                    let exp = want(&f[x].ents, (i < 4).then(|| if back { 3 - i } else { i }));
                    let d = || format!("step {s} of two iterators, threads {sched:b}, reverse first: {rev}; {}", f[x].ctx());
                    let w = sched >> s & 1;
                    let owned = |r: grenad::Result<Option<(&[u8], &[u8])>>| r.map(|o| o.map(|(k, v)| (k.to_vec(), v.to_vec()))).map_err(|e| e.to_string());
                    let got = if x == 0 { hop($ma, w, || owned(a.next())) } else { hop($mb, w, || owned(b.next())) };
                    let got = got.map_err(|e| format!("{e}: {}", d()))?;
                    same(d, got.as_ref().map(|(k, v)| (&k[..], &v[..])), exp)?;
                    ctx.transitions += 1;
                }
            }};
        }
        if prefixes {
            let (m, rm) = (Movable::<grenad::PrefixIter<C>>::YES, Movable::<grenad::RevPrefixIter<C>>::YES);
            if rev {
                run!(read(0)?.into_rev_prefix_iter(vec![]).map_err(er)?, read(1)?.into_prefix_iter(vec![]).map_err(er)?, rm, m);
            } else {
                run!(read(0)?.into_prefix_iter(vec![]).map_err(er)?, read(1)?.into_rev_prefix_iter(vec![]).map_err(er)?, m, rm);
            }
        } else {
            let (m, rm) = (Movable::<grenad::RangeIter<C>>::YES, Movable::<grenad::RevRangeIter<C>>::YES);
            if rev {
                run!(read(0)?.into_rev_range_iter::<_, Vec<u8>>(..).map_err(er)?, read(1)?.into_range_iter::<_, Vec<u8>>(..).map_err(er)?, rm, m);
            } else {
                run!(read(0)?.into_range_iter::<_, Vec<u8>>(..).map_err(er)?, read(1)?.into_rev_range_iter::<_, Vec<u8>>(..).map_err(er)?, m, rm);
            }
        }
        ctx.traces += 1;
        ctx.state(H::new().u(case).u(0x42).get());
        Ok(())
    })
}
/// Two mergers, each call made on either of two threads.
pub fn mergers() -> Family {
    let dims = [1 << 12, 6];
    family("moved-between-threads", format!("mergers of three files and 5 keys: {TWO} x 6 codecs"), product(&dims), |case, ctx| {
        let mut r = Radix(case);
        let (sched, codec) = (r.take(1 << 12), r.take(6) as u8);
        let mv = Movable::<grenad::MergerIter<C, Concat>>::YES;
        let (mut its, mut exp) = (vec![], vec![]);
        for w in 0..2usize {
            let mut b = Merger::builder(Concat);
            let mut all = BTreeMap::<Vec<u8>, Vec<u8>>::new();
            for s in 0..3usize {
                let e: Ents = (0..5).filter(|i| (i + s) % 3 != 0).map(|i| (vec![(2 * i + w) as u8; 1 + i], vec![(16 * w + s) as u8; 1 + (i + s) % 3])).collect();
                for (k, v) in &e {
                    all.entry(k.clone()).or_default().extend(v);
                }
                b.push(Reader::new(src(&Cfg::new(codec, 1024, 1 + s, w as u8).write(&e)?)).and_then(|r| r.into_cursor()).map_err(|e| e.to_string())?);
            }
            its.push(b.build().into_stream_merger_iter().map_err(|e| e.to_string())?);
            exp.push(all.into_iter().collect::<Ents>());
        }
        for s in 0..12 {
            let (x, i) = (s % 2, s / 2);
            let d = || format!("step {s} of two mergers, threads {sched:b}, codec {codec}");
            let it = &mut its[x];
            let got = hop(mv, sched >> s & 1, || it.next().map(|o| o.map(|(k, v)| (k.to_vec(), v.to_vec()))).map_err(|e| e.to_string())).map_err(|e| format!("{e}: {}", d()))?;
            same(d, got.as_ref().map(|(k, v)| (&k[..], &v[..])), exp[x].get(i).map(|(k, v)| (&k[..], &v[..])))?;
            ctx.transitions += 1;
        }
        ctx.traces += 1;
        ctx.state(H::new().u(case).u(0x43).get());
        Ok(())
    })
}
/// Two sorters, each insert and the outputs made on either of two threads.
pub fn sorters() -> Family {
    let dims = [1 << 10, 3, 2, 2];
    family("moved-between-threads", format!("sorters (or, where these may not change threads, what they return) of 12 inserts, three at a time: {TWO} x 3 budgets x 1 or 2 chunks x stable or unstable"), product(&dims), |case, ctx| {
        let mut r = Radix(case);
        let (sched, budget, max, unstable) = (r.take(1 << 10), r.pick(&[64, 160, 4000]), 1 + r.take(2), r.take(2) == 1);
        let mut cfg = SCfg::small(budget, 16, true, max);
        cfg.unstable = unstable;
        let mv = Movable::<grenad::Sorter<Concat, grenad::CursorVec>>::YES;
        let mi = Movable::<grenad::MergerIter<Cursor<Vec<u8>>, Concat>>::YES;
        let d = format!("two sorters, threads {sched:b}, budget {budget}, at most {max} chunks, unstable {unstable}");
        for w in 0..2 {
            hop(mv, w, || cfg.limits());
        }
        let e: Vec<Ents> = (0..2usize).map(|w| (0..12usize).map(|i| (vec![b'k', (i * (5 + 2 * w) % 12 / 2) as u8], token(100 * w + i, (i + w) % 3))).collect()).collect();
        let mut so = [0, 1].map(|_| Some(cfg.builder(Concat, grenad::CursorVec).build()));
        let mut out: Vec<Ents> = vec![];
        for s in 0..10 {
            let (x, i) = (s % 2, s / 2);
            let w = sched >> s & 1;
            if i < 4 {
                let so = so[x].as_mut().unwrap();
                let part = &e[x][3 * i..3 * i + 3];
                hop(mv, w, || part.iter().try_for_each(|(k, v)| so.insert(k, v))).map_err(rep).map_err(|e| format!("insert: {e}; {d}"))?;
            } else {
                let so = so[x].take().unwrap();
                let mut it = hop(mv, w, || so.into_stream_merger_iter()).map_err(|e| format!("{e}; {d}"))?;
                let (mut v, mut j) = (vec![], 0);
                loop {
                    let o = hop(mi, (sched >> j) & 1, || it.next().map(|o| o.map(|(k, x)| (k.to_vec(), x.to_vec()))).map_err(|e| e.to_string())).map_err(|e| format!("{e}; {d}"))?;
                    v.extend(o.clone());
                    j = (j + 1) % 10;
                    if o.is_none() {
                        break;
                    }
                }
                out.push(v);
            }
            ctx.transitions += 3;
        }
        for x in 0..2 {
            check_sorted(&out[x], &e[x], unstable).map_err(|e| format!("sorter {x}: {e}; {d}"))?;
        }
        ctx.traces += 1;
        ctx.state(H::new().u(case).u(0x44).get());
        Ok(())
    })
}
