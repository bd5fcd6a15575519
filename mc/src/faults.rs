//! C11, C12: every answer a sink, source, chunk storage, chunk creator or merge function can give at
//! every single call, over scenarios of the real writer, readers, merger and sorter.
use crate::engine::{errors_only, family, guard, hash, Check, Ctx, Family, H};
use crate::fmt::{self, Ents};
use crate::gen::*;
use crate::io::{parts, Ans, Call, Creator, Env, EnvSrc, Injected};
use crate::merges::{token, SCfg};
use crate::model::uniform_key;
use grenad::{ChunkCreator, MergeFunction, Merger, Reader, ReaderCursor, Writer};
use std::borrow::Cow;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Write};
use std::ops::Bound;
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ recording

/// The error of a public call, reduced to what identifies the failure.
#[derive(Clone, Debug, PartialEq)]
pub struct Info {
    variant: &'static str,
    kind: Option<ErrorKind>,
    id: Option<u64>,
    os: Option<i32>,
    text: String,
}
/// The error of the merge functions.
#[derive(Debug)]
pub struct MyErr(u64);
impl std::fmt::Display for MyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "merge failure {}", self.0)
    }
}
pub trait ToInfo {
    fn info(&self) -> Info;
}
impl ToInfo for io::Error {
    fn info(&self) -> Info {
        // The payload, itself or behind the wrapping of a codec.
        let mut id = None;
        let mut os = self.raw_os_error();
        let mut cur: Option<&(dyn std::error::Error + 'static)> = self.get_ref().map(|e| e as _);
        while let Some(e) = cur {
            if let Some(i) = e.downcast_ref::<Injected>() {
                id = Some(i.0);
            }
            if let Some(i) = e.downcast_ref::<io::Error>() {
                os = os.or(i.raw_os_error());
                if let Some(j) = i.get_ref().and_then(|e| e.downcast_ref::<Injected>()) {
                    id = Some(j.0);
                }
            }
            cur = e.source();
        }
        let text = self.to_string();
        if id.is_none() {
            if let Some(i) = text.find(crate::io::MARK) {
                id = text[i + crate::io::MARK.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok();
            }
        }
        Info { variant: "Io", kind: Some(self.kind()), id, os, text }
    }
}
fn grenad_info<U>(e: &grenad::Error<U>, merge: impl Fn(&U) -> u64) -> Info {
    let other = |variant| Info { variant, kind: None, id: None, os: None, text: String::new() };
    match e {
        grenad::Error::Io(e) => e.info(),
        grenad::Error::Merge(m) => Info { id: Some(merge(m)), ..other("Merge") },
        grenad::Error::InvalidCompressionType => other("InvalidCompressionType"),
        grenad::Error::InvalidFormatVersion => other("InvalidFormatVersion"),
    }
}
impl ToInfo for grenad::Error {
    fn info(&self) -> Info {
        grenad_info(self, |_| 0)
    }
}
impl ToInfo for grenad::Error<MyErr> {
    fn info(&self) -> Info {
        grenad_info(self, |m| m.0)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(u64),
    Err(Info),
    Panic(String),
}
#[derive(Clone, Debug)]
pub struct Step {
    label: &'static str,
    /// Calls to components it made.
    before: u64,
    after: u64,
    /// Failures among them, as a range of `Env::fails`.
    f0: usize,
    f1: usize,
    res: Res,
}
pub struct Rec {
    env: Rc<Env>,
    steps: Vec<Step>,
    /// Goes on after errors.
    cont: bool,
    dead: bool,
}
impl Rec {
    fn new(env: &Rc<Env>, cont: bool) -> Rec {
        Rec { env: env.clone(), steps: vec![], cont, dead: false }
    }
    /// Runs one public call. `None`: it failed (and nothing follows when `dead`).
    fn call<T, E: ToInfo>(&mut self, label: &'static str, f: impl FnOnce() -> Result<(T, u64), E>) -> Option<T> {
        if self.dead {
            return None;
        }
        let before = self.env.count.get();
        let f0 = self.env.fails.borrow().len();
        let r = guard(f);
        let mut out = None;
        let res = match r {
            Err(p) => {
                self.dead = true;
                Res::Panic(p)
            }
            Ok(Err(e)) => {
                self.dead |= !self.cont;
                Res::Err(e.info())
            }
            Ok(Ok((t, d))) => {
                out = Some(t);
                Res::Ok(d)
            }
        };
        let f1 = self.env.fails.borrow().len();
        self.steps.push(Step { label, before, after: self.env.count.get(), f0, f1, res });
        out
    }
    /// One step of an iteration; returns whether to go on.
    fn item<E: ToInfo>(&mut self, label: &'static str, f: impl FnOnce() -> Result<Option<u64>, E>) -> bool {
        match self.call(label, || f().map(|o| (o.is_some(), o.unwrap_or(NONE)))) {
            Some(more) => more,
            None => !self.dead,
        }
    }
}
const NONE: u64 = 0x404;
fn ent(e: Option<(&[u8], &[u8])>) -> Option<u64> {
    e.map(|(k, v)| H::new().b(k).b(v).get())
}
fn one(e: Option<(&[u8], &[u8])>) -> ((), u64) {
    ((), ent(e).unwrap_or(NONE))
}

/// A sink whose bytes outlive it.
struct Sink {
    out: Rc<RefCell<Vec<u8>>>,
    env: Rc<Env>,
}
impl Write for Sink {
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let n = self.env.answer(Call::Write, bufs.iter().map(|b| b.len()).sum())?;
        self.out.borrow_mut().extend(parts(bufs, n));
        Ok(n)
    }
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.env.answer(Call::Write, b.len())?;
        self.out.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.env.answer(Call::Flush, 0).map(drop)
    }
}

/// Concatenation that can fail.
struct Mf {
    env: Rc<Env>,
}
impl MergeFunction for Mf {
    type Error = MyErr;
    fn merge<'a>(&self, _key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, MyErr> {
        let k = self.env.count.get();
        self.env.answer(Call::Merge, 0).map_err(|_| MyErr(k))?;
        Ok(if values.len() == 1 { values[0].clone() } else { Cow::Owned(values.concat()) })
    }
}

// ------------------------------------------------------------------ scenarios

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    Writer { finish: bool },
    Reader { script: u8, v1: bool },
    Merger { out: u8, k: usize },
    Sorter { out: u8, max: usize, budget: usize, realloc: bool, unstable: bool, parallel: bool },
}
#[derive(Clone, Copy, Debug)]
pub struct Sc {
    what: What,
    cfg: Cfg,
    set: u8,
}
fn entries(set: u8) -> Ents {
    use Shape::*;
    match set {
        0 => vec![],
        1 => vec![(vec![], vec![])],
        2 => shaped_seq(&[Tiny, Val1100, Key520, Val500, Tiny, Val1100, Key1100, Empty, Val500, Val500, Tiny], true),
        3 => (0..24).map(|i| (uniform_key(i), bytes(i as u64, 100 - i % 7, 2))).collect(),
        4 => vec![
            (vec![1], bytes(5, 150_000, 2)),
            (vec![2], vec![]),
            (vec![3], bytes(6, 70_000, 0)),
            (stem(66_000, &[4]), bytes(8, 10, 2)),
        ],
        5 => shaped_seq(&[Tiny, Val1100, Tiny], false),
        6 => shaped_seq(&[Key1100; 7], false),
        _ => (0..3).map(|i| (vec![i], vec![i])).collect(),
    }
}
const SETS: u8 = 8;

impl Sc {
    fn file(&self) -> Result<Arc<Vec<u8>>, String> {
        let b = self.cfg.write(&entries(self.set))?;
        Ok(Arc::new(match self.what {
            What::Reader { v1: true, .. } => fmt::to_v1(&b),
            _ => b,
        }))
    }
    /// Files of the sources of a merger.
    fn files(&self) -> Result<Vec<Arc<Vec<u8>>>, String> {
        let ents = entries(self.set);
        match self.what {
            What::Merger { k, .. } => (0..k)
                .map(|i| {
                    let e: Ents = ents.iter().enumerate().filter(|(j, _)| (j + i) % 3 != 0 || i == 2).map(|(_, e)| e.clone()).collect();
                    self.cfg.write(&e).map(Arc::new)
                })
                .collect(),
            What::Reader { .. } => Ok(vec![self.file()?]),
            _ => Ok(vec![]),
        }
    }
    fn run(&self, files: &[Arc<Vec<u8>>], env: &Rc<Env>, cont: bool) -> Vec<Step> {
        let mut rec = Rec::new(env, cont);
        match self.what {
            What::Writer { finish } => self.writer(&mut rec, finish),
            What::Reader { script, .. } => self.reader(&mut rec, &files[0], script),
            What::Merger { out, .. } => self.merger(&mut rec, files, out),
            What::Sorter { .. } => {
                let c = Creator::new(env);
                c.stats.digest.set(true);
                let st = c.stats.clone();
                self.sorter(&mut rec, c);
                let mut h = H::new();
                for d in st.digests.borrow().iter() {
                    h.u(*d);
                }
                h.u(st.created.get() as u64);
                if !rec.dead {
                    let _ = rec.call("chunks", || Ok::<_, io::Error>(((), h.get())));
                }
            }
        }
        rec.steps
    }
    fn writer(&self, rec: &mut Rec, finish: bool) {
        let out = Rc::new(RefCell::new(vec![]));
        let mut w = self.cfg.builder().build(Sink { out: out.clone(), env: rec.env.clone() });
        for (k, v) in entries(self.set) {
            if rec.call("insert", || w.insert(&k, &v).map(|_| ((), out.borrow().len() as u64))).is_none() && rec.dead {
                return;
            }
        }
        if finish {
            rec.call("finish", || w.finish().map(|_| ((), hash(&out.borrow()))));
        } else {
            rec.call("into_inner", || w.into_inner().map(|s| ((), hash(&s.out.borrow()))));
        }
    }
    fn open(rec: &mut Rec, file: &Arc<Vec<u8>>) -> Option<Reader<EnvSrc>> {
        let src = EnvSrc::new(file, &rec.env);
        rec.call("Reader::new", || Reader::new(src).map(|r| {
            let d = r.len();
            (r, d)
        }))
    }
    fn cursor(rec: &mut Rec, file: &Arc<Vec<u8>>) -> Option<ReaderCursor<EnvSrc>> {
        let r = Self::open(rec, file)?;
        rec.call("into_cursor", || r.into_cursor().map(|c| (c, 1)))
    }
    fn reader(&self, rec: &mut Rec, file: &Arc<Vec<u8>>, script: u8) {
        let ents = entries(self.set);
        let n = ents.len();
        // Bounds the loops of a run that goes on after errors.
        let max = n + 4;
        match script {
            0 | 1 => {
                let Some(mut c) = Self::cursor(rec, file) else { return };
                for _ in 0..max {
                    let more = if script == 0 { rec.item("move_on_next", || c.move_on_next().map(ent)) } else { rec.item("move_on_prev", || c.move_on_prev().map(ent)) };
                    if !more {
                        break;
                    }
                }
            }
            2 => {
                let Some(mut c) = Self::cursor(rec, file) else { return };
                let mut probes: Vec<Vec<u8>> = vec![vec![], vec![0xff; 3]];
                for (i, (k, _)) in ents.iter().enumerate() {
                    if n < 20 || i % 9 == 4 {
                        let mut x = k.clone();
                        x.push(0);
                        probes.push(k.clone());
                        probes.push(x);
                    }
                }
                for (i, q) in probes.iter().enumerate() {
                    rec.call("move_on_key_greater_than_or_equal_to", || c.move_on_key_greater_than_or_equal_to(q).map(one));
                    rec.call("move_on_key_lower_than_or_equal_to", || c.move_on_key_lower_than_or_equal_to(q).map(one));
                    rec.call("move_on_key_equal_to", || c.move_on_key_equal_to(q).map(one));
                    if i % 4 == 3 {
                        c.reset();
                    }
                    if rec.dead {
                        return;
                    }
                }
            }
            3 => {
                let Some(mut c) = Self::cursor(rec, file) else { return };
                rec.call("move_on_last", || c.move_on_last().map(one));
                rec.call("move_on_first", || c.move_on_first().map(one));
                let mut d = c.clone();
                rec.call("move_on_last", || d.move_on_last().map(one));
                for _ in 0..n.min(12) {
                    rec.call("move_on_next", || c.move_on_next().map(one));
                    rec.call("move_on_prev", || d.move_on_prev().map(one));
                    if rec.dead {
                        return;
                    }
                }
                d.reset();
                rec.call("move_on_next", || d.move_on_next().map(one));
                rec.call("move_on_first", || c.move_on_first().map(one));
                rec.call("current", || Ok::<_, io::Error>(one(c.current())));
            }
            4 => {
                let mid = |i: usize| ents.get(i).map_or(vec![5u8], |e| e.0.clone());
                let bounds: Vec<(Bound<Vec<u8>>, Bound<Vec<u8>>)> = vec![
                    (Bound::Unbounded, Bound::Unbounded),
                    (Bound::Included(mid(n / 3)), Bound::Excluded(mid(2 * n / 3))),
                    (Bound::Excluded(mid(n / 3)), Bound::Included(mid(n.saturating_sub(1)))),
                    (Bound::Included(vec![0xff; 4]), Bound::Unbounded),
                ];
                for b in bounds {
                    let Some(r) = Self::open(rec, file) else { return };
                    if let Some(mut it) = rec.call("into_range_iter", || r.into_range_iter(b.clone()).map(|i| (i, 1))) {
                        for _ in 0..max {
                            if !rec.item("RangeIter::next", || it.next().map(ent)) {
                                break;
                            }
                        }
                    }
                    let Some(r) = Self::open(rec, file) else { return };
                    if let Some(mut it) = rec.call("into_rev_range_iter", || r.into_rev_range_iter(b).map(|i| (i, 1))) {
                        for _ in 0..max {
                            if !rec.item("RevRangeIter::next", || it.next().map(ent)) {
                                break;
                            }
                        }
                    }
                }
            }
            _ => {
                let mut ps: Vec<Vec<u8>> = vec![vec![], vec![0xff, 0xff]];
                for i in [n / 2, n.saturating_sub(1)] {
                    if let Some((k, _)) = ents.get(i) {
                        ps.push(k[..k.len().min(2)].to_vec());
                        ps.push(k[..k.len().min(1)].to_vec());
                    }
                }
                for p in ps {
                    let Some(r) = Self::open(rec, file) else { return };
                    if let Some(mut it) = rec.call("into_prefix_iter", || r.into_prefix_iter(p.clone()).map(|i| (i, 1))) {
                        for _ in 0..max {
                            if !rec.item("PrefixIter::next", || it.next().map(ent)) {
                                break;
                            }
                        }
                    }
                    let Some(r) = Self::open(rec, file) else { return };
                    if let Some(mut it) = rec.call("into_rev_prefix_iter", || r.into_rev_prefix_iter(p).map(|i| (i, 1))) {
                        for _ in 0..max {
                            if !rec.item("RevPrefixIter::next", || it.next().map(ent)) {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    fn merger(&self, rec: &mut Rec, files: &[Arc<Vec<u8>>], out: u8) {
        let mut b = Merger::builder(Mf { env: rec.env.clone() });
        for f in files {
            let Some(c) = Self::cursor(rec, f) else { return };
            b.push(c);
        }
        let m = b.build();
        let max = entries(self.set).len() + 4;
        if out == 0 {
            let Some(mut it) = rec.call("into_stream_merger_iter", || m.into_stream_merger_iter().map(|i| (i, 1))) else { return };
            for _ in 0..max {
                if !rec.item("MergerIter::next", || it.next().map(ent)) {
                    break;
                }
            }
        } else {
            let sink = Rc::new(RefCell::new(vec![]));
            let mut w = self.cfg.builder().build(Sink { out: sink.clone(), env: rec.env.clone() });
            rec.call("write_into_stream_writer", || m.write_into_stream_writer(&mut w).map(|_| ((), sink.borrow().len() as u64)));
            rec.call("into_inner", || w.into_inner().map(|_| ((), hash(&sink.borrow()))));
        }
    }
    fn sorter<CC: ChunkCreator>(&self, rec: &mut Rec, cc: CC) {
        let What::Sorter { out, max, budget, realloc, unstable, parallel } = self.what else { return };
        let mut sc = SCfg::small(budget, if realloc { 64 } else { 16 }, realloc, max);
        sc.file = Some(self.cfg);
        sc.unstable = unstable;
        sc.parallel = parallel;
        let mut s = sc.builder(Mf { env: rec.env.clone() }, cc).build();
        // The entries of the set in an order with duplicates.
        let ents = entries(self.set);
        let n = ents.len();
        let list: Ents = (0..n + n / 2)
            .map(|i| {
                let (k, v) = &ents[(i * 7 + 3) % n];
                (k.clone(), if v.len() > 100 { v.clone() } else { token(i, v.len()) })
            })
            .collect();
        for (k, v) in &list {
            if rec.call("insert", || s.insert(k, v).map(|_| ((), 1))).is_none() && rec.dead {
                return;
            }
        }
        match out {
            0 => {
                let Some(mut it) = rec.call("into_stream_merger_iter", || s.into_stream_merger_iter().map(|i| (i, 1))) else { return };
                for _ in 0..n + 4 {
                    if !rec.item("MergerIter::next", || it.next().map(ent)) {
                        break;
                    }
                }
            }
            1 => {
                let sink = Rc::new(RefCell::new(vec![]));
                let mut w = Cfg::new(0, 1024, 2, 1).builder().build(Sink { out: sink.clone(), env: rec.env.clone() });
                rec.call("write_into_stream_writer", || s.write_into_stream_writer(&mut w).map(|_| ((), sink.borrow().len() as u64)));
                rec.call("into_inner", || w.into_inner().map(|_| ((), hash(&sink.borrow()))));
            }
            _ => {
                let Some(cs) = rec.call("into_reader_cursors", || s.into_reader_cursors().map(|c| (c, 1))) else { return };
                for mut c in cs {
                    for _ in 0..n + 4 {
                        if !rec.item("move_on_next", || c.move_on_next().map(ent)) {
                            break;
                        }
                    }
                }
            }
        }
    }
}

fn scenarios(deep: bool) -> Vec<Sc> {
    let mut v = vec![];
    let levels: &[u8] = if deep { &[0, 1, 2, 4] } else { &[0, 2] };
    for codec in fmt::CODECS {
        for l in levels {
            let cfg = Cfg::new(codec, 1024, 2, *l);
            for set in 0..SETS {
                for finish in [false, true] {
                    v.push(Sc { what: What::Writer { finish }, cfg, set });
                }
                for script in 0..6 {
                    if set == 4 && !deep && (script > 2 || *l > 0 && script > 0) {
                        continue;
                    }
                    v.push(Sc { what: What::Reader { script, v1: false }, cfg, set });
                    if *l == 0 {
                        v.push(Sc { what: What::Reader { script, v1: true }, cfg, set });
                    }
                }
            }
            for set in [0, 2, 4, 7] {
                for (k, out) in [(3, 0), (3, 1), (1, 0), (2, 1), (0, 1), (7, 0)] {
                    if k <= 3 || set == 7 {
                        v.push(Sc { what: What::Merger { out, k }, cfg, set });
                    }
                }
            }
            for (set, budget) in [(0u8, 100usize), (1, 60), (2, 3000), (3, 500), (4, 200_000), (5, 1300), (7, 70), (7, 40), (3, 100_000)] {
                for (out, max) in [(0u8, 1usize), (1, 2), (2, 25), (0, 3)] {
                    if !deep && set > 2 && set < 5 && (max != 1 && max != 25 || *l > 0) {
                        continue;
                    }
                    let rot = (set + out) as usize + max;
                    v.push(Sc {
                        what: What::Sorter { out, max, budget, realloc: rot % 2 == 0, unstable: rot % 3 == 0, parallel: rot % 4 == 1 },
                        cfg,
                        set,
                    });
                }
            }
        }
    }
    v
}

/// The run in which nothing deviates, with its call log.
struct Base {
    files: Vec<Arc<Vec<u8>>>,
    steps: Vec<Step>,
    log: Vec<(Call, usize)>,
}
impl Sc {
    fn base(&self) -> Result<Base, String> {
        let files = self.files()?;
        let env = Env::recording();
        let steps = self.run(&files, &env, false);
        let log = env.log.borrow_mut().take().unwrap();
        for s in &steps {
            match &s.res {
                Res::Ok(_) => {}
                r => return Err(format!("no component fails but {} returned {r:?}; {self:?}", s.label)),
            }
        }
        Ok(Base { files, steps, log })
    }
}
#[cfg(test)]
mod tests {
    #[test]
    fn counts() {
        let mut t = std::collections::BTreeMap::new();
        for sc in super::scenarios(false) {
            let t0 = std::time::Instant::now();
            let b = sc.base().unwrap();
            let us = t0.elapsed().as_micros() as usize;
            let e = t.entry(format!("{:?} set {} lv {} codec {}", sc.what, sc.set, sc.cfg.levels, sc.cfg.codec)).or_insert((0, 0, 0));
            e.0 += b.log.len();
            e.1 = us;
            e.2 += b.log.len() * us / 2;
        }
        let mut v: Vec<_> = t.into_iter().map(|(k, v)| (v.2, v.0, v.1, k)).collect();
        v.sort();
        for x in v { println!("{x:?}"); }
    }
}
fn label(steps: &[Step], i: usize) -> String {
    let nth = steps[..i].iter().filter(|s| s.label == steps[i].label).count();
    format!("{} (call {i}, number {nth} of its kind)", steps[i].label)
}

// ------------------------------------------------------------------ C11

/// The results of two runs, call by call.
fn same_results(base: &[Step], got: &[Step]) -> Result<(), String> {
    for (i, (b, g)) in base.iter().zip(got).enumerate() {
        if b.label != g.label || b.res != g.res {
            return Err(format!("{} returned {:?} instead of {:?} as with full transfers", label(got, i), g.res, b.res));
        }
    }
    if base.len() != got.len() {
        return Err(format!("{} public calls instead of {}", got.len(), base.len()));
    }
    Ok(())
}
/// How one family of schedules is made from the base run.
fn schedules(sc: &Sc, base: &Base, mode: &Mode, ctx: &mut Ctx) -> Result<(), String> {
    let run = |env: Rc<Env>, plan: &dyn Fn() -> String, ctx: &mut Ctx| -> Result<(), String> {
        let got = sc.run(&base.files, &env, false);
        ctx.transitions += got.len() as u64;
        ctx.traces += 1;
        ctx.nontrivial += (env.hit.get() > 0) as u64;
        same_results(&base.steps, &got).map_err(|e| format!("{e}; {} of {} component calls; {sc:?}", plan(), base.log.len()))
    };
    let moves: Vec<u64> = base.log.iter().enumerate().filter(|(_, (c, _))| matches!(c, Call::Read | Call::Write)).map(|(i, _)| i as u64).collect();
    let scenario = hash(format!("{sc:?}").as_bytes());
    match mode {
        Mode::Repeat => {
            run(Env::full(), &|| "second run".into(), ctx)?;
            run(Env::full(), &|| "third run".into(), ctx)?;
            ctx.states_of(H::new().u(scenario).u(1).get(), 3);
        }
        Mode::Uniform(a) => {
            run(Env::with(*a, vec![]), &|| format!("every transfer {a:?}"), ctx)?;
            ctx.states_of(H::new().u(scenario).u(hash(format!("{a:?}").as_bytes())).get(), 1);
        }
        Mode::From(a) => {
            for k in &moves {
                let mut env = Env::full();
                Rc::get_mut(&mut env).unwrap().from = Some((*k, *a));
                run(env, &|| format!("{a:?} from call {k} on"), ctx)?;
            }
            ctx.states_of(H::new().u(scenario).u(2).u(hash(format!("{a:?}").as_bytes())).get(), moves.len() as u64);
        }
        Mode::Single(a) => {
            for k in &moves {
                run(Env::with(Ans::Full, vec![(*k, *a)]), &|| format!("call {k} {a:?}"), ctx)?;
            }
            ctx.states_of(H::new().u(scenario).u(3).u(hash(format!("{a:?}").as_bytes())).get(), moves.len() as u64);
        }
        Mode::Pair(a, b, max) => {
            // A deviation may add calls after it: the second one ranges beyond the base run.
            let n = base.log.len() as u64 + 2;
            if n > *max {
                return Ok(());
            }
            for i in &moves {
                for j in i + 1..n {
                    run(Env::with(Ans::Full, vec![(*i, *a), (j, *b)]), &|| format!("call {i} {a:?}, call {j} {b:?}"), ctx)?;
                }
                ctx.states_of(H::new().u(scenario).u(4).u(*i).u(hash(format!("{a:?}{b:?}").as_bytes())).get(), n - i);
            }
        }
        Mode::Triple(a, b, c, max) => {
            let n = base.log.len() as u64 + 3;
            if n > *max {
                return Ok(());
            }
            for i in &moves {
                for j in i + 1..n {
                    for l in j + 1..n {
                        run(Env::with(Ans::Full, vec![(*i, *a), (j, *b), (l, *c)]), &|| format!("calls {i} {a:?}, {j} {b:?}, {l} {c:?}"), ctx)?;
                    }
                }
                ctx.states_of(H::new().u(scenario).u(5).u(*i).u(hash(format!("{a:?}{b:?}{c:?}").as_bytes())).get(), (n - i) * (n - i) / 2);
            }
        }
    }
    let mut h = H::new();
    for s in &base.steps {
        if let Res::Ok(d) = s.res {
            h.u(d);
        }
    }
    ctx.outcome(h.get());
    ctx.sample(|| format!("{mode:?} over {} public and {} component calls: {sc:?}", base.steps.len(), base.log.len()));
    Ok(())
}
#[derive(Clone, Debug)]
enum Mode {
    Repeat,
    Uniform(Ans),
    From(Ans),
    Single(Ans),
    Pair(Ans, Ans, u64),
    Triple(Ans, Ans, Ans, u64),
}
fn schedule_family(name: &'static str, bounds: String, scs: Arc<Vec<Sc>>, modes: Vec<Mode>) -> Family {
    let n = scs.len() as u64;
    family(name, format!("{bounds} x {n} scenarios (6 codecs; writer, 6 reader scripts, version 1 too, merger, sorter)"), n * modes.len() as u64, move |case, ctx| {
        let sc = &scs[(case % n) as usize];
        let base = sc.base()?;
        schedules(sc, &base, &modes[(case / n) as usize], ctx)
    })
}
/// The scenarios over small files.
fn light(all: &[Sc], deep: bool) -> Arc<Vec<Sc>> {
    Arc::new(all.iter().filter(|s| deep || [0, 1, 5, 7].contains(&s.set)).cloned().collect())
}
pub fn c11(deep: bool) -> Check {
    let all = Arc::new(scenarios(deep));
    let light = light(&all, deep);
    let max = usize::MAX;
    let uniform = vec![
        Ans::AtMost(1),
        Ans::AtMost(2),
        Ans::AtMost(3),
        Ans::AtMost(5),
        Ans::AtMost(7),
        Ans::AtMost(8),
        Ans::AtMost(9),
        Ans::AtMost(64),
        Ans::AtMost(1000),
        Ans::AtMost(4096),
        Ans::AllBut1,
        Ans::Half,
        Ans::Alternate(1),
        Ans::Alternate(3),
        Ans::Alternate(max),
    ];
    let singles = vec![Ans::Interrupted, Ans::AtMost(1), Ans::AllBut1];
    let more = vec![Ans::Half, Ans::AtMost(2), Ans::AtMost(4), Ans::AtMost(7)];
    let mut pairs = vec![];
    let pmax = if deep { 400 } else { 70 };
    for a in [Ans::Interrupted, Ans::AtMost(1), Ans::AllBut1] {
        for b in [Ans::Interrupted, Ans::AtMost(1), Ans::AllBut1] {
            pairs.push(Mode::Pair(a, b, pmax));
        }
    }
    let mut triples = vec![];
    let tmax = if deep { 60 } else { 26 };
    for a in [Ans::Interrupted, Ans::AtMost(1)] {
        for b in [Ans::Interrupted, Ans::AtMost(1)] {
            for c in [Ans::Interrupted, Ans::AtMost(1)] {
                triples.push(Mode::Triple(a, b, c, tmax));
            }
        }
    }
    let fams = vec![
        crate::inter::writers(deep, false),
        schedule_family("repeated-runs", "three runs with full transfers".into(), all.clone(), vec![Mode::Repeat]),
        schedule_family("uniform", format!("every transfer answered alike: {uniform:?}"), all.clone(), uniform.into_iter().map(Mode::Uniform).collect()),
        schedule_family("one-deviation", format!("every single transfer answered by each of {singles:?}"), all.clone(), singles.into_iter().map(Mode::Single).collect()),
        schedule_family("one-deviation-more", format!("every single transfer answered by each of {more:?}"), light.clone(), more.into_iter().map(Mode::Single).collect()),
        schedule_family(
            "from-one-call-on",
            "from every transfer on: at most 1 byte, interrupted every other time".into(),
            light.clone(),
            vec![Mode::From(Ans::AtMost(1)), Mode::From(Ans::Alternate(max))],
        ),
        schedule_family("two-deviations", format!("all pairs of deviations (Interrupted, 1 byte, all but 1) of runs of at most {pmax} component calls"), all.clone(), pairs),
        schedule_family("three-deviations", format!("all triples of deviations (Interrupted, 1 byte) of runs of at most {tmax} component calls"), all, triples),
    ];
    Check {
        property: "C11",
        level: "fault_enumeration",
        rule: "one evaluation is one complete run of a scenario under one schedule of partial and interrupted transfers, every result compared with the run of full transfers; distinct = different (scenario, schedule)",
        assumptions: vec![
            "reads and writes are split and interrupted; flush and seek, which std does not retry, are not".into(),
            "schedules within 3 deviations of full transfers, plus the uniform and suffix-uniform ones".into(),
        ],
        families: fams,
    }
}

// ------------------------------------------------------------------ C12

const KINDS: [ErrorKind; 32] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::Deadlock,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];

/// Every call during which components failed returns an error carrying one of the failures.
fn judge(env: &Env, steps: &[Step], a: &Ans, created: Option<&'static str>) -> Result<(), String> {
    let fails = env.fails.borrow();
    for (i, s) in steps.iter().enumerate() {
        let mine = &fails[s.f0..s.f1];
        if mine.is_empty() {
            continue;
        }
        let at = || format!("{} while component calls {mine:?} failed ({a:?})", label(steps, i));
        match &s.res {
            Res::Ok(_) => return Err(format!("success of {}", at())),
            Res::Panic(p) => return Err(format!("{p} in {}", at())),
            Res::Err(info) => {
                let ok = mine.iter().any(|(k, call)| match (call, a) {
                    (Call::Merge, _) => info.variant == "Merge" && info.id == Some(*k),
                    (Call::Create, _) if created.is_some_and(|c| c != "Io") => Some(info.variant) == created,
                    (_, Ans::Fail(kind)) => info.variant == "Io" && info.kind == Some(*kind) && info.id == Some(*k),
                    (_, Ans::FailBare(kind)) => info.variant == "Io" && info.kind == Some(*kind),
                    (_, Ans::FailOs(e)) => {
                        info.variant == "Io"
                            && info.kind == Some(io::Error::from_raw_os_error(*e).kind())
                            && (info.os == Some(*e) || info.text.contains(&io::Error::from_raw_os_error(*e).to_string()))
                    }
                    (_, Ans::Zero) => info.variant == "Io" && info.kind == Some(ErrorKind::WriteZero),
                    _ => false,
                });
                if !ok {
                    return Err(format!("{} returned {info:?}, which is not that failure", at()));
                }
            }
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
enum Plan {
    /// The k-th component call fails, for every k.
    Kth(Ans),
    /// All component calls from the k-th on fail, for every k, and the caller goes on.
    From(ErrorKind),
    /// The k-th fails and the caller goes on with components that work again.
    Transient(Ans),
    /// The k-th and the (k+d)-th fail, the caller goes on.
    Two(Ans, u64),
}
fn failures(sc: &Sc, base: &Base, plan: &Plan, ctx: &mut Ctx) -> Result<(), String> {
    let n = base.log.len() as u64;
    let scenario = hash(format!("{sc:?}{plan:?}").as_bytes());
    for k in 0..n {
        let (call, _) = base.log[k as usize];
        let (env, a, cont) = match plan {
            Plan::Kth(a) => (Env::with(Ans::Full, vec![(k, *a)]), *a, false),
            Plan::From(kind) => (Env::fail_from(k, *kind), Ans::Fail(*kind), true),
            Plan::Transient(a) => (Env::with(Ans::Full, vec![(k, *a)]), *a, true),
            Plan::Two(a, d) => (Env::with(Ans::Full, vec![(k, *a), (k + d, *a)]), *a, true),
        };
        if a == Ans::Zero && call != Call::Write {
            continue;
        }
        let got = sc.run(&base.files, &env, cont);
        ctx.transitions += got.len() as u64;
        ctx.traces += 1;
        judge(&env, &got, &a, None).map_err(|e| format!("{e}; k={k} of {n} ({call:?}), {plan:?}; {sc:?}"))?;
        // Up to the failure nothing may differ; a public call without a failure may not fail.
        for (i, (b, g)) in base.steps.iter().zip(&got).enumerate() {
            if g.f1 > 0 {
                break;
            }
            if b.label != g.label || b.res != g.res {
                return Err(format!("{} returned {:?} instead of {:?} before any failure; k={k}, {plan:?}; {sc:?}", label(&got, i), g.res, b.res));
            }
        }
        if env.fails.borrow().is_empty() {
            if a != Ans::Zero {
                return Err(format!("component call {k} of {n} not reached in a second run; {sc:?}"));
            }
        } else {
            ctx.nontrivial += 1;
            ctx.state(H::new().u(scenario).u(k).get());
        }
        if let Some(s) = got.iter().find(|s| s.f1 > s.f0) {
            if let Res::Err(i) = &s.res {
                ctx.outcome(H::new().b(s.label.as_bytes()).b(i.variant.as_bytes()).b(format!("{:?}{call:?}", i.kind).as_bytes()).get());
            }
        }
    }
    ctx.sample(|| format!("{plan:?} at each of {n} component calls of {} public calls: {sc:?}", base.steps.len()));
    Ok(())
}
fn failure_family(name: &'static str, bounds: String, scs: Arc<Vec<Sc>>, plans: Vec<Plan>) -> Family {
    let n = scs.len() as u64;
    family(name, format!("{bounds} x {n} scenarios (6 codecs; writer, 6 reader scripts, version 1 too, merger, sorter)"), n * plans.len() as u64, move |case, ctx| {
        let sc = &scs[(case % n) as usize];
        let base = sc.base()?;
        failures(sc, &base, &plans[(case / n) as usize], ctx)
    })
}

/// A creator that fails with each variant of grenad's own error type.
struct VariantCreator {
    inner: Creator,
    what: &'static str,
    /// Fails at this creation.
    at: usize,
}
impl ChunkCreator for VariantCreator {
    type Chunk = crate::io::Chunk;
    type Error = grenad::Error;
    fn create(&self) -> Result<Self::Chunk, grenad::Error> {
        if self.inner.stats.created.get() == self.at {
            let k = self.inner.env.count.get();
            self.inner.env.fails.borrow_mut().push((k, Call::Create));
            return Err(match self.what {
                "Io" => io::Error::new(ErrorKind::Other, Injected(k)).into(),
                "InvalidCompressionType" => grenad::Error::InvalidCompressionType,
                _ => grenad::Error::InvalidFormatVersion,
            });
        }
        self.inner.create().map_err(Into::into)
    }
}
fn creator_variants() -> Family {
    let scs: Vec<Sc> = scenarios(true).into_iter().filter(|s| matches!(s.what, What::Sorter { .. }) && s.cfg.codec == 0).collect();
    let n = scs.len() as u64;
    family(
        "creator-errors",
        format!("chunk creators failing at their every creation with each variant of grenad::Error x {n} sorter scenarios"),
        n * 3,
        move |case, ctx| {
            let sc = &scs[(case % n) as usize];
            let what = ["Io", "InvalidCompressionType", "InvalidFormatVersion"][(case / n) as usize];
            for at in 0.. {
                let env = Env::full();
                let mut rec = Rec::new(&env, at % 2 == 1);
                let c = VariantCreator { inner: Creator::new(&env), what, at };
                sc.sorter(&mut rec, c);
                ctx.traces += 1;
                ctx.transitions += rec.steps.len() as u64;
                judge(&env, &rec.steps, &Ans::Fail(ErrorKind::Other), Some(what)).map_err(|e| format!("{e}; creation {at}, {what}; {sc:?}"))?;
                if env.fails.borrow().is_empty() {
                    break;
                }
                ctx.state(H::new().u(case).u(at as u64).u(0xC7).get());
                ctx.nontrivial += 1;
            }
            Ok(())
        },
    )
}
/// Real files: a full device, and a temporary directory that does not exist.
fn real_files() -> Family {
    family("real-files", "writers over /dev/full (plain, buffered), temporary files in a missing directory", 6, |case, ctx| {
        let dev = || std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("opening /dev/full: {e}"));
        let full = |r: io::Result<()>| match r {
            Err(e) if e.raw_os_error() == Some(28) => Ok(()),
            r => Err(format!("a writer over a full device returned {r:?}")),
        };
        ctx.traces += 1;
        ctx.state(H::new().u(case).u(0xF11E).get());
        match case {
            0 => full(Writer::new(dev()?).finish()),
            1 => full(Writer::new(io::BufWriter::new(dev()?)).finish()),
            2 => full(Writer::new(io::BufWriter::new(dev()?)).into_inner().map(drop)),
            3 => {
                let mut w = Writer::new(io::BufWriter::with_capacity(1 << 20, dev()?));
                w.insert("a", vec![0; 100_000]).map_err(|e| format!("buffered insert: {e}"))?;
                full(w.finish())
            }
            4 => {
                let mut w = Writer::new(dev()?);
                full(w.insert("a", vec![0; 100_000]))
            }
            _ => {
                let old = std::env::var_os("TMPDIR");
                std::env::set_var("TMPDIR", "/nonexistent-directory/for/mc");
                let r = guard(|| {
                    let mut s = grenad::SorterBuilder::new(crate::merges::Concat).chunk_creator(grenad::TempFileChunk).build();
                    let a = s.insert("k", "v").map_err(|e| e.info());
                    let b = s.into_reader_cursors().map(drop).map_err(|e| e.info());
                    (a, b)
                });
                match old {
                    Some(o) => std::env::set_var("TMPDIR", o),
                    None => std::env::remove_var("TMPDIR"),
                }
                let (a, b) = r?;
                match (a, b) {
                    (Ok(()), Err(i)) if i.variant == "Io" && i.kind == Some(ErrorKind::NotFound) => Ok(()),
                    o => Err(format!("a sorter whose temporary files cannot be created returned {o:?}")),
                }
            }
        }
    })
    .serial()
}
/// Failures of every component call of the small scenarios (for the memory check).
pub fn failing_scenarios(deep: bool) -> Check {
    let small = light(&Arc::new(scenarios(deep)), deep);
    let mut plans = vec![Plan::Kth(Ans::Fail(ErrorKind::Other))];
    if deep {
        plans.push(Plan::Transient(Ans::Fail(ErrorKind::Other)));
        plans.push(Plan::From(ErrorKind::Other));
    }
    let fams = vec![creator_variants(), failure_family("failing-calls", "the k-th component call, or all from it on, fail, the caller stops or goes on".into(), small, plans)];
    Check { property: "C12", level: "", rule: "", assumptions: vec![], families: fams }
}
pub fn c12(deep: bool) -> Check {
    let all = Arc::new(scenarios(deep));
    let small = light(&all, deep);
    let os = [5, 28, 9, 13, 32, 110, 11, 12, 27, 116];
    let kth: Vec<Plan> = KINDS.iter().map(|k| Plan::Kth(Ans::Fail(*k))).collect();
    let eof = ErrorKind::UnexpectedEof;
    let mut main: Vec<Plan> = [ErrorKind::Other, eof, ErrorKind::WouldBlock, ErrorKind::InvalidData].iter().map(|k| Plan::Kth(Ans::Fail(*k))).collect();
    main.push(Plan::Kth(Ans::Zero));
    main.push(Plan::Kth(Ans::FailBare(eof)));
    let mains: Vec<String> = main.iter().map(|p| format!("{p:?}")).collect();
    let bare: Vec<Plan> = KINDS.iter().map(|k| Plan::Kth(Ans::FailBare(*k))).chain(os.iter().map(|e| Plan::Kth(Ans::FailOs(*e)))).collect();
    let mut going = vec![Plan::From(ErrorKind::Other), Plan::From(eof), Plan::Transient(Ans::Fail(ErrorKind::Other)), Plan::Transient(Ans::FailBare(eof)), Plan::Transient(Ans::Zero)];
    for d in 1..=if deep { 40 } else { 6 } {
        going.push(Plan::Two(Ans::Fail(ErrorKind::TimedOut), d));
    }
    let fams = vec![
        creator_variants(),
        failure_family("kth-call-fails", format!("the k-th component call fails, for every k: {mains:?} (Zero: the sink accepts nothing)"), all.clone(), main),
        failure_family("every-error-kind", format!("the same with each of {} error kinds", KINDS.len()), small.clone(), kth),
        failure_family("bare-and-os-errors", format!("the same without payload, and as OS errors {os:?}"), small.clone(), bare),
        failure_family("going-on", "the k-th call, it and a later one, or all calls from it on fail, and the caller goes on".into(), small, going),
        real_files(),
        crate::inter::buffered_sinks(),
    ]
    .into_iter()
    .chain(errors_only(crate::writers::c01(deep), &["shapes", "shapes-long", "key-subsets", "grid", "index-depths", "codec-levels", "boundary-sizes", "huge-values", "scale"]))
    .chain(errors_only(crate::readers::c02(deep), &["layouts", "layouts-codecs", "uniform-layouts", "written-long", "extreme-levels"]))
    .chain(errors_only(crate::readers::c04(deep), &["layouts-codecs", "written-shapes"]))
    .chain(errors_only(crate::readers::c05(deep), &["layouts-codecs", "written-shapes"]))
    .chain(errors_only(crate::merges::c06(deep), &["overlaps-3", "overlaps-blocks", "many-sources", "merge-function-impls"]))
    .chain(errors_only(crate::merges::c07(deep), &["sequences", "configurations", "fit-boundaries", "default-builder"]))
    .collect();
    Check {
        property: "C12",
        level: "fault_enumeration",
        rule: "one evaluation is one run of a scenario with failures injected at chosen component calls; distinct = different (scenario, failing call, failure)",
        assumptions: vec![
            "the error must be the injected one: same kind and payload (or OS code), the merge function's own error as Error::Merge, the creator's variant".into(),
            "ErrorKind::Interrupted from read and write is not a failure (C11)".into(),
            "after a public call failed, only calls during which another failure occurs are judged".into(),
        ],
        families: fams,
    }
}
