//! The crate built without any of its features: no codec, no parallel sort, no temporary files.
//! Every case of a few bounded families; called by run.sh before the main harness.
//! Arguments: property[, the only case]. Writes `cases transitions` of a clean run to $BARE_OUT.
use grenad::{CompressionType, CursorVec, MergeFunction, Reader, SortAlgorithm, Sorter, SorterBuilder, Writer, WriterBuilder};
use std::borrow::Cow;
use std::io::Cursor;
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Ents = Vec<(Vec<u8>, Vec<u8>)>;
struct Radix(usize);
impl Radix {
    fn take(&mut self, n: usize) -> usize {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.take(v.len())]
    }
}
const CODECS: [CompressionType; 6] =
    [CompressionType::None, CompressionType::SnappyPre05, CompressionType::Zlib, CompressionType::Lz4, CompressionType::Zstd, CompressionType::Snappy];

/// All values of a key, in order, each after its length.
struct Concat;
impl MergeFunction for Concat {
    type Error = std::convert::Infallible;
    fn merge<'a>(&self, _: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, Self::Error> {
        Ok(Cow::Owned(values.concat()))
    }
}

fn written(codec: CompressionType, level: u32, interval: usize, levels: u8, ents: &Ents) -> Result<Vec<u8>, String> {
    let mut b: WriterBuilder = Writer::<()>::builder();
    b.compression_type(codec).compression_level(level).block_size(1024).index_levels(levels);
    b.index_key_interval(NonZeroUsize::new(interval).unwrap());
    let mut w = b.memory();
    for (k, v) in ents {
        w.insert(k, v).map_err(|e| e.to_string())?;
    }
    w.into_inner().map_err(|e| e.to_string())
}
fn show(e: Option<(&[u8], &[u8])>) -> Option<(Vec<u8>, Vec<u8>)> {
    e.map(|(k, v)| (k.to_vec(), v.to_vec()))
}
fn file(r: &mut Radix) -> Ents {
    let (n, key, val) = (r.take(9), r.pick(&[1usize, 520, 1100]), r.pick(&[0usize, 1, 400, 1100]));
    (0..n).map(|i| ([vec![7; key - 1], vec![2 * i as u8 + 1]].concat(), vec![i as u8; val])).collect()
}
/// Reports success: the file must then hold what was inserted. Without a codec it must report success.
fn round_trip(case: usize) -> Result<usize, String> {
    let mut r = Radix(case);
    let codec = r.pick(&CODECS);
    let (level, interval, levels) = (r.pick(&[0, 1, 9, u32::MAX]), r.pick(&[1, 2, 8]), r.pick(&[0, 1, 2, 255]));
    let ents = file(&mut r);
    let d = format!("{codec:?} level {level}, interval {interval}, {levels} index levels, {} entries", ents.len());
    let bytes = match written(codec, level, interval, levels, &ents) {
        Ok(b) => b,
        Err(e) if codec == CompressionType::None => return Err(format!("writing failed: {e}; {d}")),
        Err(_) => return Ok(ents.len()),
    };
    let d = format!("a file whose writing has succeeded ({d})");
    let reader = Reader::new(Cursor::new(bytes)).map_err(|e| format!("{e}: {d}"))?;
    if reader.len() != ents.len() as u64 || reader.compression_type() != codec {
        return Err(format!("another count or codec: {d}"));
    }
    let mut c = reader.into_cursor().map_err(|e| format!("{e}: {d}"))?;
    for e in ents.iter().map(Some).chain([None]) {
        let got = show(c.move_on_next().map_err(|e| format!("{e}: {d}"))?);
        if got.as_ref() != e {
            return Err(format!("another entry forwards: {d}"));
        }
    }
    c.reset();
    for e in ents.iter().rev().map(Some).chain([None]) {
        let got = show(c.move_on_prev().map_err(|e| format!("{e}: {d}"))?);
        if got.as_ref() != e {
            return Err(format!("another entry backwards: {d}"));
        }
    }
    Ok(3 * ents.len())
}
/// Seeks in files without a codec; a file of a codec that is not there is never answered from.
fn seeks(case: usize) -> Result<usize, String> {
    let mut r = Radix(case);
    let codec = r.take(6);
    let (interval, levels) = (r.pick(&[1, 2, 8]), r.pick(&[0, 1, 2]));
    let ents = file(&mut r);
    let mut bytes = written(CompressionType::None, 0, interval, levels, &ents)?;
    let at = bytes.len() - 14;
    bytes[at] = codec as u8;
    let d = format!("codec {codec}, interval {interval}, {levels} index levels, {} entries", ents.len());
    let reader = Reader::new(Cursor::new(bytes)).map_err(|e| format!("{e}: {d}"))?;
    let mut steps = 0;
    let stem = ents.first().map_or(vec![], |e| e.0[..e.0.len() - 1].to_vec());
    for last in 0..=2 * ents.len() as u8 + 1 {
        let probe = [&stem[..], &[last]].concat();
        let ge = ents.iter().find(|e| e.0 >= probe);
        let le = ents.iter().rev().find(|e| e.0 <= probe);
        let eq = ents.iter().find(|e| e.0 == probe);
        for how in 0..7 {
            let mut c = reader.clone().into_cursor().map_err(|e| format!("{e}: {d}"))?;
            let (got, want) = match how {
                0 => (c.move_on_key_greater_than_or_equal_to(&probe), ge),
                1 => (c.move_on_key_lower_than_or_equal_to(&probe), le),
                2 => (c.move_on_key_equal_to(&probe), eq),
                3 => (c.move_on_first(), ents.first()),
                4 => (c.move_on_last(), ents.last()),
                5 => (c.move_on_next(), ents.first()),
                _ => (c.move_on_prev(), ents.last()),
            };
            steps += 1;
            match got {
                Ok(e) if codec == 0 => {
                    if show(e).as_ref() != want {
                        return Err(format!("another answer to operation {how} at {last}: {d}"));
                    }
                }
                Ok(_) if ents.is_empty() => (),
                Ok(_) => return Err(format!("operation {how} answers from blocks that are not of this codec: {d}")),
                Err(e) if codec == 0 => return Err(format!("{e}: operation {how} at {last}: {d}")),
                Err(_) => (),
            }
        }
    }
    Ok(steps)
}
/// Sorters with the default chunk creator of this build.
fn sorts(case: usize) -> Result<usize, String> {
    let mut r = Radix(case);
    let codec = r.pick(&CODECS);
    let (how, stable, budget, max, order) = (r.take(3), r.take(2) == 0, r.pick(&[300, 2000, 1 << 30]), r.pick(&[1, 2, 25]), r.take(3));
    let (n, keys) = (r.pick(&[0usize, 1, 30, 90]), r.pick(&[1usize, 7, 60]));
    #[cfg(grenad_verif)]
    grenad::verif::set_sorter_limits(Some(64), Some(64));
    let mut b = SorterBuilder::new(Concat);
    b.chunk_compression_type(codec).dump_threshold(budget).max_nb_chunks(max).allow_realloc(order != 1 || budget > 1 << 20);
    b.sort_algorithm(if stable { SortAlgorithm::Stable } else { SortAlgorithm::Unstable });
    // One value per key and length only with the unstable algorithm.
    let ents: Ents = (0..n)
        .map(|i| {
            let k = [i % keys, keys - 1 - i % keys, i * 7919 % keys][order];
            let v = if stable { i.to_be_bytes().to_vec() } else { vec![k as u8; i % 2] };
            (vec![b'k', k as u8], v)
        })
        .collect();
    let mut want = std::collections::BTreeMap::<Vec<u8>, Vec<u8>>::new();
    for (k, v) in &ents {
        want.entry(k.clone()).or_default().extend(v);
    }
    let d = format!("{codec:?} chunks, output {how}, stable {stable}, budget {budget}, at most {max} chunks, order {order}, {n} inserts of {keys} keys");
    let run = || -> Result<Ents, String> {
        let mut s: Sorter<Concat> = b.build();
        for (k, v) in &ents {
            s.insert(k, v).map_err(|e| e.to_string())?;
        }
        let mut out = vec![];
        match how {
            0 => {
                let mut it = s.into_stream_merger_iter().map_err(|e| e.to_string())?;
                while let Some((k, v)) = it.next().map_err(|e| e.to_string())? {
                    out.push((k.to_vec(), v.to_vec()));
                }
            }
            1 => {
                let mut w = Writer::memory();
                s.write_into_stream_writer(&mut w).map_err(|e| e.to_string())?;
                let bytes = w.into_inner().map_err(|e| e.to_string())?;
                let mut c = Reader::new(Cursor::new(bytes)).map_err(|e| e.to_string())?.into_cursor().map_err(|e| e.to_string())?;
                while let Some((k, v)) = c.move_on_next().map_err(|e| e.to_string())? {
                    out.push((k.to_vec(), v.to_vec()));
                }
            }
            _ => {
                let mut m = grenad::MergerBuilder::new(Concat);
                m.extend(s.into_reader_cursors().map_err(|e| e.to_string())?);
                let mut it = m.build().into_stream_merger_iter().map_err(|e| e.to_string())?;
                while let Some((k, v)) = it.next().map_err(|e| e.to_string())? {
                    out.push((k.to_vec(), v.to_vec()));
                }
            }
        }
        Ok(out)
    };
    match run() {
        Ok(out) if out == want.into_iter().collect::<Ents>() => Ok(2 * n),
        Ok(_) => Err(format!("another result: {d}")),
        Err(e) if codec == CompressionType::None => Err(format!("failed with {e}: {d}")),
        Err(_) => Ok(n),
    }
}
/// Opening depends on the trailer alone.
fn opens(case: usize) -> Result<usize, String> {
    let mut r = Radix(case);
    let (codec, v1, levels, count) = (r.take(256), r.take(2) == 1, r.pick(&[0u8, 1, 255]), r.pick(&[0u64, 3, u64::MAX]));
    let mut b = vec![0xAB; 40];
    b.extend(7u64.to_le_bytes());
    b.push(codec as u8);
    b.extend(count.to_le_bytes());
    if v1 {
        b.extend(0x76324D4Cu32.to_le_bytes());
    } else {
        b.push(levels);
        b.extend(0x6723D4C4u32.to_le_bytes());
    }
    let d = format!("codec byte {codec}, version 1 {v1}, {levels} levels, count {count}");
    match Reader::new(Cursor::new(b)) {
        Ok(_) if codec > 5 => Err(format!("accepted: {d}")),
        Err(e) if codec <= 5 => Err(format!("{e}: {d}")),
        Ok(r) if r.len() != count || r.compression_type() != CODECS[codec] => Err(format!("another count or codec: {d}")),
        _ => Ok(1),
    }
}

fn main() {
    let _ = CursorVec;
    let args: Vec<String> = std::env::args().collect();
    let (f, size): (fn(usize) -> Result<usize, String>, usize) = match args[1].as_str() {
        "C01" => (round_trip, 6 * 4 * 3 * 4 * 9 * 3 * 4),
        "C02" => (seeks, 6 * 3 * 3 * 9 * 3 * 4),
        "C07" => (sorts, 6 * 3 * 2 * 3 * 3 * 3 * 4 * 3),
        "C13" => (opens, 256 * 2 * 3 * 3),
        _ => return,
    };
    std::panic::set_hook(Box::new(|_| ()));
    let only: Option<usize> = args.get(2).and_then(|s| s.parse().ok());
    let next = std::sync::atomic::AtomicUsize::new(only.unwrap_or(0));
    let steps = std::sync::atomic::AtomicUsize::new(0);
    let found = std::sync::Mutex::new(None::<(usize, String)>);
    use std::sync::atomic::Ordering::Relaxed;
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let case = next.fetch_add(1, Relaxed);
                if case >= only.map_or(size, |o| o + 1) || found.lock().unwrap().is_some() {
                    break;
                }
                let r = catch_unwind(AssertUnwindSafe(|| f(case))).unwrap_or_else(|p| {
                    let m = p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied()).unwrap_or("?");
                    Err(format!("case {case} panics: {m}"))
                });
                match r {
                    Ok(n) => drop(steps.fetch_add(n, Relaxed)),
                    Err(what) => *found.lock().unwrap() = Some((case, what)),
                }
            });
        }
    });
    let found = found.into_inner().unwrap();
    if let Some((case, what)) = found {
        println!("family without-features case {case}: {what}");
        println!("FOUND {case}");
        std::process::exit(1);
    }
    if let Ok(p) = std::env::var("BARE_OUT") {
        std::fs::write(p, format!("{size} {}\n", steps.into_inner())).unwrap();
    }
}
