//! C17 under Miri: every case of a few bounded families, interpreted, so that any undefined behaviour
//! (not only a wrong address), a mismatched deallocation or a leak ends the run.
//! Arguments: quick or thorough, shard, shards[, the only case].
use grenad::{CompressionType, CursorVec, Merger, MergeFunction, Reader, ReaderCursor, SorterBuilder, WriterBuilder};
use std::borrow::Cow;
use std::io::Cursor;
use std::num::NonZeroUsize;
use std::ops::Bound;

type Ents = Vec<(Vec<u8>, Vec<u8>)>;
struct Radix(usize);
impl Radix {
    fn take(&mut self, n: usize) -> usize {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
}
struct First;
impl MergeFunction for First {
    type Error = std::convert::Infallible;
    fn merge<'a>(&self, key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, Self::Error> {
        touch(key, &values[values.len() - 1]);
        Ok(values[0].clone())
    }
}
/// Reads every byte.
fn touch(k: &[u8], v: &[u8]) -> usize {
    std::hint::black_box(k.iter().chain(v).map(|b| *b as usize).sum::<usize>())
}
fn entry(i: usize, size: usize, how: usize) -> (Vec<u8>, Vec<u8>) {
    let k = [size.min(4), size / 2, size, 0][how % 4];
    (vec![i as u8 + 1; k], vec![i as u8 + 101; size - k])
}
fn limits(_min: Option<usize>, _initial: Option<usize>) {
    #[cfg(grenad_verif)]
    grenad::verif::set_sorter_limits(_min, _initial);
}

fn fill(case: usize) -> String {
    fill_of(case, &[0, 1, 16, 17, 32])
}
fn fill_more(case: usize) -> String {
    fill_of(case, &[0, 1, 2, 8, 15, 16, 17, 31, 32, 33, 48, 64])
}
fn fill_of(case: usize, sizes: &[usize]) -> String {
    let mut r = Radix(case);
    let kind = r.take(3);
    let ents: Ents = (0..3).map(|i| entry(i, sizes[r.take(sizes.len())], case / 7 + i)).collect();
    sort(&ents, [64, 48, 1000][kind], [16, 16, 16 + case % 40][kind], kind > 0, case / 3)
}
fn growth(case: usize) -> String {
    let size = [100, 200, 255, 256, 257, 500, 1000, 1023][case / 3];
    let ents: Ents = [10, size, 10, size / 2].iter().enumerate().map(|(i, s)| entry(i, *s, i + case)).collect();
    sort(&ents, [64, 4096, 300][case % 3], 16, case % 3 > 0, case)
}
/// Many inserts: spills and chunk merges.
fn long(case: usize) -> String {
    let ents: Ents = (0..30).map(|i| entry(i * 7 % 11, i * 5 % 23, i + case)).collect();
    sort(&ents, [100, 128, 64][case % 3], 32, case % 2 == 0, case)
}
fn sort(ents: &Ents, budget: usize, initial: usize, realloc: bool, end: usize) -> String {
    if !cfg!(grenad_verif) {
        return String::new();
    }
    limits(Some(1), Some(initial));
    let mut b = SorterBuilder::new(First).chunk_creator(CursorVec);
    b.dump_threshold(budget).allow_realloc(realloc).max_nb_chunks(2);
    if end % 7 == 3 {
        b.sort_algorithm(grenad::SortAlgorithm::Unstable);
    }
    let mut s = b.build();
    for (k, v) in ents {
        s.insert(k, v).unwrap();
    }
    let mut n = 0;
    match end % 5 {
        0 => {
            let mut it = s.into_stream_merger_iter().unwrap();
            while let Some((k, v)) = it.next().unwrap() {
                n += touch(k, v);
            }
        }
        1 => {
            let mut it = s.into_stream_merger_iter().unwrap();
            n += it.next().unwrap().map_or(0, |(k, v)| touch(k, v));
        }
        2 => {
            let mut w = WriterBuilder::new().memory();
            s.write_into_stream_writer(&mut w).unwrap();
            n += w.into_inner().unwrap().len();
        }
        3 => {
            for mut c in s.into_reader_cursors().unwrap() {
                while let Some((k, v)) = c.move_on_prev().unwrap() {
                    n += touch(k, v);
                }
            }
        }
        _ => drop(s),
    }
    let sizes: Vec<(usize, usize)> = ents.iter().map(|(k, v)| (k.len(), v.len())).collect();
    format!("{sizes:?} budget {budget} initial {initial} realloc {realloc} end {} -> {n}", end % 5)
}

const CODECS: [CompressionType; 4] = [CompressionType::None, CompressionType::Snappy, CompressionType::Zlib, CompressionType::Lz4];
fn file(codec: CompressionType, n: usize, levels: u8) -> Vec<u8> {
    let mut b = WriterBuilder::new();
    b.compression_type(codec).block_size(1024).index_levels(levels).index_key_interval(NonZeroUsize::new(1 + n % 3).unwrap());
    let mut w = b.memory();
    for i in 0..n {
        w.insert([b'k', i as u8 * 2], vec![i as u8; [3, 1030, 100][i % 3]]).unwrap();
    }
    w.into_inner().unwrap()
}
type Cur = ReaderCursor<Cursor<Vec<u8>>>;
fn cursor(codec: CompressionType, n: usize, levels: u8) -> Cur {
    Reader::new(Cursor::new(file(codec, n, levels))).unwrap().into_cursor().unwrap()
}
fn op(c: &mut Cur, o: usize, i: usize) -> Option<(&[u8], &[u8])> {
    let q = [b'k', i as u8];
    match o {
        0 => c.move_on_first(),
        1 => c.move_on_last(),
        2 => c.move_on_next(),
        3 => c.move_on_prev(),
        4 => c.move_on_key_greater_than_or_equal_to(q),
        5 => c.move_on_key_lower_than_or_equal_to(q),
        6 => c.move_on_key_equal_to(q),
        _ => Ok(c.current()),
    }
    .unwrap()
}
/// Every pair of operations; a held entry while a clone moves and dies.
fn moves(case: usize) -> String {
    let mut r = Radix(case);
    let (a, b) = (r.take(8), r.take(8));
    let levels = r.take(2) * 2;
    let n = [5, 1][r.take(2)];
    let codec = r.take(2);
    let mut c = cursor(CODECS[codec], n, levels as u8);
    let mut t = 0;
    op(&mut c, 4, 2);
    let mut d = c.clone();
    let held = op(&mut c, a, 5);
    t += op(&mut d, b, 3).map_or(0, |(k, v)| touch(k, v));
    drop(d);
    t += held.map_or(0, |(k, v)| touch(k, v));
    t += op(&mut c, b, 4).map_or(0, |(k, v)| touch(k, v));
    t += op(&mut c, a, 1).map_or(0, |(k, v)| touch(k, v));
    c.reset();
    t += op(&mut c, a, 0).map_or(0, |(k, v)| touch(k, v));
    format!("{codec} {levels} {n} {a} {b} -> {t}")
}
/// Scans of every codec.
fn scans(case: usize) -> String {
    let mut r = Radix(case);
    let (n, levels, codec) = ([0, 1, 4, 8][r.take(4)], r.take(3), r.take(4));
    if codec == 3 && (n > 1 || levels > 0) {
        // The interpreter needs minutes for each frame.
        return String::new();
    }
    let mut c = cursor(CODECS[codec], n, levels as u8);
    let mut t = 0;
    while let Some((k, v)) = c.move_on_next().unwrap() {
        t += touch(k, v);
    }
    c.reset();
    while let Some((k, v)) = c.move_on_prev().unwrap() {
        t += touch(k, v);
    }
    format!("{codec} {levels} {n} -> {t}")
}
/// Ranges and prefixes, iterators dropped half way or cloned.
fn iters(case: usize) -> String {
    let mut r = Radix(case);
    let (lo, hi, levels, codec) = (r.take(5), r.take(5), r.take(2) * 2, r.take(2));
    let b = |x: usize| match x {
        0 => Bound::Unbounded,
        1 => Bound::Included(vec![b'k', 2]),
        2 => Bound::Excluded(vec![b'k', 2]),
        3 => Bound::Included(vec![b'k', 7]),
        _ => Bound::Excluded(vec![b'k']),
    };
    let rd = Reader::new(Cursor::new(file(CODECS[codec], 5, levels as u8))).unwrap();
    let mut t = 0;
    let mut it = rd.clone().into_range_iter::<_, Vec<u8>>((b(lo), b(hi))).unwrap();
    while let Some((k, v)) = it.next().unwrap() {
        t += touch(k, v);
    }
    let mut it = rd.clone().into_rev_range_iter::<_, Vec<u8>>((b(lo), b(hi))).unwrap();
    t += it.next().unwrap().map_or(0, |(k, v)| touch(k, v));
    let mut it2 = it.clone();
    drop(it);
    while let Some((k, v)) = it2.next().unwrap() {
        t += touch(k, v);
    }
    let p = [&b""[..], b"k", b"k\x04", b"\xff\xff", b"j\xff"][lo].to_vec();
    let mut it = rd.clone().into_prefix_iter(p.clone()).unwrap();
    while let Some((k, v)) = it.next().unwrap() {
        t += touch(k, v);
    }
    let mut it = rd.into_rev_prefix_iter(p).unwrap();
    while let Some((k, v)) = it.next().unwrap() {
        t += touch(k, v);
    }
    format!("{codec} {levels} {lo} {hi} -> {t}")
}
/// Merges of up to three sources, each any subset of three keys.
fn merges(case: usize) -> String {
    merge_of(case, 2)
}
fn merges_more(case: usize) -> String {
    merge_of(case, 3)
}
fn merge_of(case: usize, keys: usize) -> String {
    let mut b = Merger::builder(First);
    for s in 0..3 {
        let mask = case >> (keys * s) & 7 >> (3 - keys);
        let mut w = WriterBuilder::new().memory();
        for k in 0..3u8 {
            if mask >> k & 1 == 1 {
                w.insert([k], vec![s as u8; k as usize * 30]).unwrap();
            }
        }
        b.push(Reader::new(Cursor::new(w.into_inner().unwrap())).unwrap().into_cursor().unwrap());
    }
    let mut it = b.build().into_stream_merger_iter().unwrap();
    let mut t = 0;
    let mut n = 0;
    while let Some((k, v)) = it.next().unwrap() {
        t += touch(k, v);
        n += 1;
        if case % 5 == 0 && n == 1 {
            break;
        }
    }
    format!("masks {case:o} -> {t}")
}

type Fam = (&'static str, usize, fn(usize) -> String);
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<usize> = args[1..].iter().map(|x| x.parse().unwrap()).collect();
    let fams: Vec<Fam> = if args[0] == "quick" {
        vec![("growth", 24, growth), ("long", 6, long), ("scans", 48, scans), ("merges", 64, merges), ("iters", 25, iters), ("moves", 128, moves), ("fill", 375, fill)]
    } else {
        vec![("growth", 24, growth), ("long", 60, long), ("scans", 48, scans), ("merges-more", 512, merges_more), ("iters", 100, iters), ("moves", 512, moves), ("fill-more", 3 * 1728, fill_more)]
    };
    let mut g = 0;
    let mut done = vec![0usize; fams.len()];
    for (fi, (name, n, f)) in fams.iter().enumerate() {
        for case in 0..*n {
            g += 1;
            if match a.get(2) {
                Some(only) => *only != g - 1,
                None => (g - 1) % a[1] != a[0],
            } {
                continue;
            }
            // The last line of this kind names the case that does not end.
            eprintln!("CASE {} {name} {case}", g - 1);
            if let Err(p) = std::panic::catch_unwind(|| f(case)) {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if ["with overflow", "out of range", "out of bounds", "misaligned", "slice index starts", "TargetAlignment", "mid > len", "copy_from_slice", "LayoutError"].iter().any(|x| m.contains(x)) {
                    println!("MEMORY panic: {m}");
                    std::process::exit(3);
                }
            }
            done[fi] += 1;
        }
    }
    let s: Vec<String> = fams.iter().zip(done).map(|((n, total, _), d)| format!("{n}={d}/{total}")).collect();
    println!("DONE {}", s.join(" "));
}
