//! Instrumented sources, sinks, chunks and chunk creators whose every answer is chosen by a plan.
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::sync::Arc;

/// Plain in-memory source. Its `Debug` shows only the position, so cursors over it hash quickly.
#[derive(Clone)]
pub struct Src {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
}
impl Src {
    pub fn new(data: &Arc<Vec<u8>>) -> Src {
        Src { data: data.clone(), pos: 0 }
    }
}
impl std::fmt::Debug for Src {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "S{}", self.pos)
    }
}
/// An in-memory source whose clones share one position, like `&File`.
#[derive(Clone)]
pub struct SharedSrc {
    pub data: Arc<Vec<u8>>,
    pub pos: Rc<Cell<u64>>,
}
impl SharedSrc {
    pub fn new(data: &Arc<Vec<u8>>) -> SharedSrc {
        SharedSrc { data: data.clone(), pos: Rc::new(Cell::new(0)) }
    }
}
impl std::fmt::Debug for SharedSrc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "S")
    }
}
impl Read for SharedSrc {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = read_at(&self.data, self.pos.get(), buf);
        self.pos.set(self.pos.get() + n as u64);
        Ok(n)
    }
}
impl Seek for SharedSrc {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.pos.set(seek_to(self.pos.get(), self.data.len() as u64, to)?);
        Ok(self.pos.get())
    }
}
fn seek_to(pos: u64, len: u64, to: SeekFrom) -> io::Result<u64> {
    let p = match to {
        SeekFrom::Start(p) => return Ok(p),
        SeekFrom::End(d) => len.checked_add_signed(d),
        SeekFrom::Current(d) => pos.checked_add_signed(d),
    };
    p.ok_or_else(|| io::Error::new(ErrorKind::InvalidInput, "seek before the start"))
}
fn read_at(data: &[u8], pos: u64, buf: &mut [u8]) -> usize {
    let p = pos.min(data.len() as u64) as usize;
    let n = buf.len().min(data.len() - p);
    buf[..n].copy_from_slice(&data[p..p + n]);
    n
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = read_at(&self.data, self.pos, buf);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Src {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.pos = seek_to(self.pos, self.data.len() as u64, to)?;
        Ok(self.pos)
    }
}

/// What one call to a component answers.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ans {
    Full,
    Interrupted,
    /// At most this many bytes.
    AtMost(usize),
    /// All but the last byte (at least one).
    AllBut1,
    Half,
    /// `Interrupted` on every second call, else at most this many bytes.
    Alternate(usize),
    Fail(ErrorKind),
    /// The same without a payload.
    FailBare(ErrorKind),
    /// A raw OS error.
    FailOs(i32),
    /// The sink accepts nothing.
    Zero,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Call {
    Read,
    Write,
    Flush,
    Seek,
    Create,
    Merge,
}

pub const MARK: &str = "injected failure #";

#[derive(Debug)]
pub struct Injected(pub u64);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{MARK}{}", self.0)
    }
}
impl std::error::Error for Injected {}

/// The environment: answers of all components, chosen by call number.
pub struct Env {
    pub count: Cell<u64>,
    pub uniform: Ans,
    pub dev: Vec<(u64, Ans)>,
    /// From this call on every call fails.
    pub fail_from: Option<(u64, ErrorKind)>,
    /// From this call on this answer instead of the uniform one.
    pub from: Option<(u64, Ans)>,
    /// Calls that failed.
    pub fails: RefCell<Vec<(u64, Call)>>,
    /// Calls so far, when recording.
    pub log: RefCell<Option<Vec<(Call, usize)>>>,
    /// Deviations that took place.
    pub hit: Cell<u64>,
    pub bytes: Cell<u64>,
}
impl Env {
    pub fn full() -> Rc<Env> {
        Env::with(Ans::Full, vec![])
    }
    pub fn with(uniform: Ans, dev: Vec<(u64, Ans)>) -> Rc<Env> {
        Rc::new(Env {
            count: Cell::new(0),
            uniform,
            dev,
            fail_from: None,
            from: None,
            fails: RefCell::new(vec![]),
            log: RefCell::new(None),
            hit: Cell::new(0),
            bytes: Cell::new(0),
        })
    }
    pub fn recording() -> Rc<Env> {
        let e = Env::full();
        *e.log.borrow_mut() = Some(vec![]);
        e
    }
    pub fn fail_from(k: u64, kind: ErrorKind) -> Rc<Env> {
        let mut e = Env::full();
        Rc::get_mut(&mut e).unwrap().fail_from = Some((k, kind));
        e
    }
    /// Chooses the answer of the current call: `Ok(n)` bytes to transfer, or the error.
    pub fn answer(&self, call: Call, len: usize) -> io::Result<usize> {
        let k = self.count.get();
        self.count.set(k + 1);
        if let Some(l) = self.log.borrow_mut().as_mut() {
            l.push((call, len));
        }
        if let Some((from, kind)) = self.fail_from {
            if k >= from {
                self.hit.set(self.hit.get() + 1);
                self.fails.borrow_mut().push((k, call));
                return Err(io::Error::new(kind, Injected(k)));
            }
        }
        let mut a = self.uniform;
        if let Some((from, x)) = self.from {
            if k >= from {
                a = x;
                self.hit.set(self.hit.get() + 1);
            }
        }
        for (i, d) in &self.dev {
            if *i == k {
                a = *d;
                self.hit.set(self.hit.get() + 1);
            }
        }
        if matches!(a, Ans::Fail(_) | Ans::FailBare(_) | Ans::FailOs(_)) || (a == Ans::Zero && call == Call::Write && len > 0) {
            self.fails.borrow_mut().push((k, call));
        }
        let transfer = matches!(call, Call::Read | Call::Write);
        match a {
            Ans::Full => Ok(len),
            Ans::Fail(kind) => Err(io::Error::new(kind, Injected(k))),
            Ans::FailBare(kind) => Err(kind.into()),
            Ans::FailOs(e) => Err(io::Error::from_raw_os_error(e)),
            _ if !transfer => Ok(len),
            Ans::Interrupted => Err(ErrorKind::Interrupted.into()),
            Ans::AtMost(n) => Ok(len.min(n)),
            Ans::AllBut1 => Ok(if len > 1 { len - 1 } else { len }),
            Ans::Half => Ok(if len > 1 { len / 2 } else { len }),
            Ans::Alternate(n) => {
                if k % 2 == 0 {
                    Err(ErrorKind::Interrupted.into())
                } else {
                    Ok(len.min(n))
                }
            }
            Ans::Zero => Ok(if call == Call::Write { 0 } else { len }),
        }
    }
}

#[derive(Clone)]
pub struct EnvSrc {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    pub env: Rc<Env>,
}
impl EnvSrc {
    pub fn new(data: &Arc<Vec<u8>>, env: &Rc<Env>) -> EnvSrc {
        EnvSrc { data: data.clone(), pos: 0, env: env.clone() }
    }
}
impl std::fmt::Debug for EnvSrc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "S{}", self.pos)
    }
}
fn read_parts(bufs: &mut [io::IoSliceMut<'_>], mut left: usize, mut one: impl FnMut(&mut [u8]) -> usize) -> usize {
    let mut done = 0;
    for b in bufs.iter_mut() {
        let want = b.len().min(left);
        let n = one(&mut b[..want]);
        done += n;
        left -= n;
        if n < want {
            break;
        }
    }
    done
}
/// The first `n` bytes of the buffers of a vectored write.
pub fn parts(bufs: &[io::IoSlice<'_>], n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).take(n).collect();
    v.truncate(n);
    v
}
impl Read for EnvSrc {
    fn read_vectored(&mut self, bufs: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {
        let n = self.env.answer(Call::Read, bufs.iter().map(|b| b.len()).sum())?;
        let n = read_parts(bufs, n, |b| {
            let n = read_at(&self.data, self.pos, b);
            self.pos += n as u64;
            n
        });
        self.env.bytes.set(self.env.bytes.get() + n as u64);
        Ok(n)
    }
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.env.answer(Call::Read, buf.len())?;
        let n = read_at(&self.data, self.pos, &mut buf[..n]);
        self.pos += n as u64;
        self.env.bytes.set(self.env.bytes.get() + n as u64);
        Ok(n)
    }
}
impl Seek for EnvSrc {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.env.answer(Call::Seek, 0)?;
        self.pos = seek_to(self.pos, self.data.len() as u64, to)?;
        Ok(self.pos)
    }
}

pub struct EnvSink {
    pub buf: Vec<u8>,
    pub env: Rc<Env>,
}
impl EnvSink {
    pub fn new(env: &Rc<Env>) -> EnvSink {
        EnvSink { buf: vec![], env: env.clone() }
    }
}
impl Write for EnvSink {
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let n = self.env.answer(Call::Write, bufs.iter().map(|b| b.len()).sum())?;
        self.buf.extend(parts(bufs, n));
        Ok(n)
    }
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.env.answer(Call::Write, b.len())?;
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.env.answer(Call::Flush, 0).map(drop)
    }
}

/// Counters a chunk creator shares with its chunks.
#[derive(Default)]
pub struct ChunkStats {
    pub created: Cell<usize>,
    pub live: Cell<usize>,
    pub max_live: Cell<usize>,
    pub bytes: Cell<u64>,
    /// Digests of the chunks dropped so far.
    pub digest: Cell<bool>,
    pub digests: RefCell<Vec<u64>>,
}

pub struct Chunk {
    pub buf: Vec<u8>,
    pub pos: u64,
    pub env: Rc<Env>,
    pub stats: Rc<ChunkStats>,
}
impl Drop for Chunk {
    fn drop(&mut self) {
        self.stats.live.set(self.stats.live.get() - 1);
        if self.stats.digest.get() {
            self.stats.digests.borrow_mut().push(crate::engine::hash(&self.buf));
        }
    }
}
impl Read for Chunk {
    fn read_vectored(&mut self, bufs: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {
        let n = self.env.answer(Call::Read, bufs.iter().map(|b| b.len()).sum())?;
        Ok(read_parts(bufs, n, |b| {
            let n = read_at(&self.buf, self.pos, b);
            self.pos += n as u64;
            n
        }))
    }
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.env.answer(Call::Read, buf.len())?;
        let n = read_at(&self.buf, self.pos, &mut buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Chunk {
    fn put(&mut self, b: &[u8]) {
        let (p, n) = (self.pos as usize, b.len());
        if self.buf.len() < p + n {
            self.buf.resize(p + n, 0);
        }
        self.buf[p..p + n].copy_from_slice(b);
        self.pos += n as u64;
        self.stats.bytes.set(self.stats.bytes.get() + n as u64);
    }
}
impl Write for Chunk {
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let n = self.env.answer(Call::Write, bufs.iter().map(|b| b.len()).sum())?;
        self.put(&parts(bufs, n));
        Ok(n)
    }
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.env.answer(Call::Write, b.len())?;
        self.put(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.env.answer(Call::Flush, 0).map(drop)
    }
}
impl Seek for Chunk {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.env.answer(Call::Seek, 0)?;
        self.pos = seek_to(self.pos, self.buf.len() as u64, to)?;
        Ok(self.pos)
    }
}

pub struct Creator {
    pub env: Rc<Env>,
    pub stats: Rc<ChunkStats>,
}
impl Creator {
    pub fn new(env: &Rc<Env>) -> Creator {
        Creator { env: env.clone(), stats: Rc::new(ChunkStats::default()) }
    }
}
impl grenad::ChunkCreator for Creator {
    type Chunk = Chunk;
    type Error = io::Error;
    fn create(&self) -> io::Result<Chunk> {
        self.env.answer(Call::Create, 0)?;
        let s = &self.stats;
        s.created.set(s.created.get() + 1);
        s.live.set(s.live.get() + 1);
        s.max_live.set(s.max_live.get().max(s.live.get()));
        Ok(Chunk { buf: vec![], pos: 0, env: self.env.clone(), stats: s.clone() })
    }
}

/// A source that counts the reads starting at a block, i.e. the block loads.
#[derive(Clone)]
pub struct LoadSrc {
    pub data: Arc<Vec<u8>>,
    pub heads: Arc<Vec<u64>>,
    pub pos: u64,
    pub stat: Rc<LoadStat>,
}
#[derive(Default)]
pub struct LoadStat {
    pub loads: Cell<u64>,
    pub bytes: Cell<u64>,
    pub min_pos: Cell<u64>,
}
impl std::fmt::Debug for LoadSrc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "S{}", self.pos)
    }
}
impl LoadSrc {
    /// `heads`: sorted offsets of the blocks.
    pub fn new(data: &Arc<Vec<u8>>, heads: &Arc<Vec<u64>>) -> LoadSrc {
        let stat = LoadStat::default();
        stat.min_pos.set(u64::MAX);
        LoadSrc { data: data.clone(), heads: heads.clone(), pos: 0, stat: Rc::new(stat) }
    }
}
impl Read for LoadSrc {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = read_at(&self.data, self.pos, buf);
        if n > 0 {
            if self.heads.binary_search(&self.pos).is_ok() {
                self.stat.loads.set(self.stat.loads.get() + 1);
            }
            self.stat.bytes.set(self.stat.bytes.get() + n as u64);
            self.stat.min_pos.set(self.stat.min_pos.get().min(self.pos));
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for LoadSrc {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.pos = seek_to(self.pos, self.data.len() as u64, to)?;
        Ok(self.pos)
    }
}

/// A sink/source of enormous zero-filled files: only the non-zero 4 KiB pages are stored.
#[derive(Default, Clone)]
pub struct Sparse {
    pages: Arc<std::sync::Mutex<std::collections::HashMap<u64, Box<[u8; 4096]>>>>,
    pub len: u64,
    pub pos: u64,
}
impl Sparse {
    fn put(&mut self, mut b: &[u8]) {
        let mut pages = self.pages.lock().unwrap();
        while !b.is_empty() {
            let (page, off) = (self.pos / 4096, (self.pos % 4096) as usize);
            let n = b.len().min(4096 - off);
            if b[..n].iter().any(|x| *x != 0) || pages.contains_key(&page) {
                pages.entry(page).or_insert_with(|| Box::new([0; 4096]))[off..off + n].copy_from_slice(&b[..n]);
            }
            self.pos += n as u64;
            b = &b[n..];
        }
        self.len = self.len.max(self.pos);
    }
}
impl Write for Sparse {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.put(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        let pages = self.pages.lock().unwrap();
        let mut done = 0;
        while done < n {
            let (page, off) = (self.pos / 4096, (self.pos % 4096) as usize);
            let m = (n - done).min(4096 - off);
            match pages.get(&page) {
                Some(p) => buf[done..done + m].copy_from_slice(&p[off..off + m]),
                None => buf[done..done + m].fill(0),
            }
            done += m;
            self.pos += m as u64;
        }
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.pos = seek_to(self.pos, self.len, to)?;
        Ok(self.pos)
    }
}
