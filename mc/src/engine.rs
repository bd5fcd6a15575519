//! The explorer: families of exhaustively enumerated cases, run on all cores; panic, hang, crash and
//! memory containment; evidence and replay files.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{HashSet, VecDeque};
use std::fs;
use std::io::{Read, Write as _};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Case = Result<(), String>;

pub struct Family {
    pub name: &'static str,
    /// What is enumerated, within which bounds.
    pub bounds: String,
    pub size: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Case + Sync + Send>,
    /// Seconds after which one case counts as not terminating.
    pub limit_s: u64,
    /// Cases with more than ordinary memory needs run one at a time.
    pub serial: bool,
    /// What a (serial) family may hold beyond the memory limit.
    pub mem_extra: i64,
}

pub fn family<F>(name: &'static str, bounds: impl Into<String>, size: u64, run: F) -> Family
where
    F: Fn(u64, &mut Ctx) -> Case + Sync + Send + 'static,
{
    Family { name, bounds: bounds.into(), size, run: Box::new(run), limit_s: 150, serial: false, mem_extra: 0 }
}
impl Family {
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
}

pub struct Check {
    pub property: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<String>,
    pub families: Vec<Family>,
}

const SHARDS: usize = 256;
pub struct SharedSet(Vec<Mutex<HashSet<u64>>>);
impl SharedSet {
    fn new() -> Self {
        SharedSet((0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect())
    }
    fn insert(&self, h: u64) -> bool {
        self.0[(h >> 56) as usize % SHARDS].lock().unwrap().insert(h)
    }
}

pub struct Ctx<'a> {
    set: &'a SharedSet,
    outcomes: &'a SharedSet,
    pub want_sample: bool,
    samples: Vec<String>,
    pub states: u64,
    pub outcome_count: u64,
    pub transitions: u64,
    pub traces: u64,
    pub nontrivial: u64,
}
impl<'a> Ctx<'a> {
    fn new(set: &'a SharedSet, outcomes: &'a SharedSet) -> Self {
        Ctx {
            set,
            outcomes,
            want_sample: false,
            samples: vec![],
            states: 0,
            outcome_count: 0,
            transitions: 0,
            traces: 0,
            nontrivial: 0,
        }
    }
    /// Records a state by its hash; counted once over the whole run.
    pub fn state(&mut self, h: u64) -> bool {
        let new = crate::alloc::untracked(|| self.set.insert(h));
        if new {
            self.states += 1;
        }
        new
    }
    /// Records `k` states belonging to one structure (a file with its positions), counted once.
    pub fn states_of(&mut self, h: u64, k: u64) -> bool {
        let new = crate::alloc::untracked(|| self.set.insert(h));
        if new {
            self.states += k;
        }
        new
    }
    pub fn outcome(&mut self, h: u64) {
        if crate::alloc::untracked(|| self.outcomes.insert(h)) {
            self.outcome_count += 1;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        crate::alloc::untracked(|| self.sample_in(f))
    }
    fn sample_in(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panic: {msg} at {loc}")));
    }));
}
fn payload_str(p: &(dyn Any + Send)) -> String {
    let mut s = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_string()
    };
    if s.len() > 400 {
        let mut i = 400;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
    }
    s
}
/// Runs the closure, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => Err(LAST_PANIC
            .with(|l| l.borrow_mut().take())
            .unwrap_or_else(|| format!("panic: {}", payload_str(&*p)))),
    }
}

thread_local! {
    static REPORTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Notes that the crate under test reported this error.
pub fn rep<E>(e: E) -> E {
    REPORTED.with(|r| r.set(true));
    e
}
/// The same cases with another judgement: `judge` gets to run each case.
pub fn rejudge<F>(check: Check, tag: &str, bounds: &str, names: &[&str], judge: F) -> Vec<Family>
where
    F: Fn(&mut dyn FnMut() -> Result<Case, String>) -> Case + Sync + Send + Copy + 'static,
{
    let p = check.property;
    for n in names {
        assert!(!cfg!(grenad_verif) || check.families.iter().any(|f| f.name == *n), "{p} has no family {n}");
    }
    check
        .families
        .into_iter()
        .filter(|f| names.contains(&f.name))
        .map(|f| {
            let inner = f.run;
            Family {
                name: Box::leak(format!("{tag}-{p}-{}", f.name).into_boxed_str()),
                bounds: format!("{bounds}: {}", f.bounds),
                run: Box::new(move |case, ctx| judge(&mut || guard(|| inner(case, ctx)))),
                ..f
            }
        })
        .collect()
}
/// The same cases, judged only by whether the crate reported an error: nothing else counts.
pub fn errors_only(check: Check, names: &[&str]) -> Vec<Family> {
    rejudge(check, "no-failure", "no component fails, no error is reported", names, |run| {
        REPORTED.with(|r| r.set(false));
        match run() {
            Ok(Err(e)) if REPORTED.with(|r| r.get()) => Err(format!("no component failed, yet {e}")),
            _ => Ok(()),
        }
    })
}

// ---------------------------------------------------------------- hashing

/// 64-bit hash (two rounds of multiply-xor over 8-byte words), only used to count and deduplicate.
#[derive(Clone, Copy)]
pub struct H(u64, u64);
impl H {
    pub fn new() -> H {
        H(0x9E37_79B9_7F4A_7C15, 0)
    }
    #[inline]
    pub fn u(&mut self, v: u64) -> &mut H {
        let x = (self.0 ^ v).wrapping_mul(0xff51_afd7_ed55_8ccd);
        self.0 = (x ^ (x >> 32)).wrapping_mul(0xc4ce_b9fe_1a85_ec53).rotate_left(29);
        self.1 = self.1.wrapping_add(1);
        self
    }
    pub fn b(&mut self, b: &[u8]) -> &mut H {
        let mut c = b.chunks_exact(8);
        for w in &mut c {
            self.u(u64::from_le_bytes(w.try_into().unwrap()));
        }
        let r = c.remainder();
        let mut last = [0u8; 8];
        last[..r.len()].copy_from_slice(r);
        self.u(u64::from_le_bytes(last));
        self.u(b.len() as u64)
    }
    pub fn get(&self) -> u64 {
        let mut x = self.0 ^ self.1.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x ^= x >> 31;
        x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^ (x >> 29)
    }
}
impl std::fmt::Write for H {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.b(s.as_bytes());
        Ok(())
    }
}
pub fn hash(b: &[u8]) -> u64 {
    H::new().b(b).get()
}

// ---------------------------------------------------------------- running

struct Slot {
    fam: AtomicU64,
    case: AtomicU64,
    since_ms: AtomicU64, // 0: idle
}

pub struct Found {
    pub fam: usize,
    pub case: u64,
    pub what: String,
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
    pub budget_s: u64,
    pub threads: usize,
    pub mem_limit: i64,
}

fn inflight_path(root: &Path, prop: &str) -> PathBuf {
    root.join("mc").join("work").join(format!("{prop}.inflight"))
}

/// Supervises a child process running the check, so that a crash of the code under test (stack
/// overflow, abort, ...) is attributed to the case that causes it.
pub fn supervise(prop: &str, opts: &Opts, args: &[String]) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let infl = inflight_path(&opts.root, prop);
    fs::create_dir_all(infl.parent().unwrap()).unwrap();
    let _ = fs::remove_file(&infl);
    let st = std::process::Command::new(&exe).args(args).env("MC_CHILD", "1").status().unwrap();
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    println!("child ended by signal {sig}; looking for the case that causes it");
    let mut buf = Vec::new();
    if let Ok(mut f) = fs::File::open(&infl) {
        let _ = f.read_to_end(&mut buf);
    }
    for w in buf.chunks_exact(24) {
        let g = |i: usize| u64::from_le_bytes(w[i..i + 8].try_into().unwrap());
        if g(16) == 0 {
            continue;
        }
        let only = format!("{}:{}", g(0), g(8));
        let st = std::process::Command::new(&exe)
            .args(args)
            .env("MC_CHILD", "1")
            .env("MC_ONLY", &only)
            .status()
            .unwrap();
        match st.code() {
            Some(1) => return 1,
            Some(_) => {}
            None => {
                let p = write_replay(
                    &opts.root,
                    prop,
                    &opts.tier,
                    &format!("#{}", g(0)),
                    g(8),
                    &format!("the process is killed by signal {:?} while running this case", st.signal()),
                );
                println!("the case {only} ends the process by signal {:?}", st.signal());
                println!("VIOLATION property={prop} replay={}", p.display());
                return 1;
            }
        }
    }
    println!("ERROR: the engine was killed by signal {sig} and no single case reproduces it");
    2
}

fn write_replay(root: &Path, prop: &str, tier: &str, fam: &str, case: u64, what: &str) -> PathBuf {
    let dir = root.join("mc").join("work").join("replays");
    let _ = fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}-{}-{case}.json", fam.replace(['#', '/', ' '], "_")));
    let j = format!(
        "{{\"property\":{},\"tier\":{},\"family\":{},\"case\":{},\"how\":{},\"what\":{}}}\n",
        js(prop),
        js(tier),
        js(fam),
        case,
        js("bash /verif/run.sh --replay <this file>"),
        js(what)
    );
    let _ = fs::write(&p, j);
    p
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn run(check: Check, opts: &Opts, only: Option<(usize, u64)>) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    let prop = check.property;
    let infl_path = inflight_path(&opts.root, prop);
    fs::create_dir_all(infl_path.parent().unwrap()).unwrap();
    let infl = fs::OpenOptions::new().create(true).write(true).truncate(only.is_none()).open(&infl_path).unwrap();

    // Task list: batches of cases, families in their order.
    let mut tasks: VecDeque<(usize, u64, u64)> = VecDeque::new();
    let mut serial: VecDeque<(usize, u64, u64)> = VecDeque::new();
    match only {
        Some((f, c)) => tasks.push_back((f, c, c + 1)),
        None => {
            for (i, f) in check.families.iter().enumerate() {
                let batch = (f.size / 512).clamp(1, 256);
                let q = if f.serial { &mut serial } else { &mut tasks };
                let mut c = 0;
                while c < f.size {
                    let e = (c + batch).min(f.size);
                    q.push_back((i, c, e));
                    c = e;
                }
            }
        }
    }
    let set = SharedSet::new();
    let outcomes = SharedSet::new();
    let stop = AtomicBool::new(false);
    let capped: Vec<AtomicU64> = check.families.iter().map(|_| AtomicU64::new(0)).collect();
    let done: Vec<AtomicU64> = check.families.iter().map(|_| AtomicU64::new(0)).collect();
    let spent: Vec<AtomicU64> = check.families.iter().map(|_| AtomicU64::new(0)).collect();
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let slots: Vec<Slot> = (0..opts.threads)
        .map(|_| Slot { fam: AtomicU64::new(0), case: AtomicU64::new(0), since_ms: AtomicU64::new(0) })
        .collect();
    let totals = Mutex::new([0u64; 5]);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let finished = AtomicBool::new(false);
    let deadline = t0 + Duration::from_secs(opts.budget_s);

    let emit = |fam: usize, case: u64, what: &str| {
        let f = &check.families[fam];
        let p = write_replay(&opts.root, prop, &opts.tier, f.name, case, what);
        let mut out = std::io::stdout().lock();
        let _ = writeln!(out, "family {} case {case}: {what}", f.name);
        let _ = writeln!(out, "VIOLATION property={prop} replay={}", p.display());
        let _ = out.flush();
    };

    std::thread::scope(|s| {
        // Watchdog: hangs and memory.
        s.spawn(|| {
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                let live = crate::alloc::global_live();
                let mut extra = 0;
                for sl in &slots {
                    let since = sl.since_ms.load(Ordering::Relaxed);
                    if since == 0 {
                        continue;
                    }
                    let fam = sl.fam.load(Ordering::Relaxed) as usize;
                    let case = sl.case.load(Ordering::Relaxed);
                    extra = extra.max(check.families[fam].mem_extra);
                    if now.saturating_sub(since) > check.families[fam].limit_s * 1000 {
                        emit(fam, case, &format!("no termination within {} s", check.families[fam].limit_s));
                        std::process::exit(1);
                    }
                }
                if live > opts.mem_limit + extra {
                    // The oldest running case is the one that does not stop growing.
                    let old = slots
                        .iter()
                        .filter(|s| s.since_ms.load(Ordering::Relaxed) != 0)
                        .min_by_key(|s| s.since_ms.load(Ordering::Relaxed));
                    if let Some(sl) = old {
                        emit(
                            sl.fam.load(Ordering::Relaxed) as usize,
                            sl.case.load(Ordering::Relaxed),
                            &format!("memory grows without bound ({live} bytes live)"),
                        );
                        std::process::exit(1);
                    }
                }
            }
        });
        let worker = |w: usize, q: &Mutex<VecDeque<(usize, u64, u64)>>| {
            let mut ctx = Ctx::new(&set, &outcomes);
            loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let Some((fi, a, b)) = q.lock().unwrap().pop_front() else { break };
                let f = &check.families[fi];
                let tb = Instant::now();
                for c in a..b {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if Instant::now() > deadline {
                        capped[fi].fetch_add(1, Ordering::Relaxed);
                        continue;
                    }
                    let sl = &slots[w];
                    sl.fam.store(fi as u64, Ordering::Relaxed);
                    sl.case.store(c, Ordering::Relaxed);
                    sl.since_ms.store((t0.elapsed().as_millis() as u64).max(1), Ordering::Relaxed);
                    let mut rec = [0u8; 24];
                    rec[..8].copy_from_slice(&(fi as u64).to_le_bytes());
                    rec[8..16].copy_from_slice(&c.to_le_bytes());
                    rec[16] = 1;
                    let _ = infl.write_all_at(&rec, w as u64 * 24);
                    ctx.want_sample = c == 0 || c == f.size / 2 || c + 1 == f.size;
                    ctx.samples.clear();
                    let r = match guard(|| (f.run)(c, &mut ctx)) {
                        Ok(r) => r,
                        Err(p) => Err(format!("unexpected {p}")),
                    };
                    sl.since_ms.store(0, Ordering::Relaxed);
                    done[fi].fetch_add(1, Ordering::Relaxed);
                    if ctx.want_sample {
                        let mut s = samples.lock().unwrap();
                        for x in ctx.samples.drain(..) {
                            s.push(format!("{}[{c}]: {x}", f.name));
                        }
                    }
                    if let Err(what) = r {
                        found.lock().unwrap().push(Found { fam: fi, case: c, what });
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                spent[fi].fetch_add(tb.elapsed().as_millis() as u64, Ordering::Relaxed);
            }
            let _ = infl.write_all_at(&[0u8; 24], w as u64 * 24);
            let mut t = totals.lock().unwrap();
            t[0] += ctx.states;
            t[1] += ctx.transitions;
            t[2] += ctx.traces;
            t[3] += ctx.nontrivial;
            t[4] += ctx.outcome_count;
        };
        let q = Mutex::new(tasks);
        std::thread::scope(|s2| {
            for w in 0..opts.threads {
                let worker = &worker;
                let q = &q;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s2, move || worker(w, q))
                    .unwrap();
            }
        });
        let q = Mutex::new(serial);
        std::thread::scope(|s2| {
            let worker = &worker;
            let q = &q;
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s2, move || worker(0, q)).unwrap();
        });
        finished.store(true, Ordering::Relaxed);
    });

    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| (f.fam, f.case));
    let t = totals.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let ncapped: u64 = capped.iter().map(|c| c.load(Ordering::Relaxed)).sum();
    let ndone: u64 = done.iter().map(|c| c.load(Ordering::Relaxed)).sum();
    if only.is_none() {
        let mut fams = String::new();
        for (i, f) in check.families.iter().enumerate() {
            if i > 0 {
                fams.push(',');
            }
            let cap = capped[i].load(Ordering::Relaxed);
            fams.push_str(&format!(
                "{{\"name\":{},\"bounds\":{},\"cases\":{},\"completed\":{},\"capped\":{},\"cpu_s\":{:.1}}}",
                js(f.name),
                js(&f.bounds),
                f.size,
                done[i].load(Ordering::Relaxed),
                cap,
                spent[i].load(Ordering::Relaxed) as f64 / 1000.0
            ));
        }
        // What run.sh has explored with the crate built without its features.
        let mut bare = [0u64; 2];
        if let Some(t) = std::env::var("BARE_OUT").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
            for (n, x) in t.split_whitespace().take(2).enumerate() {
                bare[n] = x.parse().unwrap_or(0);
            }
            fams.push_str(&format!(
                ",{{\"name\":\"without-features\",\"bounds\":\"the crate built without codecs, parallel sort and temporary files (bare/): every configuration and codec of bounded families\",\"cases\":{0},\"completed\":{0},\"capped\":0,\"cpu_s\":0}}",
                bare[0]
            ));
        }
        let mut smp = samples.into_inner().unwrap();
        smp.sort();
        let smp: Vec<String> = smp.iter().take(24).map(|s| js(s)).collect();
        let counts = match check.level {
            "fault_enumeration" | "exploration" => format!(
                "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"api_calls\":{},\"distinct_outcomes\":{}",
                t[2],
                t[0],
                js(check.rule),
                t[1],
                t[4]
            ),
            _ => format!(
                "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"rule\":{},\"distinct_outcomes\":{}",
                t[0],
                t[1],
                t[2],
                js(check.rule),
                t[4]
            ),
        };
        let ass: Vec<String> = check.assumptions.iter().map(|s| js(s)).collect();
        let ev = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{counts},\"cases\":{},\"exhaustive\":{},\"capped_cases\":{},\"hooks\":{},\"families\":[{fams}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            js(prop),
            js(&opts.tier),
            opts.seed,
            js(check.level),
            ndone,
            ncapped == 0 && found.is_empty(),
            ncapped,
            cfg!(grenad_verif),
            smp.join(","),
            ass.join(","),
            wall,
            found.len()
        );
        let dir = opts.root.join("evidence");
        let _ = fs::create_dir_all(&dir);
        fs::write(dir.join(format!("{prop}.json")), ev).expect("write evidence");
    }
    let _ = fs::remove_file(&infl_path);
    if let Some(f) = found.first() {
        emit(f.fam, f.case, &f.what);
        return 1;
    }
    println!(
        "{prop} {}: {} cases, {} states, {} transitions, {} traces, {} outcomes, {:.1} s{}",
        opts.tier,
        ndone,
        t[0],
        t[1],
        t[2],
        t[4],
        wall,
        if ncapped > 0 { format!(" ({ncapped} cases not reached within the time cap)") } else { String::new() }
    );
    for (i, f) in check.families.iter().enumerate() {
        println!(
            "  {:<28} {:>9} cases {:>8.1} cpu-s  {}",
            f.name,
            done[i].load(Ordering::Relaxed),
            spent[i].load(Ordering::Relaxed) as f64 / 1000.0,
            f.bounds.chars().take(160).collect::<String>()
        );
    }
    0
}
