//! Case runner: deterministic cases on worker threads, violations, evidence counters, watchdog.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;
use vhcore::rng::{mix, Rng};
use vhcore::util::{fnv, jstr};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct StreamDef {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Ctx, u64) -> R,
}
pub const fn st(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx, u64) -> R) -> StreamDef {
    StreamDef { name, quick, thorough, f }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(usize, u64, String)>,
    pub cases: BTreeMap<usize, u64>,
    pub digests: Vec<(usize, u64, u64)>,
}

pub struct Ctx {
    pub r: Rng,
    pub tier: Tier,
    pub stream: usize,
    pub idx: u64,
    pub stats: Stats,
    pub scratch: PathBuf,
    pub replay: bool,
    pub want_digest: bool,
    pub seed: u64,
    detail: String,
}

impl Ctx {
    /// n oracle evaluations.
    pub fn ev(&mut self, n: u64) {
        self.stats.evals += n;
    }
    /// A distinct, non-trivial case (by hash).
    pub fn nt(&mut self, h: u64) {
        self.stats.distinct.insert(h);
    }
    pub fn c(&mut self, name: &str, n: u64) {
        if let Some(v) = self.stats.counters.get_mut(name) {
            *v += n;
        } else {
            self.stats.counters.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let v = self.stats.maxima.entry(name.to_string()).or_default();
        *v = (*v).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 2 {
            self.stats.samples.push((self.stream, self.idx, f()));
        }
    }
    /// Extra text written to the replay file when the case fails.
    pub fn detail(&mut self, f: impl FnOnce() -> String) {
        if self.replay {
            self.detail = f();
        }
    }
    /// Digest of all results of the case, compared between builds.
    pub fn digest(&mut self, d: u64) {
        if self.want_digest {
            self.stats.digests.push((self.stream, self.idx, d));
        }
    }
    /// Writes a file in the scratch directory of this worker.
    pub fn file(&self, name: &str, bytes: &[u8]) -> PathBuf {
        let p = self.scratch.join(name);
        std::fs::write(&p, bytes).expect("harness: write scratch file");
        p
    }
}

// ---------------------------------------------------------------- counting allocator

pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
fn note(d: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            note(l.size() as isize);
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
            let _ = TOTAL.try_with(|c| c.set(c.get() + l.size() as u64));
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(l.size() as isize);
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
            let _ = TOTAL.try_with(|c| c.set(c.get() + l.size() as u64));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        note(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            note(n as isize - l.size() as isize);
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
            let _ = TOTAL.try_with(|c| c.set(c.get() + n as u64));
        }
        q
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Mem {
    pub live: isize,
    pub peak: isize,
    /// Number of allocations and the bytes asked for, ever.
    pub count: u64,
    pub total: u64,
}
pub fn mem() -> Mem {
    Mem { live: LIVE.get(), peak: PEAK.get(), count: COUNT.get(), total: TOTAL.get() }
}
pub fn mem_reset_peak() {
    PEAK.set(LIVE.get());
}

// ---------------------------------------------------------------- calls into the code under test

thread_local! {
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
    /// Whether this thread is in the code under test, for the watchdog.
    static SUT_FLAG: Arc<AtomicBool> = Arc::new(AtomicBool::new(false));
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = i.location().map_or_else(String::new, |l| format!("{}:{}", l.file(), l.line()));
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs code under test; a panic in it becomes an error naming the panic.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.set(IN_SUT.get() + 1);
    SUT_FLAG.with(|c| c.store(true, Ordering::Relaxed));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.set(IN_SUT.get() - 1);
    if IN_SUT.get() == 0 {
        SUT_FLAG.with(|c| c.store(false, Ordering::Relaxed));
    }
    r.map_err(|_| format!("{what} panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

// ---------------------------------------------------------------- runner

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub threads: usize,
    pub scale: f64,
    pub deadline_s: f64,
    pub hang_s: f64,
    pub only: Option<(usize, u64)>,
    /// Only the k-th of n parts of the cases.
    pub shard: (usize, usize),
    pub streams: Option<Vec<String>>,
    pub out: PathBuf,
    pub scratch: PathBuf,
    pub digest: bool,
    pub progress: Option<PathBuf>,
}

pub struct Violation {
    pub stream: usize,
    pub idx: u64,
    pub msg: String,
    pub detail: String,
}

#[cfg_attr(miri, allow(dead_code))]
struct Slot {
    stream: AtomicUsize, // 0 = idle, else stream + 1
    idx: AtomicU64,
    thread: AtomicU64,
    wall_start_ms: AtomicU64,
    cpu_start_ms: AtomicU64,
    in_sut: Mutex<Option<Arc<AtomicBool>>>,
}

#[cfg(not(miri))]
fn thread_cpu_ms(t: libc::pthread_t) -> Option<u64> {
    unsafe {
        let mut id: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(t, &mut id) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(id, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000)
    }
}

fn case_seed(o: &Opts, stream: &str, idx: u64) -> u64 {
    let h = fnv(format!("{}/{}", o.prop, stream).as_bytes());
    mix(mix(h ^ o.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15)) ^ idx)
}

pub enum CaseEnd {
    Ok,
    Violation(String),
    Harness(String),
}

fn run_case(ctx: &mut Ctx, d: &StreamDef) -> CaseEnd {
    IN_SUT.set(0);
    SUT_FLAG.with(|c| c.store(false, Ordering::Relaxed));
    let r = catch_unwind(AssertUnwindSafe(|| (d.f)(ctx, ctx.idx)));
    match r {
        Ok(Ok(())) => CaseEnd::Ok,
        Ok(Err(m)) => CaseEnd::Violation(m),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if IN_SUT.get() > 0 {
                CaseEnd::Violation(format!("panicked: {m}"))
            } else {
                CaseEnd::Harness(m)
            }
        }
    }
}

/// File-backed record of the case each worker is in, readable after a crash.
struct Progress(*mut u64, usize);
unsafe impl Sync for Progress {}
unsafe impl Send for Progress {}
impl Progress {
    #[cfg(not(miri))]
    fn new(p: Option<&PathBuf>, n: usize) -> Option<Self> {
        use std::os::fd::AsRawFd;
        let p = p?;
        let f = std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(p).ok()?;
        let len = n * 16;
        f.set_len(len as u64).ok()?;
        let m = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        (m != libc::MAP_FAILED).then_some(Self(m.cast(), n))
    }
    #[cfg(miri)]
    fn new(_: Option<&PathBuf>, _: usize) -> Option<Self> {
        None
    }
    fn set(&self, t: usize, stream: u64, idx: u64) {
        assert!(t < self.1);
        unsafe {
            self.0.add(2 * t).write_volatile(stream);
            self.0.add(2 * t + 1).write_volatile(idx);
        }
    }
}

pub fn run(o: &Opts, defs: &[StreamDef]) -> i32 {
    let t0 = Instant::now();
    // Chunks of cases over all streams, in an order that interleaves the streams.
    let mut chunks: Vec<(usize, u64, u64)> = vec![];
    for (s, d) in defs.iter().enumerate() {
        if let Some(f) = &o.streams {
            if !f.iter().any(|x| x == d.name) {
                continue;
            }
        }
        let n = match o.tier {
            Tier::Quick => d.quick,
            Tier::Thorough => d.thorough,
        };
        // complete enumerations are not scaled up
        let n = if o.scale == 1.0 { n } else { ((n as f64 * o.scale) as u64).clamp(1, d.thorough.max(d.quick)) };
        let size = (n / 64).clamp(1, 256);
        let mut a = 0;
        while a < n {
            let b = (a + size).min(n);
            chunks.push((s, a, b));
            a = b;
        }
    }
    if o.shard.1 > 1 {
        let mut k = 0;
        chunks.retain(|_| {
            k += 1;
            k % o.shard.1 == o.shard.0
        });
    }
    if let Some((s, i)) = o.only {
        chunks = vec![(s, i, i + 1)];
    } else {
        Rng::new(o.seed ^ 77).shuffle(&mut chunks);
        // first cases of every stream first, so that the evidence has its samples
        chunks.sort_by_key(|c| c.1 != 0);
    }
    let planned: u64 = chunks.iter().map(|c| c.2 - c.1).sum();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let finished = AtomicUsize::new(0);
    let violations: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let nthreads = if o.only.is_some() { 1 } else { o.threads };
    let slots: Vec<Slot> = (0..nthreads)
        .map(|_| Slot {
            stream: AtomicUsize::new(0),
            idx: AtomicU64::new(0),
            thread: AtomicU64::new(0),
            wall_start_ms: AtomicU64::new(0),
            cpu_start_ms: AtomicU64::new(0),
            in_sut: Mutex::new(None),
        })
        .collect();
    let progress = Progress::new(o.progress.as_ref(), nthreads);
    std::thread::scope(|sc| {
        for t in 0..nthreads {
            let (slots, chunks, next, stop, cut, finished, violations, harness, total, progress) = (
                &slots, &chunks, &next, &stop, &cut, &finished, &violations, &harness, &total, &progress,
            );
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    let scratch = o.scratch.join(format!("t{t}"));
                    std::fs::create_dir_all(&scratch).expect("harness: scratch");
                    let mut ctx = Ctx {
                        r: Rng::new(0),
                        tier: o.tier,
                        stream: 0,
                        idx: 0,
                        stats: Stats::default(),
                        scratch,
                        replay: o.only.is_some(),
                        want_digest: o.digest,
                        seed: o.seed,
                        detail: String::new(),
                    };
                    let slot = &slots[t];
                    *slot.in_sut.lock().unwrap() = Some(SUT_FLAG.with(Arc::clone));
                    #[cfg(not(miri))]
                    slot.thread.store(unsafe { libc::pthread_self() } as u64, Ordering::SeqCst);
                    'work: loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        let Some(&(s, a, b)) = chunks.get(i) else { break };
                        let d = &defs[s];
                        for idx in a..b {
                            if stop.load(Ordering::Relaxed) {
                                break 'work;
                            }
                            if t0.elapsed().as_secs_f64() > o.deadline_s {
                                cut.store(true, Ordering::Relaxed);
                                break 'work;
                            }
                            ctx.r = Rng::new(case_seed(o, d.name, idx));
                            ctx.stream = s;
                            ctx.idx = idx;
                            ctx.detail.clear();
                            slot.idx.store(idx, Ordering::SeqCst);
                            #[cfg(not(miri))]
                            slot.cpu_start_ms.store(
                                thread_cpu_ms(unsafe { libc::pthread_self() }).unwrap_or(0),
                                Ordering::SeqCst,
                            );
                            slot.wall_start_ms.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                            slot.stream.store(s + 1, Ordering::SeqCst);
                            if let Some(p) = progress {
                                p.set(t, s as u64 + 1, idx);
                            }
                            let end = run_case(&mut ctx, d);
                            slot.stream.store(0, Ordering::SeqCst);
                            *ctx.stats.cases.entry(s).or_default() += 1;
                            match end {
                                CaseEnd::Ok => {}
                                CaseEnd::Violation(msg) => {
                                    let mut v = violations.lock().unwrap();
                                    v.push(Violation {
                                        stream: s,
                                        idx,
                                        msg,
                                        detail: ctx.detail.clone(),
                                    });
                                    if v.len() >= 8 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                CaseEnd::Harness(m) => {
                                    harness.lock().unwrap().push(format!("{}:{idx}: {m}", d.name));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    if let Some(p) = progress {
                        p.set(t, 0, 0);
                    }
                    let mut g = total.lock().unwrap();
                    let s = std::mem::take(&mut ctx.stats);
                    g.evals += s.evals;
                    for (k, v) in s.counters {
                        *g.counters.entry(k).or_default() += v;
                    }
                    for (k, v) in s.maxima {
                        let e = g.maxima.entry(k).or_default();
                        *e = (*e).max(v);
                    }
                    g.distinct.extend(s.distinct);
                    g.samples.extend(s.samples);
                    g.digests.extend(s.digests);
                    for (k, v) in s.cases {
                        *g.cases.entry(k).or_default() += v;
                    }
                    drop(g);
                    finished.fetch_add(1, Ordering::SeqCst);
                })
                .expect("harness: spawn");
        }
        // watchdog
        #[cfg(not(miri))]
        while finished.load(Ordering::SeqCst) < nthreads {
            std::thread::sleep(std::time::Duration::from_millis(20));
            for s in &slots {
                let st = s.stream.load(Ordering::SeqCst);
                if st == 0 {
                    continue;
                }
                let idx = s.idx.load(Ordering::SeqCst);
                let cpu0 = s.cpu_start_ms.load(Ordering::SeqCst);
                let wall0 = s.wall_start_ms.load(Ordering::SeqCst);
                let Some(cpu) = thread_cpu_ms(s.thread.load(Ordering::SeqCst) as libc::pthread_t) else {
                    continue;
                };
                let wall = t0.elapsed().as_millis() as u64;
                let cpu_s = cpu.saturating_sub(cpu0) as f64 / 1000.0;
                let wall_s = wall.saturating_sub(wall0) as f64 / 1000.0;
                if (cpu_s > o.hang_s || wall_s > o.hang_s * 20.0)
                    && s.stream.load(Ordering::SeqCst) == st
                    && s.idx.load(Ordering::SeqCst) == idx
                    && s.wall_start_ms.load(Ordering::SeqCst) == wall0
                {
                    // sampled for a while: the harness may loop over many short calls
                    let mut in_sut = false;
                    for _ in 0..200 {
                        in_sut |= s.in_sut.lock().unwrap().as_ref().is_some_and(|f| f.load(Ordering::Relaxed));
                        std::thread::sleep(std::time::Duration::from_millis(1));
                    }
                    let j = format!(
                        "{{\"hang\":{{\"stream\":{},\"stream_no\":{},\"idx\":{idx},\"cpu_s\":{cpu_s:.1},\"wall_s\":{wall_s:.1},\"in_sut\":{in_sut}}}}}\n",
                        jstr(defs[st - 1].name),
                        st - 1
                    );
                    let _ = std::fs::write(&o.out, j);
                    unsafe { libc::_exit(4) };
                }
            }
        }
    });
    let g = total.into_inner().unwrap();
    let mut v = violations.into_inner().unwrap();
    v.sort_by_key(|x| (x.stream, x.idx));
    let h = harness.into_inner().unwrap();
    let mut j = String::from("{");
    j.push_str(&format!("\"evals\":{},\"planned\":{planned},", g.evals));
    j.push_str(&format!("\"distinct\":{},", g.distinct.len()));
    j.push_str(&format!("\"cut_short\":{},", cut.load(Ordering::Relaxed)));
    j.push_str(&format!("\"wall_s\":{:.3},", t0.elapsed().as_secs_f64()));
    let list = |m: &BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",")
    };
    j.push_str(&format!("\"counters\":{{{}}},", list(&g.counters)));
    j.push_str(&format!("\"maxima\":{{{}}},", list(&g.maxima)));
    j.push_str(&format!(
        "\"streams\":{{{}}},",
        g.cases.iter().map(|(k, v)| format!("{}:{v}", jstr(defs[*k].name))).collect::<Vec<_>>().join(",")
    ));
    let mut samples = g.samples;
    samples.sort();
    j.push_str(&format!(
        "\"samples\":[{}],",
        samples
            .iter()
            .take(40)
            .map(|(s, i, t)| format!(
                "{{\"stream\":{},\"idx\":{i},\"case\":{}}}",
                jstr(defs[*s].name),
                jstr(t)
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    if o.digest {
        let mut d = g.digests;
        d.sort_unstable();
        j.push_str(&format!(
            "\"digests\":[{}],",
            d.iter().map(|(s, i, h)| format!("[{s},{i},\"{h:016x}\"]")).collect::<Vec<_>>().join(",")
        ));
    }
    j.push_str(&format!(
        "\"violations\":[{}],",
        v.iter()
            .map(|x| format!(
                "{{\"stream\":{},\"stream_no\":{},\"idx\":{},\"msg\":{},\"detail\":{}}}",
                jstr(defs[x.stream].name),
                x.stream,
                x.idx,
                jstr(&x.msg),
                jstr(&x.detail)
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push_str(&format!(
        "\"harness_errors\":[{}]",
        h.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
    ));
    j.push_str("}\n");
    std::fs::write(&o.out, j).expect("harness: write result");
    if !h.is_empty() {
        3
    } else if v.is_empty() {
        0
    } else {
        1
    }
}
