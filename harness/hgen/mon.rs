// Monitors shared by the harness programs (included by hgen and rt).
// ---- allocation monitor -----------------------------------------------------------------------
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static BIGGEST: AtomicU64 = AtomicU64::new(0);
static WATCH: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Relaxed); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { LIVE.fetch_sub(l.size() as i64, Relaxed); note(n as i64); System.realloc(p, l, n) }
}
fn note(n: i64) {
    if WATCH.load(Relaxed) != 0 { BIGGEST.fetch_max(n as u64, Relaxed); }
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
}
#[global_allocator]
static A: Counting = Counting;
/// Run f; returns (result, peak of live bytes above the start, biggest single request).
fn measure<T>(f: impl FnOnce() -> T) -> (T, i64, u64) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    BIGGEST.store(0, Relaxed);
    WATCH.store(1, Relaxed);
    let r = f();
    WATCH.store(0, Relaxed);
    (r, PEAK.load(Relaxed) - base, BIGGEST.load(Relaxed))
}

/// Bytes that stay allocated after f (0 when any of several runs leaves none: other threads may allocate, or free what they handed over, a little later).
fn leaked<T>(mut f: impl FnMut() -> T) -> i64 {
    drop(f());
    let mut least = i64::MAX;
    for k in 0..12u64 { std::thread::sleep(std::time::Duration::from_millis(k * k)); let base = LIVE.load(Relaxed); drop(f()); if k > 0 { std::thread::sleep(std::time::Duration::from_millis(k * k)); } least = least.min(LIVE.load(Relaxed) - base); if least <= 0 { return 0; } }
    least
}

// ---- reporting --------------------------------------------------------------------------------
struct Mon { seen: HashMap<String, u64>, pub evals: u64, distinct: HashSet<u64>, stats: BTreeMap<String, u64>, samples: Vec<String> }
fn esc(s: &str) -> String { zmodel::json::quote(s) }
fn cut(s: &str) -> String { if s.len() > 1500 { let mut e = 1500; while !s.is_char_boundary(e) { e -= 1; } format!("{}...", &s[..e]) } else { s.into() } }
impl Mon {
    fn new() -> Self { Mon { seen: HashMap::new(), evals: 0, distinct: HashSet::new(), stats: BTreeMap::new(), samples: vec![] } }
    /// A violation; `sig` names the failing call site and the kind of failure.
    fn bad(&mut self, sig: String, detail: String) {
        let n = self.seen.entry(sig.clone()).or_insert(0);
        *n += 1;
        if *n == 1 { println!("{{\"violation\":{},\"detail\":{}}}", esc(&sig), esc(&cut(&detail))); }
    }
    fn stat(&mut self, k: &str, n: u64) { *self.stats.entry(k.into()).or_insert(0) += n; }
    /// One evaluation; distinct by the hash of `key`.
    fn eval(&mut self, key: &[u8], nontrivial: bool) { self.evals += 1; if nontrivial { self.distinct.insert(hash64(key)); } }
    fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 6 && (self.evals % 97 == 1 || self.samples.is_empty()) { let s = f(); self.samples.push(if s.chars().count() > 300 { s.chars().take(300).collect() } else { s }); } }
    fn done(&self) {
        for (k, n) in gluecore::ARITH.lock().unwrap().iter() { println!("{{\"arith\":{},\"count\":{n}}}", esc(k)); }
        println!("{{\"evaluations\":{},\"distinct\":{},\"stats\":{{{}}},\"samples\":[{}],\"repeats\":{{{}}}}}", self.evals, self.distinct.len(),
            self.stats.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","),
            self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            self.seen.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","));
    }
}

// ---- progress monitor: CPU time spent in one operation --------------------------------------------
static OP: AtomicU64 = AtomicU64::new(0);
static CUR: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
fn begin_op(s: String) { *CUR.lock().unwrap() = s; OP.fetch_add(1, SeqCst); }
fn end_op() { CUR.lock().unwrap().clear(); OP.fetch_add(1, SeqCst); }
fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
fn watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        let (mut last, mut at) = (0, cpu_ticks());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let o = OP.load(SeqCst);
            let t = cpu_ticks();
            if o != last { last = o; at = t; continue; }
            let c = CUR.lock().unwrap().clone();
            if !c.is_empty() && t - at > limit_s * 100 {
                let (sig, detail) = c.split_once('\n').unwrap_or((&c, ""));
                println!("{{\"violation\":{},\"detail\":{}}}", esc(&format!("{sig}|hang")), esc(&cut(&format!("no end after {limit_s} s of CPU time: {detail}"))));
                std::process::exit(1);
            }
            if c.is_empty() { at = t; }
        }
    });
}

/// Cut panic and error texts down to what identifies the place.
fn class<T>(o: &Out<T>) -> String {
    match o {
        Out::Ok(_) => "ok".into(), Out::NoValue => "no value".into(),
        Out::Err(_) => "error".into(),
        Out::Panic(p) => {
            let at = p.rsplit(" at ").next().unwrap_or("");
            format!("panic {}", at.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or(""))
        }
    }
}

