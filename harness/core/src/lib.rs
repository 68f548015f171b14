//! Shared driver of the bounded model checks.
//!
//! Every check enumerates a finite set of *cases* (operation histories, input
//! values, programs, crash points ...). Cases are distributed over worker
//! processes (one per CPU, pinned) by their ordinal, so that the whole set is
//! always covered and every worker is deterministic. A worker that dies or
//! stops making progress inside a case is itself reported as a violation of
//! that case, because cases run the real code of /repo.

use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    shard: u64,
    shards: u64,
    ordinal: u64,
    filter: Option<String>,
    status: Option<std::fs::File>,
    executed: u64,
    pub transitions: u64,
    states: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
    known_hits: Vec<String>,
    known: Vec<(String, String)>,
    pub scratch: PathBuf,
    deadline: Option<Instant>,
    pub truncated: bool,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

/// Runs `f`; a panic is turned into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = LAST_PANIC.with(|l| l.borrow().clone());
        format!("panicked: {} [{}]", m, loc)
    })
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Picks by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    /// One case. `key` must identify it; `f` returns `Err(why)` when the
    /// property is violated. A panic of the code is a violation as well.
    pub fn case<K, F>(&mut self, key: K, f: F)
    where
        K: FnOnce() -> String,
        F: FnOnce(&mut Ctx) -> Result<(), String>,
    {
        let ord = self.ordinal;
        self.ordinal += 1;
        let key = if let Some(flt) = &self.filter {
            let key = key();
            if key != *flt {
                return;
            }
            key
        } else {
            if ord % self.shards != self.shard {
                return;
            }
            key()
        };
        if self.violations.len() >= 20 {
            return;
        }
        if let Some(st) = &self.status {
            let mut rec = Vec::with_capacity(key.len() + 16);
            rec.extend_from_slice(&(self.executed + 1).to_le_bytes());
            rec.extend_from_slice(&(key.len() as u64).to_le_bytes());
            rec.extend_from_slice(key.as_bytes());
            let _ = st.write_at(&rec, 0);
        }
        self.executed += 1;
        if self.samples.len() < 3 && (self.executed == 1 || self.executed == 50 || self.executed == 500) {
            let mut k = key.clone();
            truncate(&mut k, 400);
            self.samples.push(k);
        }
        let res = no_panic(|| f(self)).and_then(|r| r);
        if let Err(why) = res {
            self.violation(key, why);
        }
    }

    /// Like [`Ctx::case`] for a case that belongs to the known finding `id` if it fails.
    pub fn case_known<K, F>(&mut self, id: &str, key: K, f: F)
    where
        K: FnOnce() -> String,
        F: FnOnce(&mut Ctx) -> Result<(), String>,
    {
        let listed = self.known.iter().any(|(k, _)| k == id);
        let id = id.to_string();
        self.case(key, move |c| match no_panic(|| f(c)).and_then(|r| r) {
            Ok(()) => Ok(()),
            Err(why) => {
                if listed {
                    if !c.known_hits.contains(&id) {
                        c.known_hits.push(id);
                    }
                    Ok(())
                } else {
                    Err(why)
                }
            }
        })
    }

    pub fn violation(&mut self, key: String, why: String) {
        self.violations.push((key, why));
    }

    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(hash_of(t));
    }

    pub fn step(&mut self) {
        self.transitions += 1;
    }

    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }

    pub fn replaying(&self) -> bool {
        self.filter.is_some()
    }

    /// Whether the time budget of this run is used up. Only deep tiers ask;
    /// what is left out is reported in the evidence (`exhaustive: false`).
    pub fn out_of_time(&mut self) -> bool {
        match self.deadline {
            Some(d) if Instant::now() > d => {
                self.truncated = true;
                true
            }
            _ => false,
        }
    }
}

fn truncate(s: &mut String, n: usize) {
    if s.len() > n {
        let mut i = n;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
        s.push_str("...");
    }
}

pub struct Prop {
    pub id: &'static str,
    /// What a state, a transition and a trace are in this check.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
    /// Maximum number of worker processes at a time (0 = one per CPU).
    pub max_workers: usize,
    /// Worker processes per CPU, one after another (quick, thorough): the code
    /// under test keeps some threads and memory of every store it ran.
    pub slices: (usize, usize),
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn load_known(prop: &str) -> Vec<(String, String)> {
    // finding: property=<id> id=<key> <what fails>
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=");
                let id = it.next().unwrap_or("").trim_start_matches("id=");
                let what = it.next().unwrap_or("");
                if p == prop {
                    out.push((id.to_string(), what.to_string()));
                }
            }
        }
    }
    out
}

fn cpus() -> Vec<usize> {
    // The CPUs this process may run on.
    if let Ok(s) = std::fs::read_to_string("/proc/self/status") {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("Cpus_allowed_list:") {
                let mut v = vec![];
                for part in r.trim().split(',') {
                    let mut ab = part.split('-');
                    let a: Option<usize> = ab.next().and_then(|x| x.trim().parse().ok());
                    let b: Option<usize> = ab.next().and_then(|x| x.trim().parse().ok());
                    if let Some(a) = a {
                        for i in a..=b.unwrap_or(a) {
                            v.push(i);
                        }
                    }
                }
                if !v.is_empty() {
                    return v;
                }
            }
        }
    }
    vec![0]
}

fn new_ctx(prop: &str, tier: Tier) -> Ctx {
    Ctx {
        prop: prop.to_string(),
        tier,
        shard: 0,
        shards: 1,
        ordinal: 0,
        filter: None,
        status: None,
        executed: 0,
        transitions: 0,
        states: HashSet::new(),
        samples: vec![],
        violations: vec![],
        known_hits: vec![],
        known: load_known(prop),
        scratch: PathBuf::new(),
        deadline: None,
        truncated: false,
    }
}

const STALL_SECS: u64 = 120;

/// `vh-x <property> quick|thorough`, `vh-x <property> replay <file>`,
/// and (internal) `vh-x <property> worker <tier> <i> <n> <outdir>`.
pub fn main(props: &[Prop]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} <property> quick|thorough|replay [file]", args[0]);
        std::process::exit(2);
    }
    let prop = match props.iter().find(|p| p.id == args[1]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", args[1]);
            std::process::exit(2);
        }
    };
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = loc);
    }));
    match args[2].as_str() {
        "quick" => orchestrate(prop, Tier::Quick),
        "thorough" => orchestrate(prop, Tier::Thorough),
        "worker" => worker(prop, &args[3..]),
        "replay" => replay(prop, &args[3]),
        _ => std::process::exit(2),
    }
}

fn worker(prop: &Prop, a: &[String]) {
    let tier = if a[0] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let out = PathBuf::from(&a[3]);
    let mut c = new_ctx(prop.id, tier);
    c.shard = a[1].parse().unwrap();
    c.shards = a[2].parse().unwrap();
    c.scratch = out.join(format!("scratch{}", c.shard));
    std::fs::create_dir_all(&c.scratch).unwrap();
    let budget: u64 = std::env::var("VERIF_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Thorough { 5400 } else { 600 });
    c.deadline = Some(Instant::now() + Duration::from_secs(budget));
    let st = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(out.join(format!("status{}", c.shard)))
        .unwrap();
    c.status = Some(st);
    if let Err(e) = no_panic(|| (prop.run)(&mut c)) {
        eprintln!("{}", e);
        std::process::exit(101);
    }
    let mut r = String::new();
    let _ = writeln!(r, "executed {}", c.executed);
    let _ = writeln!(r, "transitions {}", c.transitions);
    let _ = writeln!(r, "total {}", c.ordinal);
    let _ = writeln!(r, "truncated {}", c.truncated as u8);
    for s in &c.samples {
        let _ = writeln!(r, "sample {}", esc(s));
    }
    for k in &c.known_hits {
        let _ = writeln!(r, "known {}", k);
    }
    for (k, w) in &c.violations {
        let _ = writeln!(r, "violation {}\t{}", esc(k), esc(w));
    }
    let mut h: Vec<u8> = Vec::with_capacity(c.states.len() * 8);
    for s in &c.states {
        h.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(out.join(format!("states{}", c.shard)), h).unwrap();
    std::fs::write(out.join(format!("result{}", c.shard)), r).unwrap();
    // Skip destructors of leaked runtimes and thread pools.
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn read_status(p: &Path) -> (u64, String) {
    let b = std::fs::read(p).unwrap_or_default();
    if b.len() < 16 {
        return (0, String::new());
    }
    let mut a = [0u8; 8];
    a.copy_from_slice(&b[..8]);
    let n = u64::from_le_bytes(a);
    a.copy_from_slice(&b[8..16]);
    let l = (u64::from_le_bytes(a) as usize).min(b.len() - 16);
    (n, String::from_utf8_lossy(&b[16..16 + l]).into_owned())
}

fn orchestrate(prop: &Prop, tier: Tier) {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let dir = verif_dir();
    let out = dir.join("work").join(format!("{}-{}", prop.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).unwrap();
    let cpus = cpus();
    let mut n = cpus.len().min(8);
    if prop.max_workers > 0 {
        n = n.min(prop.max_workers);
    }
    let exe = std::env::current_exe().unwrap();
    let slots = n;
    let n = slots * (if tier == Tier::Thorough { prop.slices.1 } else { prop.slices.0 }).max(1);
    let start = |i: usize| {
        let log = std::fs::File::create(out.join(format!("log{}", i))).unwrap();
        let child = std::process::Command::new("taskset")
            .arg("-c")
            .arg(cpus[i % slots].to_string())
            .arg(&exe)
            .arg(prop.id)
            .arg("worker")
            .arg(if tier == Tier::Thorough { "thorough" } else { "quick" })
            .arg(i.to_string())
            .arg(n.to_string())
            .arg(&out)
            .stdin(std::process::Stdio::null())
            .stdout(log.try_clone().unwrap())
            .stderr(log)
            .spawn()
            .expect("cannot start a worker");
        (child, false, 0u64, Instant::now())
    };
    // Worker i runs on CPU slot i % slots, after worker i - slots.
    let mut kids: Vec<_> = (0..slots).map(|i| (i, start(i))).collect();
    let mut violations: Vec<(String, String)> = vec![];
    let mut engine_error = None;
    let mut failed = false;
    loop {
        let mut alive = false;
        for (i, kid) in kids.iter_mut() {
            if kid.1 && *i + slots < n && !failed && violations.is_empty() && engine_error.is_none() {
                *i += slots;
                *kid = start(*i);
            }
            let i = *i;
            let (child, done, last, since) = kid;
            if *done {
                continue;
            }
            let status_file = out.join(format!("status{}", i));
            match child.try_wait() {
                Ok(Some(st)) => {
                    *done = true;
                    if st.success() {
                        alive = true; // another slice may follow
                        if let Ok(r) = std::fs::read_to_string(out.join(format!("result{}", i))) {
                            failed |= r.lines().any(|l| l.starts_with("violation "));
                        }
                        continue;
                    }
                    let (cnt, key) = read_status(&status_file);
                    match st.signal() {
                        Some(9) => engine_error = Some(format!("worker {} was killed", i)),
                        Some(s) if cnt > 0 => violations.push((
                            key,
                            format!("the process died with signal {} while running this case", s),
                        )),
                        Some(s) => engine_error = Some(format!("worker {} died early: signal {}", i, s)),
                        None => {
                            let log = std::fs::read(out.join(format!("log{}", i))).unwrap_or_default();
                            let tail = String::from_utf8_lossy(&log[log.len().saturating_sub(600)..]).into_owned();
                            engine_error = Some(format!("worker {} failed: {} {}", i, st, tail))
                        }
                    }
                }
                Ok(None) => {
                    alive = true;
                    let (cnt, key) = read_status(&status_file);
                    if cnt != *last {
                        *last = cnt;
                        *since = Instant::now();
                    } else if cnt > 0 && since.elapsed() > Duration::from_secs(STALL_SECS) {
                        violations.push((key, format!("no progress for {} s: the case does not terminate", STALL_SECS)));
                        let _ = child.kill();
                        let _ = child.wait();
                        *done = true;
                    }
                }
                Err(e) => {
                    *done = true;
                    engine_error = Some(e.to_string());
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // Merge.
    let (mut executed, mut transitions, mut total, mut truncated) = (0u64, 0u64, 0u64, false);
    let mut samples = vec![];
    let mut known: Vec<String> = vec![];
    let mut states: HashSet<u64> = HashSet::new();
    for i in 0..n {
        let r = std::fs::read_to_string(out.join(format!("result{}", i))).unwrap_or_default();
        for l in r.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "executed" => executed += v.parse::<u64>().unwrap_or(0),
                "transitions" => transitions += v.parse::<u64>().unwrap_or(0),
                "total" => total = total.max(v.parse::<u64>().unwrap_or(0)),
                "truncated" => truncated |= v == "1",
                "sample" => {
                    if samples.len() < 8 {
                        samples.push(unesc(v))
                    }
                }
                "known" => {
                    if !known.contains(&v.to_string()) {
                        known.push(v.to_string())
                    }
                }
                "violation" => {
                    let (a, b) = v.split_once('\t').unwrap_or((v, ""));
                    violations.push((unesc(a), unesc(b)));
                }
                _ => {}
            }
        }
        let s = std::fs::read(out.join(format!("states{}", i))).unwrap_or_default();
        for c in s.chunks_exact(8) {
            let mut a = [0u8; 8];
            a.copy_from_slice(c);
            states.insert(u64::from_le_bytes(a));
        }
    }
    let exhaustive = !truncated && engine_error.is_none() && violations.is_empty() && executed == total;
    let mut ev = String::new();
    let _ = write!(
        ev,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(prop.id),
        if tier == Tier::Thorough { "\"thorough\"" } else { "\"quick\"" },
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        states.len(),
        transitions,
        executed,
        json_str(prop.rule),
        exhaustive,
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violations.len()
    );
    let evd = dir.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    let tmp = evd.join(format!("{}.json.tmp", prop.id));
    std::fs::write(&tmp, ev).unwrap();
    std::fs::rename(&tmp, evd.join(format!("{}.json", prop.id))).unwrap();
    let _ = std::fs::remove_dir_all(&out);

    println!(
        "{} {:?}: {} cases, {} states, {} transitions, {:.1} s{}",
        prop.id,
        tier,
        executed,
        states.len(),
        transitions,
        t0.elapsed().as_secs_f64(),
        if exhaustive { "" } else { " (not the complete bounded space)" }
    );
    let listed = load_known(prop.id);
    for k in &known {
        if let Some((_, what)) = listed.iter().find(|(id, _)| id == k) {
            println!("KNOWN-FINDING: property={} {}", prop.id, what);
        }
    }
    if !violations.is_empty() {
        violations.sort_by_key(|(k, _)| k.len());
        let rd = dir.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        for (i, (k, w)) in violations.iter().take(3).enumerate() {
            let p = rd.join(format!("{}-{}.txt", prop.id, i));
            std::fs::write(&p, format!("{}\n# {}\n# replay: bash /verif/check.sh {} replay {}\n", esc(k), esc(w), prop.id, p.display())).unwrap();
            let mut w = w.clone();
            truncate(&mut w, 500);
            let mut k = k.clone();
            truncate(&mut k, 500);
            println!("  case: {}\n  why:  {}", k, w);
            println!("VIOLATION property={} replay={}", prop.id, p.display());
        }
        std::process::exit(1);
    }
    if let Some(e) = engine_error {
        println!("ENGINE ERROR (no verdict): {}", e);
        std::process::exit(3);
    }
    std::process::exit(0);
}

fn replay(prop: &Prop, file: &str) {
    let s = std::fs::read_to_string(file).expect("cannot read the replay file");
    let key = unesc(s.lines().next().unwrap_or(""));
    for tier in [Tier::Quick, Tier::Thorough] {
        let mut c = new_ctx(prop.id, tier);
        c.filter = Some(key.clone());
        c.scratch = verif_dir().join("work").join(format!("replay-{}", std::process::id()));
        std::fs::create_dir_all(&c.scratch).unwrap();
        (prop.run)(&mut c);
        let _ = std::fs::remove_dir_all(&c.scratch);
        if c.executed > 0 {
            if let Some((k, w)) = c.violations.first() {
                println!("  case: {}\n  why:  {}", k, w);
                println!("VIOLATION property={} replay={}", prop.id, file);
                std::process::exit(1);
            }
            println!("replayed: the case holds ({:?})", tier);
            std::process::exit(0);
        }
    }
    println!("no such case: {}", key);
    std::process::exit(2);
}

// ---------------------------------------------------------------------------
// Enumeration helpers

/// Calls `f` with every sequence over `0..k` of length exactly `len`.
pub fn sequences(k: usize, len: usize, f: &mut dyn FnMut(&[usize])) {
    let mut v = vec![0usize; len];
    if k == 0 && len > 0 {
        return;
    }
    loop {
        f(&v);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
        }
    }
}

/// Calls `f` with every tuple of indices below the respective bound.
pub fn product(bounds: &[usize], f: &mut dyn FnMut(&[usize])) {
    if bounds.iter().any(|b| *b == 0) {
        return;
    }
    let mut v = vec![0usize; bounds.len()];
    loop {
        f(&v);
        let mut i = bounds.len();
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < bounds[i] {
                break;
            }
            v[i] = 0;
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
