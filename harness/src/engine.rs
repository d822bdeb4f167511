//! Runs a check: a parent supervises a child in which worker threads go through the cases of a
//! sweep and through generated cases, so that a crash of the code under test is observed, pinned
//! on one input, and reported like any other failure.
use crate::subject;
use crate::tape::{Tape, hash, mix};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    pub input: Option<Vec<u8>>,
    /// not a failure: the rest of the case is left out
    pub skip: bool,
}

pub type Res = Result<(), Fail>;

impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), input: None, skip: false }
    }
    pub fn skip() -> Self {
        Fail { msg: "skipped".into(), input: None, skip: true }
    }
    pub fn on(mut self, b: &[u8]) -> Self {
        if self.input.is_none() {
            self.input = Some(b.to_vec());
        }
        self
    }
}

pub fn fail<T>(msg: impl Into<String>, b: &[u8]) -> Result<T, Fail> {
    Err(Fail::new(msg).on(b))
}

/// Attach the input to a failure.
pub trait On<T> {
    fn on(self, b: &[u8]) -> Result<T, Fail>;
}
impl<T> On<T> for Result<T, Fail> {
    fn on(self, b: &[u8]) -> Result<T, Fail> {
        self.map_err(|e| e.on(b))
    }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, (u64, String)>,
    pub notes: Vec<String>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.seen.extend(o.seen);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.samples {
            match self.samples.get(&k) {
                Some(x) if x.0 <= v.0 => {}
                _ => {
                    self.samples.insert(k, v);
                }
            }
        }
        self.notes.extend(o.notes);
    }
}

pub struct Ctx {
    pub tier: Tier,
    pub st: Stats,
    pub index: u64,
    pub known: Known,
    pub id: &'static str,
    pub seed: u64,
}

impl Ctx {
    /// One evaluation of the property, on the input with this hash.
    pub fn eval(&mut self, h: u64, nontrivial: bool) {
        if self.index == POST {
            LAST.fetch_add(1, Ordering::Relaxed);
        }
        self.st.evals += 1;
        if nontrivial {
            self.st.seen.insert(h);
        }
    }
    pub fn eval_bytes(&mut self, b: &[u8], nontrivial: bool) {
        self.eval(hash(b), nontrivial);
    }
    pub fn label(&mut self, l: &str) {
        match self.st.labels.get_mut(l) {
            Some(n) => *n += 1,
            None => {
                self.st.labels.insert(l.to_string(), 1);
            }
        }
    }
    /// Keep one sample per kind: the one of the first case that offers it.
    pub fn sample(&mut self, kind: &str, f: impl FnOnce() -> String) {
        match self.st.samples.get(kind) {
            Some((i, _)) if *i <= self.index => {}
            _ => {
                let s = clip(&f(), 500);
                self.st.samples.insert(kind.to_string(), (self.index, s));
            }
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        format!("{}...", s.chars().take(n).collect::<String>())
    } else {
        s.to_string()
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(120) {
        let _ = write!(s, "{x:02x}");
    }
    if b.len() > 120 {
        let _ = write!(s, "...({} bytes)", b.len());
    }
    s
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// number of cases of the sweep, and one of them
    pub sweep: fn(Tier) -> u64,
    pub run_sweep: fn(u64, &mut Ctx) -> Res,
    pub gens: fn(Tier) -> u64,
    pub run_gen: fn(&mut Tape, &mut Ctx) -> Res,
    /// run once, alone, at the end
    pub post: fn(&mut Ctx) -> Res,
    pub exhaustive: bool,
    /// a case that burns CPU without end is a violation of this property
    pub hang_is_violation: bool,
}

pub fn no_sweep(_: Tier) -> u64 {
    0
}
pub fn no_sweep_case(_: u64, _: &mut Ctx) -> Res {
    Ok(())
}
pub fn no_gen(_: &mut Tape, _: &mut Ctx) -> Res {
    Ok(())
}
pub fn no_post(_: &mut Ctx) -> Res {
    Ok(())
}

#[derive(Clone, Debug)]
pub enum Case {
    Sweep(u64),
    Gen(u64),
    Tape(Vec<u64>),
    Post,
}

impl Case {
    fn arg(&self) -> String {
        match self {
            Case::Sweep(i) => format!("sweep:{i}"),
            Case::Gen(i) => format!("gen:{i}"),
            Case::Tape(t) => {
                format!("tape:{}", t.iter().map(u64::to_string).collect::<Vec<_>>().join(","))
            }
            Case::Post => "post".into(),
        }
    }
    pub fn parse(s: &str) -> Option<Case> {
        if s == "post" {
            return Some(Case::Post);
        }
        let (k, v) = s.split_once(':')?;
        match k {
            "sweep" => Some(Case::Sweep(v.parse().ok()?)),
            "gen" => Some(Case::Gen(v.parse().ok()?)),
            "tape" if v.is_empty() => Some(Case::Tape(vec![])),
            "tape" => Some(Case::Tape(v.split(',').map(|x| x.parse().ok()).collect::<Option<_>>()?)),
            _ => None,
        }
    }
}

/// The listed findings: keys of failures that are reported as known instead of as violations.
#[derive(Clone, Default)]
pub struct Known(BTreeMap<(String, String), String>);

impl Known {
    fn load() -> Known {
        let mut k = Known::default();
        let Ok(s) = fs::read_to_string(root().join("known-findings.txt")) else { return k };
        for l in s.lines() {
            // finding: property=<id> key=<key> <what fails>
            let Some(r) = l.strip_prefix("finding: property=") else { continue };
            let mut p = r.splitn(3, ' ');
            if let (Some(id), Some(key), Some(what)) = (p.next(), p.next(), p.next())
                && let Some(key) = key.strip_prefix("key=")
            {
                k.0.insert((id.into(), key.into()), what.into());
            }
        }
        k
    }
    pub fn get(&self, id: &str, key: &str) -> Option<&String> {
        self.0.get(&(id.to_string(), key.to_string()))
    }
}

pub fn root() -> PathBuf {
    std::env::var_os("WV_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn work() -> PathBuf {
    let d = root().join("work");
    let _ = fs::create_dir_all(&d);
    d
}

pub struct Env {
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
}

pub fn env() -> Env {
    let get = |k: &str| std::env::var(k).ok();
    Env {
        tier: match get("VERIF_TIER").as_deref() {
            Some("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: get("VERIF_SEED").and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        threads: get("WV_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8),
    }
}

const STACK: usize = 1 << 30;

fn run_case(c: &Check, e: &Env, case: &Case, ctx: &mut Ctx) -> (Res, Vec<u64>) {
    match run_case_(c, e, case, ctx) {
        (Err(f), t) if f.skip => {
            ctx.label(if matches!(case, Case::Sweep(_)) {
                "rest of a sweep case skipped (too many locals)"
            } else {
                "rest of a case skipped (too many locals)"
            });
            (Ok(()), t)
        }
        r => r,
    }
}

/// The index that stands for the last part of a check.
const POST: u64 = 1 << 51;
/// How far the last part of a check is.
static LAST: AtomicU64 = AtomicU64::new(0);

fn run_case_(c: &Check, e: &Env, case: &Case, ctx: &mut Ctx) -> (Res, Vec<u64>) {
    match case {
        Case::Sweep(i) => {
            ctx.index = *i;
            ((c.run_sweep)(*i, ctx), vec![])
        }
        Case::Gen(i) => {
            ctx.index = (1 << 40) + *i;
            let mut t = Tape::random(mix(&[hash(c.id.as_bytes()), e.seed, *i]));
            let r = (c.run_gen)(&mut t, ctx);
            (r, t.rec)
        }
        Case::Tape(v) => {
            ctx.index = 1 << 50;
            let mut t = Tape::replay(v.clone());
            ((c.run_gen)(&mut t, ctx), v.clone())
        }
        Case::Post => {
            ctx.index = POST;
            ((c.post)(ctx), vec![])
        }
    }
}

fn ctx(c: &Check, e: &Env) -> Ctx {
    Ctx {
        tier: e.tier,
        st: Stats::default(),
        index: 0,
        known: Known::load(),
        id: c.id,
        seed: e.seed,
    }
}

/// Number the cases so that sweep and generated cases are interleaved over the threads.
fn case_at(sweep: u64, gens: u64, i: u64) -> Case {
    let both = sweep.min(gens);
    if i < 2 * both {
        if i % 2 == 0 { Case::Sweep(i / 2) } else { Case::Gen(i / 2) }
    } else if sweep > gens {
        Case::Sweep(i - both)
    } else {
        Case::Gen(i - both)
    }
}

/// The child: go through all cases.
pub fn child(c: &'static Check) -> i32 {
    subject::install_hook();
    let e = env();
    let start = Instant::now();
    let scale = std::env::var("WV_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let (ns, ng) = ((c.sweep)(e.tier), ((c.gens)(e.tier) as f64 * scale) as u64);
    let total = ns + ng;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let broken = AtomicBool::new(false);
    let fails: Mutex<Vec<(u64, Case, Fail, Vec<u64>)>> = Mutex::new(vec![]);
    let stats = Mutex::new(Stats::default());
    let journal = fs::File::create(work().join(format!("{}.journal", c.id))).expect("journal");
    std::thread::scope(|s| {
        for th in 0..e.threads {
            let (next, stop, broken, fails, stats, journal, e) =
                (&next, &stop, &broken, &fails, &stats, &journal, &e);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut cx = ctx(c, e);
                    while !stop.load(Ordering::Relaxed) {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total {
                            break;
                        }
                        let _ = journal.write_at(&(i + 1).to_le_bytes(), th as u64 * 8);
                        let case = case_at(ns, ng, i);
                        match catch_unwind(AssertUnwindSafe(|| run_case(c, e, &case, &mut cx))) {
                            Ok((Ok(()), _)) => {}
                            Ok((Err(f), tape)) => {
                                fails.lock().unwrap().push((i, case, f, tape));
                                stop.store(true, Ordering::Relaxed);
                            }
                            Err(_) => {
                                eprintln!("harness error in {} {:?}", c.id, case);
                                broken.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    let _ = journal.write_at(&0u64.to_le_bytes(), th as u64 * 8);
                    stats.lock().unwrap().merge(cx.st);
                })
                .expect("spawn");
        }
    });
    let mut st = stats.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.0);
    let mut violations = 0;
    if let Some((_, case, f, tape)) = fails.into_iter().next() {
        violations = 1;
        // first as it is, in case shrinking does not survive
        let path = save(c, &e, &case, &tape, &f);
        let (tape2, f2) = big_stack(|| shrink(c, &e, tape.clone(), f.clone()));
        if !tape2.is_empty() || matches!(case, Case::Gen(_)) {
            save_to(&path, c, &e, &Case::Tape(tape2.clone()), &f2);
        }
        eprintln!("{}: {}", c.id, f2.msg);
        if let Some(b) = &f2.input {
            eprintln!("  input: {}", hex(b));
        }
        println!("VIOLATION property={} replay={}", c.id, path.display());
    } else if !broken.load(Ordering::Relaxed) {
        let mut cx = ctx(c, &e);
        // tell whoever watches how far it is, where it must not take long
        let done = AtomicBool::new(!c.hang_is_violation);
        let r = std::thread::scope(|s| {
            s.spawn(|| {
                while !done.load(Ordering::Relaxed) {
                    let _ = journal.write_at(&(POST + LAST.load(Ordering::Relaxed)).to_le_bytes(), e.threads as u64 * 8);
                    std::thread::sleep(Duration::from_millis(200));
                }
            });
            let r = big_stack(|| catch_unwind(AssertUnwindSafe(|| run_case(c, &e, &Case::Post, &mut cx))));
            done.store(true, Ordering::Relaxed);
            r
        });
        let _ = journal.write_at(&0u64.to_le_bytes(), e.threads as u64 * 8);
        match r {
            Ok((Ok(()), _)) => {}
            Ok((Err(f), _)) => {
                violations = 1;
                let path = save(c, &e, &Case::Post, &[], &f);
                eprintln!("{}: {}", c.id, f.msg);
                println!("VIOLATION property={} replay={}", c.id, path.display());
            }
            Err(_) => broken.store(true, Ordering::Relaxed),
        }
        st.merge(cx.st);
    }
    evidence(c, &e, &st, violations, start.elapsed(), total);
    for n in &st.notes {
        println!("{n}");
    }
    if violations > 0 {
        1
    } else if broken.load(Ordering::Relaxed) {
        2
    } else {
        println!(
            "{}: held on {} evaluations ({} distinct non-trivial), {:.1} s",
            c.id,
            st.evals,
            st.seen.len(),
            start.elapsed().as_secs_f64()
        );
        0
    }
}

pub fn big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, f)
            .expect("spawn")
            .join()
            .expect("join")
    })
}

/// Edit the tape while the case keeps failing.
fn shrink(c: &Check, e: &Env, tape: Vec<u64>, f: Fail) -> (Vec<u64>, Fail) {
    let mut best = (tape, f);
    let mut budget = 4000u32;
    let end = Instant::now() + Duration::from_secs(60);
    let mut attempt = |t: &[u64], best: &mut (Vec<u64>, Fail)| -> bool {
        if budget == 0 || Instant::now() > end {
            return false;
        }
        budget -= 1;
        let mut cx = ctx(c, e);
        match catch_unwind(AssertUnwindSafe(|| {
            run_case(c, e, &Case::Tape(t.to_vec()), &mut cx).0
        })) {
            Ok(Err(f)) => {
                *best = (t.to_vec(), f);
                true
            }
            _ => false,
        }
    };
    loop {
        let before = best.0.clone();
        let mut size = (best.0.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.0.len() {
                let mut t = best.0.clone();
                t.drain(i..(i + size).min(t.len()));
                if !attempt(&t, &mut best) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.0.len() {
            for v in [0, 1, best.0.get(i).copied().unwrap_or(0) / 2] {
                if i < best.0.len() && v < best.0[i] {
                    let mut t = best.0.clone();
                    t[i] = v;
                    if attempt(&t, &mut best) {
                        break;
                    }
                }
            }
        }
        if best.0 == before {
            return best;
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7F => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn save(c: &Check, e: &Env, case: &Case, tape: &[u64], f: &Fail) -> PathBuf {
    let dir = work().join("replay");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", c.id, hash(f.msg.as_bytes())));
    let case = match case {
        Case::Gen(_) if !tape.is_empty() => Case::Tape(tape.to_vec()),
        x => x.clone(),
    };
    save_to(&path, c, e, &case, f);
    path
}

fn save_to(path: &PathBuf, c: &Check, e: &Env, case: &Case, f: &Fail) {
    let mut h = String::new();
    if let Some(b) = &f.input {
        for x in b.iter().take(1 << 20) {
            let _ = write!(h, "{x:02x}");
        }
    }
    let tier = if e.tier == Tier::Quick { "quick" } else { "thorough" };
    let s = format!(
        "{{\n  \"property\": \"{}\",\n  \"seed\": {},\n  \"tier\": \"{tier}\",\n  \"case\": \"{}\",\n  \"what\": {},\n  \"input_hex\": \"{h}\",\n  \"run\": \"./run.sh replay {}\"\n}}\n",
        c.id,
        e.seed,
        case.arg(),
        json_str(&f.msg),
        path.display(),
    );
    let _ = fs::write(path, s);
}

/// Run the case of a replay file.
pub fn replay(path: &str, find: impl Fn(&str) -> Option<&'static Check>) -> i32 {
    let Ok(s) = fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let field = |k: &str| -> Option<String> {
        let at = s.find(&format!("\"{k}\": "))? + k.len() + 4;
        let rest = &s[at..];
        let rest = rest.strip_prefix('"').unwrap_or(rest);
        Some(rest.chars().take_while(|c| !matches!(c, '"' | '\n')).collect::<String>())
    };
    let (Some(id), Some(case)) = (field("property"), field("case")) else { return 2 };
    let Some(c) = find(&id) else { return 2 };
    let seed = field("seed").map(|s| s.trim_end_matches(',').to_string()).unwrap_or("1".into());
    let tier = field("tier").unwrap_or("quick".into());
    let (code, out) = one(c, &case, &seed, &tier, 600);
    print!("{out}");
    match code {
        Some(0) => {
            println!("{id}: the case passes");
            0
        }
        Some(1) => {
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("{id}: the process died");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        _ => 2,
    }
}

/// Run one case in a process of its own; None when it dies.
fn one(c: &Check, case: &str, seed: &str, tier: &str, cpu: u64) -> (Option<i32>, String) {
    let file = work().join(format!("{}.{}.case", c.id, std::process::id()));
    fs::write(&file, case).expect("case file");
    let out = Command::new("sh")
        .arg("-c")
        .arg(format!("ulimit -c 0; ulimit -t {cpu}; exec \"$0\" \"$@\""))
        .arg(std::env::current_exe().unwrap())
        .args(["one", c.id])
        .arg(&file)
        .env("VERIF_SEED", seed)
        .env("VERIF_TIER", tier)
        .stdin(Stdio::null())
        .output()
        .expect("run one case");
    let _ = fs::remove_file(&file);
    let mut s = String::from_utf8_lossy(&out.stdout).into_owned();
    s.push_str(&String::from_utf8_lossy(&out.stderr));
    if let Some(sig) = out.status.signal() {
        let _ = writeln!(s, "signal {sig}");
    }
    (out.status.code(), s)
}

/// In the process of its own.
pub fn run_one(c: &'static Check, file: &str) -> i32 {
    subject::install_hook();
    let e = env();
    let Some(case) = fs::read_to_string(file).ok().and_then(|s| Case::parse(s.trim())) else {
        return 2;
    };
    if let Some(p) = std::env::var_os("WV_TRACE") {
        crate::tape::trace_to(fs::File::create(p).expect("trace"));
    }
    let mut cx = ctx(c, &e);
    match big_stack(|| catch_unwind(AssertUnwindSafe(|| run_case(c, &e, &case, &mut cx)))) {
        Ok((Ok(()), _)) => 0,
        Ok((Err(f), _)) => {
            println!("{}: {}", c.id, f.msg);
            if let Some(b) = &f.input {
                println!("  input: {}", hex(b));
            }
            1
        }
        Err(_) => 3,
    }
}

fn evidence(c: &Check, e: &Env, st: &Stats, violations: u32, wall: Duration, cases: u64) {
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let mut samples: Vec<_> = st.samples.iter().collect();
    samples.sort_by_key(|(_, (i, _))| *i);
    let samples: Vec<String> = samples
        .iter()
        .take(24)
        .map(|(k, (i, s))| json_str(&format!("[{k}, case {i}] {s}")))
        .collect();
    let labels: Vec<String> =
        st.labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let assumptions: Vec<String> = c.assumptions.iter().map(|s| json_str(s)).collect();
    let s = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"cases\": {cases},\n  \"rule\": {},\n  \"labels\": {{{}}},\n  \"exhaustive\": {},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
        c.id,
        if e.tier == Tier::Quick { "quick" } else { "thorough" },
        e.seed,
        c.level,
        st.evals,
        st.seen.len(),
        json_str(c.rule),
        labels.join(", "),
        c.exhaustive,
        samples.join(",\n   "),
        assumptions.join(", "),
        wall.as_secs_f64(),
    );
    let _ = fs::write(dir.join(format!("{}.json", c.id)), s);
}

/// The parent.
pub fn check(c: &'static Check) -> i32 {
    let start = Instant::now();
    let e = env();
    let journal = work().join(format!("{}.journal", c.id));
    let _ = fs::remove_file(&journal);
    let mut ch = Command::new("sh")
        .arg("-c")
        .arg("ulimit -c 0; exec \"$0\" \"$@\"")
        .arg(std::env::current_exe().unwrap())
        .args(["child", c.id])
        .stdin(Stdio::null())
        .spawn()
        .expect("spawn");
    let stall = Duration::from_secs(100);
    let read = || -> Vec<u64> {
        fs::read(&journal)
            .unwrap_or_default()
            .chunks_exact(8)
            .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
            .collect()
    };
    let mut since: Vec<(u64, Instant)> = vec![];
    let mut hung = false;
    let status = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break s;
        }
        std::thread::sleep(Duration::from_millis(50));
        let now = read();
        since.resize(now.len(), (u64::MAX, Instant::now()));
        for (s, n) in since.iter_mut().zip(&now) {
            if s.0 != *n {
                *s = (*n, Instant::now());
            } else if *n != 0 && s.1.elapsed() > stall {
                hung = true;
            }
        }
        if hung {
            let _ = ch.kill();
            break ch.wait().expect("wait");
        }
    };
    if let Some(code) = status.code() {
        return code;
    }
    // it died, or was stopped: find the case
    let scale = std::env::var("WV_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let (ns, ng) = ((c.sweep)(e.tier), ((c.gens)(e.tier) as f64 * scale) as u64);
    let mut slots: Vec<u64> = read().into_iter().filter(|n| *n != 0).collect();
    slots.sort();
    if hung && let Some(n) = slots.last().filter(|n| **n >= POST) {
        let what = format!("item {} of the last part takes more than {} s", n - POST, stall.as_secs());
        return report(c, &e, &Case::Post, &Fail::new(what), start);
    }
    slots.retain(|n| *n < POST);
    eprintln!("{}: the process {}; looking at {} cases", c.id, if hung { "hangs" } else { "died" }, slots.len());
    let tier = if e.tier == Tier::Quick { "quick" } else { "thorough" };
    let mut suspects: Vec<Case> = slots.iter().map(|n| case_at(ns, ng, n - 1)).collect();
    suspects.push(Case::Post);
    for case in suspects {
        let cpu = 40;
        let run = |k: &Case| one(c, &k.arg(), &e.seed.to_string(), tier, cpu);
        let (code, out) = run(&case);
        let dies = |r: &(Option<i32>, String)| r.0.is_none();
        if code == Some(1) {
            // died elsewhere, but this one fails outright
            let f = Fail::new(out.lines().next().unwrap_or("").to_string());
            return report(c, &e, &case, &f, start);
        }
        if code.is_some() {
            continue;
        }
        let again = run(&case);
        if !dies(&again) {
            continue;
        }
        let timed = out.contains("signal 24") || out.contains("signal 9");
        if timed && !c.hang_is_violation && matches!(case, Case::Post) {
            eprintln!("{}: {:?} uses more than {cpu} s of CPU time; no answer", c.id, case);
            return 2;
        }
        let what = if timed {
            format!("uses more than {cpu} s of CPU time")
        } else {
            format!("the process dies: {}", clip(&out.replace('\n', " "), 300))
        };
        // shrink by running candidates
        let mut best = case.clone();
        if let Case::Gen(i) = case
            && !timed
        {
            let trace = work().join(format!("{}.trace", c.id));
            unsafe { std::env::set_var("WV_TRACE", &trace) };
            let _ = run(&Case::Gen(i));
            unsafe { std::env::remove_var("WV_TRACE") };
            let tape: Vec<u64> = fs::read(&trace)
                .unwrap_or_default()
                .chunks_exact(8)
                .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                .collect();
            best = shrink_dead(tape, &|t| dies(&run(&Case::Tape(t.to_vec())))).unwrap_or(case);
        }
        return report(c, &e, &best, &Fail::new(what), start);
    }
    eprintln!("{}: the process ended by {status}, and no single case reproduces it", c.id);
    2
}

fn report(c: &Check, e: &Env, case: &Case, f: &Fail, start: Instant) -> i32 {
    let path = save(c, e, case, &[], f);
    eprintln!("{}: {}", c.id, f.msg);
    let st = Stats { evals: 1, ..Stats::default() };
    evidence(c, e, &st, 1, start.elapsed(), 1);
    println!("VIOLATION property={} replay={}", c.id, path.display());
    1
}

/// Shrink a case that kills its process: its choices were traced to a file as they were drawn, and
/// each candidate runs in a process of its own.
fn shrink_dead(tape: Vec<u64>, dies: &dyn Fn(&[u64]) -> bool) -> Option<Case> {
    if !dies(&tape) {
        return None;
    }
    let end = Instant::now() + Duration::from_secs(60);
    let mut best = tape;
    let mut budget = 300;
    let mut size = (best.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < best.len() && budget > 0 && Instant::now() < end {
            let mut t = best.clone();
            t.drain(i..(i + size).min(t.len()));
            budget -= 1;
            if dies(&t) {
                best = t;
            } else {
                i += size;
            }
        }
        if size == 1 || budget == 0 {
            break;
        }
        size /= 2;
    }
    Some(Case::Tape(best))
}
