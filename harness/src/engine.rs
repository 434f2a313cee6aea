//! Generates cases, runs them on all cores, shrinks a failure, writes the replay and the evidence.

use crate::run::*;
use crate::src::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub enum Fail {
    Violation(String),
    /// The case told us nothing (a spawn failed, the wall clock alarm went off).
    Inconclusive(String),
}
impl From<String> for Fail {
    fn from(s: String) -> Fail {
        Fail::Violation(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Fail {
        Fail::Violation(s.into())
    }
}
pub type Res = Result<(), Fail>;

pub struct Ctx<'a> {
    pub r: &'a mut Runner,
    pub log: String,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub input: u64,
    pub known: Vec<String>,
}

impl Ctx<'_> {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn path(&self, p: &str) -> PathBuf {
        self.r.dir.join(p)
    }
    pub fn fresh(&mut self) {
        self.r.reset();
    }
    pub fn write(&mut self, p: &str, text: &str) {
        self.write_bytes(p, text.as_bytes())
    }
    pub fn write_bytes(&mut self, p: &str, text: &[u8]) {
        let f = self.path(p);
        if let Some(d) = f.parent() {
            let _ = fs::create_dir_all(d);
        }
        fs::write(&f, text).expect("write to scratch");
        let t = String::from_utf8_lossy(text);
        self.input = hash64(&[self.input, hash_str(p), hash_str(&t)]);
        self.log += &format!("--- file {p}\n{t}{}", if t.ends_with('\n') { "" } else { "\n<no newline at end>\n" });
    }
    pub fn read(&self, p: &str) -> String {
        fs::read(self.path(p)).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default()
    }
    pub fn run(&mut self, args: &[&str], o: &Opts) -> Result<Out, Fail> {
        let v: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        let out = self.r.run(&v, o).map_err(Fail::Inconclusive)?;
        self.input = hash64(&[self.input, hash_str(&args.join("\u{1}")), o.now as u64, hash_str(&o.tz)]);
        self.log += &format!("--- run (epoch {}, TZ={}{}{}) silverfox {}\n", o.now, o.tz,
            if o.rofs != 0 { ", read-only files" } else { "" },
            o.fault.as_ref().map(|f| format!(", fault {f}")).unwrap_or_default(),
            args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "));
        if !o.env.is_empty() {
            self.log += &format!("env {:?}\n", o.env);
        }
        self.log += &format!("{:?}\nstdout:\n{}", out.end, out.stdout);
        if !out.stderr.is_empty() {
            self.log += &format!("stderr:\n{}", out.stderr);
        }
        Ok(out)
    }
    /// A run that has to end with a report and without complaints.
    pub fn report(&mut self, args: &[&str], o: &Opts) -> Result<String, Fail> {
        let out = self.run(args, o)?;
        if out.ok() {
            return Ok(out.stdout);
        }
        Err(Fail::Violation(format!("`silverfox {}` should have reported, but: {:?}, stderr {:?}", args.join(" "), out.end, out.stderr)))
    }
    /// A run that has to end with an error message and no report.
    pub fn refusal(&mut self, args: &[&str], o: &Opts, why: &str) -> Res {
        let out = self.run(args, o)?;
        if out.refused() {
            return Ok(());
        }
        Err(Fail::Violation(format!(
            "`silverfox {}` should have refused ({why}), but: {:?}, stdout {:?}, stderr {:?}",
            args.join(" "), out.end, out.stdout, out.stderr
        )))
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx) -> Res,
}

pub struct Env {
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub verif: PathBuf,
    pub scratch: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub cov: bool,
}

struct CaseOut {
    res: Res,
    log: String,
    labels: Vec<&'static str>,
    nontrivial: bool,
    input: u64,
    used: Vec<u64>,
    known: Vec<String>,
}

fn one(p: &Prop, r: &mut Runner, mut s: Src) -> CaseOut {
    r.reset();
    r.bits.clear();
    let mut c = Ctx { r, log: String::new(), labels: vec![], nontrivial: false, input: 0, known: vec![] };
    let res = (p.run)(&mut s, &mut c);
    CaseOut { res, log: c.log, labels: c.labels, nontrivial: c.nontrivial, input: c.input, used: s.used, known: c.known }
}

/// Runs a case until it fails, at most `n` times: silverfox itself may behave at random (hash maps).
fn tries(p: &Prop, r: &mut Runner, tape: &[u64], n: u32) -> (CaseOut, u32) {
    let mut k = 1;
    loop {
        let o = one(p, r, Src::replay(tape.to_vec()));
        if k >= n || matches!(o.res, Err(Fail::Violation(_))) {
            return (o, k);
        }
        k += 1;
    }
}

fn shrink(p: &Prop, r: &mut Runner, tape: Vec<u64>, first: CaseOut, per: u32) -> (Vec<u64>, CaseOut, u32) {
    let start = Instant::now();
    let (mut best, mut out) = (tape, first);
    let mut tries = 0;
    let mut progress = true;
    let budget = |tries: u32| tries < 3000 && start.elapsed().as_secs() < 60;
    while progress && budget(tries) {
        progress = false;
        let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, out: &mut CaseOut, tries: &mut u32| -> bool {
            if cand == *best {
                return false;
            }
            *tries += 1;
            let o = self::tries(p, r, &cand, per).0;
            // `used` is what the case really consumed
            if let Err(Fail::Violation(_)) = o.res {
                let mut used = o.used.clone();
                while used.last() == Some(&0) {
                    used.pop();
                }
                if (used.len(), &used) < (best.len(), best) {
                    *best = used;
                    *out = o;
                    return true;
                }
            }
            false
        };
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && budget(tries) {
            let mut i = 0;
            while i + size <= best.len() && budget(tries) {
                let mut c = best.clone();
                c.drain(i..i + size);
                if attempt(c, &mut best, &mut out, &mut tries) {
                    progress = true;
                } else {
                    i += size.max(1);
                }
            }
            size /= 2;
        }
        // zero blocks, then lower single choices
        for size in [8usize, 3, 1] {
            let mut i = 0;
            while i < best.len() && budget(tries) {
                let mut c = best.clone();
                for x in c.iter_mut().skip(i).take(size) {
                    *x = 0;
                }
                if attempt(c, &mut best, &mut out, &mut tries) {
                    progress = true;
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && budget(tries) {
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if nv < v && i < best.len() {
                    let mut c = best.clone();
                    c[i] = nv;
                    if attempt(c, &mut best, &mut out, &mut tries) {
                        progress = true;
                    }
                }
            }
            i += 1;
        }
    }
    (best, out, tries)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            '\r' => o += "\\r",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "\n[...]" }
}

fn runner(e: &Env, t: usize) -> Runner {
    Runner { bin: e.bin.clone(), shim: e.shim.clone(), dir: e.scratch.join(format!("t{t}")), runs: 0,
        cov: if e.cov { Some(e.scratch.join(format!("t{t}.cov"))) } else { None }, bits: vec![] }
}

fn replay_text(p: &Prop, tape: &[u64], msg: &str, log: &str) -> String {
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    format!("property={}\ntape={}\nwords={}\nmessage: {msg}\n\n{log}", p.id, t.join(","), crate::dict::get().to_line())
}

pub fn replay(p: &Prop, e: &Env, tape: Vec<u64>) -> i32 {
    let mut r = runner(e, 0);
    let o = tries(p, &mut r, &tape, 20).0;
    println!("{}", o.log);
    match o.res {
        Ok(()) => {
            println!("held: {}", p.id);
            0
        }
        Err(Fail::Violation(m)) => {
            println!("violated: {m}");
            1
        }
        Err(Fail::Inconclusive(m)) => {
            println!("inconclusive: {m}");
            2
        }
    }
}

/// Cases that covered something new, to be varied.
#[derive(Default)]
struct Corpus {
    seen: Vec<u8>,
    hits: Vec<u32>, // cases per edge
    tapes: Vec<(Vec<u64>, Vec<usize>)>, // with the edges it was the first for
}

impl Corpus {
    fn learn(&mut self, bits: &[u8], tape: &[u64]) {
        if self.seen.len() < bits.len() {
            self.seen.resize(bits.len(), 0);
            self.hits.resize(bits.len(), 0);
        }
        let mut new = vec![];
        for (i, b) in bits.iter().enumerate() {
            if *b != 0 {
                self.hits[i] += 1;
                if b & !self.seen[i] != 0 {
                    self.seen[i] |= b;
                    new.push(i);
                }
            }
        }
        if !new.is_empty() && tape.len() < 20_000 {
            self.tapes.push((tape.to_vec(), new));
        }
    }
    /// One of the cases, rather one of the unusual ones.
    fn pick(&self, r: &mut Src) -> Option<&Vec<u64>> {
        if self.tapes.is_empty() {
            return None;
        }
        let rare = |i: usize| self.tapes[i].1.iter().map(|e| self.hits[*e]).min().unwrap_or(u32::MAX);
        let best = (0..4).map(|_| r.below(self.tapes.len())).min_by_key(|i| rare(*i)).unwrap();
        Some(&self.tapes[best].0)
    }
}

fn vary(a: &[u64], b: &[u64], r: &mut Src) -> Vec<u64> {
    let mut t = a.to_vec();
    for _ in 0..[1, 1, 2, 4, 8][r.below(5)] {
        let n = t.len();
        if n == 0 {
            break;
        }
        let i = r.below(n);
        match r.below(8) {
            0 | 1 => t[i] = r.below(1 << 30) as u64,
            2 => t[i] = r.below(5) as u64,
            3 => t[i] = if r.chance(1, 2) { t[i] + 1 } else { t[i].saturating_sub(1) },
            4 => {
                let k = (1 + r.below(12)).min(n - i);
                t.drain(i..i + k);
            }
            5 => {
                let k = (1 + r.below(40)).min(n - i);
                let x: Vec<u64> = t[i..i + k].to_vec();
                let j = r.below(n);
                t.splice(j..j, x);
            }
            6 => t.truncate(i + 1),
            _ => {
                if !b.is_empty() {
                    let j = r.below(b.len());
                    t.truncate(i);
                    t.extend_from_slice(&b[j..]);
                }
            }
        }
    }
    t
}

pub fn check(p: &Prop, e: &Env) -> i32 {
    let start = Instant::now();
    let cases = std::env::var("SF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if e.thorough { p.thorough } else { p.quick });
    let threads = std::env::var("SF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    // afterwards: variations of the cases that covered something new
    let guided = if e.cov { cases / 2 } else { 0 };
    // a slow machine gets through fewer of them
    let limit = Duration::from_secs(if e.thorough { 36_000 } else { 480 });
    let corpus = Mutex::new(Corpus::default());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    #[derive(Default)]
    struct Shared {
        fail: Option<(u64, Vec<u64>, CaseOut)>,
        inconclusive: Vec<String>,
        seen: HashSet<u64>,
        labels: BTreeMap<&'static str, u64>,
        samples: Vec<(u64, String)>,
        known: BTreeMap<String, u64>,
        evals: u64,
        runs: u64,
    }
    let sh = Mutex::new(Shared::default());
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop, sh, corpus) = (&next, &stop, &sh, &corpus);
            sc.spawn(move || {
                let mut r = runner(e, t);
                loop {
                    if stop.load(Ordering::Relaxed) || start.elapsed() > limit {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases + guided {
                        break;
                    }
                    let seed = hash64(&[e.seed, hash_str(p.id), i]);
                    let mut src = Src::random(seed);
                    if i >= cases {
                        let mut rnd = Src::random(seed ^ 0x5eed);
                        let g = corpus.lock().unwrap();
                        if let (Some(a), Some(b)) = (g.pick(&mut rnd), g.pick(&mut rnd)) {
                            let (a, b) = (a.clone(), b.clone());
                            drop(g);
                            src = Src::guided(vary(&a, &b, &mut rnd), seed);
                        }
                    }
                    let mut o = one(p, &mut r, src);
                    for _ in 0..3 {
                        // (the machine may be busy)
                        if matches!(o.res, Err(Fail::Inconclusive(_))) {
                            o = one(p, &mut r, Src::replay(o.used.clone()));
                        }
                    }
                    if r.cov.is_some() {
                        corpus.lock().unwrap().learn(&r.bits, &o.used);
                    }
                    let mut g = sh.lock().unwrap();
                    g.evals += 1;
                    for l in &o.labels {
                        *g.labels.entry(l).or_default() += 1;
                    }
                    for k in &o.known {
                        *g.known.entry(k.clone()).or_default() += 1;
                    }
                    if o.nontrivial && g.seen.insert(o.input) && i < 64 {
                        let s = clip(&o.log, 1800);
                        g.samples.push((i, s));
                    }
                    match &o.res {
                        Ok(()) => {}
                        Err(Fail::Inconclusive(m)) => {
                            g.inconclusive.push(m.clone());
                            if g.inconclusive.len() > 5 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        Err(Fail::Violation(_)) => {
                            let used = o.used.clone();
                            if g.fail.as_ref().is_none_or(|f| i < f.0) {
                                g.fail = Some((i, used, o));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                sh.lock().unwrap().runs += r.runs;
            });
        }
    });
    let corpus = corpus.into_inner().unwrap();
    let edges = corpus.seen.iter().filter(|x| **x != 0).count();
    let mut g = sh.into_inner().unwrap();
    g.samples.sort();
    g.samples.truncate(3);
    let mut code = 0;
    let mut violation = None;
    if let Some((i, tape, first)) = g.fail.take() {
        let mut r = runner(e, 0);
        // a failure has to be reproducible to count
        let (again, k) = self::tries(p, &mut r, &tape, 100);
        if matches!(again.res, Err(Fail::Violation(_))) {
            let (tape, out, tries) = shrink(p, &mut r, tape, again, if k == 1 { 1 } else { (2 * k).min(20) });
            let Err(Fail::Violation(m)) = &out.res else { unreachable!() };
            let text = replay_text(p, &tape, m, &out.log);
            let dir = e.verif.join("replays");
            let _ = fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{:016x}.txt", p.id, hash_str(&text)));
            fs::write(&path, &text).expect("replay file");
            println!("case {i} (seed {}) fails; shrunk in {tries} attempts to {} choices: {m}", e.seed, tape.len());
            println!("VIOLATION property={} replay={}", p.id, path.display());
            violation = Some(m.clone());
            code = 1;
        } else {
            let Err(Fail::Violation(m)) = &first.res else { unreachable!() };
            println!("case {i} failed once, but not again: {m}\n{}", first.log);
            code = 2;
        }
    } else if !g.inconclusive.is_empty() {
        println!("inconclusive: {}", g.inconclusive.join("; "));
        code = 2;
    }
    for (k, n) in &g.known {
        println!("KNOWN-FINDING: property={} {k} ({n} cases)", p.id);
    }
    let labels: Vec<String> = g.labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let samples: Vec<String> = g.samples.iter().map(|(_, s)| esc(s)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|a| esc(a)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"process_runs\": {},\n  \"varied_cases\": {},\n  \"interesting_cases\": {},\n  \"edges_covered\": {edges},\n  \"edges\": {},\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}{}\n}}\n",
        esc(p.id), esc(if e.thorough { "thorough" } else { "quick" }), e.seed, esc(p.level), g.evals, g.seen.len(), esc(p.rule), g.runs, g.evals.saturating_sub(cases), corpus.tapes.len(), corpus.seen.len(),
        labels.join(", "), samples.join(",\n   "), assumptions.join(", "), start.elapsed().as_secs_f64(),
        if code == 1 { 1 } else { 0 },
        violation.map(|m| format!(",\n \"violation\": {}", esc(&m))).unwrap_or_default()
    );
    let dir = e.verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", p.id)), ev).expect("evidence");
    println!("{}: {} cases, {} distinct non-trivial, {} runs, {} of {} edges, {:.1} s", p.id, g.evals, g.seen.len(), g.runs, edges, corpus.seen.len(), start.elapsed().as_secs_f64());
    let pct: Vec<String> = g.labels.iter().map(|(k, v)| format!("{k} {:.1}%", 100.0 * *v as f64 / g.evals.max(1) as f64)).collect();
    println!("  {}", pct.join(", "));
    let _ = Path::new("/");
    code
}
