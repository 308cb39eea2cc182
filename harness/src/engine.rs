//! Choice-sequence generation, case execution, shrinking and statistics.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// A small deterministic generator (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, bytes: &[u8]) -> u64 {
    for chunk in bytes.chunks(8) {
        let mut w = [0u8; 8];
        w[..chunk.len()].copy_from_slice(chunk);
        h = mix(h ^ u64::from_le_bytes(w)).wrapping_add(chunk.len() as u64);
    }
    h
}

/// At times, out of many values, one that occurs in the code under test, as fuzzers do with their dictionaries. What is
/// recorded is the value, and a replay does not depend on the dictionary.
fn familiar(rng: &mut Rng, low: u64, n: u64) -> Option<u64> {
    if n < 300 || rng.below(12) > 0 {
        return None;
    }
    let all = dictionary();
    let from = all.partition_point(|value| *value < low);
    let to = all.partition_point(|value| *value < low.saturating_add(n));
    if from >= to {
        return None;
    }
    Some(all[from + rng.below((to - from) as u64) as usize] - low)
}

fn dictionary() -> &'static [u64] {
    static DICTIONARY: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    DICTIONARY.get_or_init(|| {
        let mut values = std::collections::BTreeSet::new();
        let mut folders = vec![std::path::PathBuf::from("/repo/src")];
        while let Some(folder) = folders.pop() {
            for entry in std::fs::read_dir(folder).into_iter().flatten().flatten() {
                let path = entry.path();
                if path.is_dir() {
                    folders.push(path);
                } else if path.extension().is_some_and(|extension| extension == "rs") {
                    literals(&std::fs::read(path).unwrap_or_default(), &mut values);
                }
            }
        }
        values.into_iter().collect()
    })
}

/// The numbers in a piece of code, apart from small ones, and their neighbours.
fn literals(code: &[u8], values: &mut std::collections::BTreeSet<u64>) {
    let word = |byte: &u8| byte.is_ascii_alphanumeric() || *byte == b'_';
    for token in code.split(|byte| !word(byte)) {
        if !token.first().is_some_and(u8::is_ascii_digit) {
            continue;
        }
        let token: String = token.iter().filter(|byte| **byte != b'_').map(|byte| *byte as char).collect();
        let (radix, digits) = match token.get(..2) {
            Some("0x") => (16, &token[2..]),
            Some("0b") => (2, &token[2..]),
            Some("0o") => (8, &token[2..]),
            _ => (10, &token[..]),
        };
        let digits = digits.split(['u', 'i']).next().unwrap();
        if let Ok(value) = u64::from_str_radix(digits, radix) {
            if value >= 100 && value < 1 << 33 {
                values.extend([value - 1, value, value + 1]);
            }
        }
    }
    // Tags, as long as they are few.
    let mut tags = vec![];
    for (i, quoted) in code.windows(6).enumerate() {
        if quoted[0] == b'"' && quoted[5] == b'"' && !quoted[1..5].contains(&b'"') && i < 1 << 20 {
            tags.push(u32::from_be_bytes(quoted[1..5].try_into().unwrap()) as u64);
        }
    }
    if tags.len() < 40 {
        values.extend(tags);
    }
}

/// The source of every random decision of a case. Zero is the simplest choice.
pub struct Source {
    prefix: Vec<u64>,
    rng: Option<Rng>,
    pub record: Vec<u64>,
}

impl Source {
    pub fn random(seed: u64) -> Self {
        Source { prefix: vec![], rng: Some(Rng(seed)), record: vec![] }
    }
    /// Random apart from the first choice, which is what is enumerated.
    pub fn enumerated(first: u64, seed: u64) -> Self {
        Source { prefix: vec![first], rng: Some(Rng(seed)), record: vec![] }
    }
    /// Random after the given choices.
    pub fn continued(choices: Vec<u64>, seed: u64) -> Self {
        Source { prefix: choices, rng: Some(Rng(seed)), record: vec![] }
    }
    pub fn replay(choices: &[u64]) -> Self {
        Source { prefix: choices.to_vec(), rng: None, record: vec![] }
    }
    /// Draw a value below `n`.
    pub fn below(&mut self, n: u64) -> u64 {
        self.draw(0, n)
    }
    /// Draw a value below `n`, which is to be added to another.
    fn draw(&mut self, low: u64, n: u64) -> u64 {
        let n = n.max(1);
        let at = self.record.len();
        let value = if at < self.prefix.len() {
            let v = self.prefix[at];
            if v < n { v } else { v % n }
        } else if let Some(rng) = self.rng.as_mut() {
            familiar(rng, low, n).unwrap_or_else(|| rng.below(n))
        } else {
            0
        };
        self.record.push(value);
        value
    }
    /// Draw a value in `low..=high`.
    pub fn within(&mut self, low: u64, high: u64) -> u64 {
        if high <= low {
            return low;
        }
        low + self.draw(low, high - low + 1)
    }
    /// True with probability `num / den`; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn raw(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }
    /// A value of `bits` bits, biased towards boundaries.
    pub fn int(&mut self, bits: u32) -> u64 {
        let max = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.below(8) {
            0 => self.below(5),
            1 => {
                let k = self.below(bits as u64 + 1);
                let p = if k >= 64 { 0 } else { 1u64 << k };
                match self.below(3) {
                    0 => p & max,
                    1 => p.wrapping_sub(1) & max,
                    _ => p.wrapping_add(1) & max,
                }
            }
            2 => max - self.below(4).min(max),
            3 => self.below(max.min(256).max(1)),
            _ => self.below(max.saturating_add(1).max(1)),
        }
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Case {
    pub classes: Vec<String>,
    pub hash: u64,
    pub nontrivial: bool,
    pub sample: String,
    /// Extra counters (sub-evaluations and the like).
    pub counters: Vec<(&'static str, u64)>,
    pub verbose: bool,
}

impl Case {
    pub fn class(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.classes.contains(&s) {
            self.classes.push(s);
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        for c in &mut self.counters {
            if c.0 == name {
                c.1 += n;
                return;
            }
        }
        self.counters.push((name, n));
    }
}

pub enum Outcome {
    Pass,
    /// The generator could not build the case or it is outside the claim.
    Discard(&'static str),
    Fail(String),
}

pub type CaseFn = fn(&mut Source, &mut Case) -> Outcome;

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub discards: BTreeMap<&'static str, u64>,
    pub classes: BTreeMap<String, u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub nontrivial: u64,
    pub samples: Vec<(u64, String)>,
    pub max_choices: usize,
    pub max_memory: u64,
}

impl Stats {
    pub fn merge(&mut self, other: Stats) {
        self.evaluations += other.evaluations;
        for (k, v) in other.discards {
            *self.discards.entry(k).or_default() += v;
        }
        for (k, v) in other.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in other.counters {
            *self.counters.entry(k).or_default() += v;
        }
        self.distinct.extend(other.distinct);
        self.nontrivial += other.nontrivial;
        self.samples.extend(other.samples);
        self.samples.sort();
        self.samples.truncate(6);
        self.max_choices = self.max_choices.max(other.max_choices);
        self.max_memory = self.max_memory.max(other.max_memory);
    }
}

thread_local! {
    pub static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{message} at {location}")));
    }));
}

/// Run a closure, turning a panic into its description.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub fn evaluate(f: CaseFn, source: &mut Source, case: &mut Case) -> Outcome {
    match guard(|| f(source, case)) {
        Ok(outcome) => outcome,
        Err(message) => {
            // A panic of the harness itself must never look like a defect of the code.
            if message.contains("HARNESS") || message.contains(" at src/") {
                eprintln!("harness error: {message}; choices {:?}", source.record);
                std::process::exit(3);
            }
            Outcome::Fail(format!("panicked: {message}"))
        }
    }
}

pub struct Failure {
    pub index: u64,
    pub choices: Vec<u64>,
    pub message: String,
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(hash_bytes(seed ^ 0x5EED, id.as_bytes()) ^ mix(index.wrapping_add(1)))
}

/// The source of a case, a function of the seed, the name of the phase and the index alone.
pub fn source_of(name: &str, enumerated: bool, seed: u64, index: u64) -> Source {
    let seed = case_seed(seed, name, index);
    if enumerated {
        Source::enumerated(index, seed)
    } else {
        Source::random(seed)
    }
}

pub struct Setting<'a> {
    pub name: &'a str,
    pub f: CaseFn,
    pub enumerated: bool,
    pub seed: u64,
    pub cases: u64,
    pub threads: usize,
    /// Where the indices of the cases in progress are kept, in case the process dies.
    pub journal: Option<&'a std::fs::File>,
    pub ordinal: u64,
    /// No case takes as long, by orders of magnitude, unless it does not end.
    pub patience: u64,
    /// Nor does it wait for as many times 20 ms after that.
    pub polls: u64,
    /// No more cases after so many seconds; zero for no limit.
    pub seconds: u64,
}

/// The number under which the system knows this thread.
fn thread_number() -> u64 {
    let link = std::fs::read_link("/proc/thread-self").unwrap_or_default();
    link.file_name().and_then(|name| name.to_str()?.parse().ok()).unwrap_or(0)
}

/// The time in seconds a thread has spent on a processor.
fn worked(thread: u64) -> u64 {
    let text = std::fs::read_to_string(format!("/proc/self/task/{thread}/schedstat")).unwrap_or_default();
    let nanoseconds: u64 = text.split(' ').next().and_then(|word| word.parse().ok()).unwrap_or(0);
    nanoseconds / 1_000_000_000
}

pub fn run(setting: &Setting) -> (Stats, Option<Failure>) {
    use std::os::unix::fs::FileExt;
    let Setting { name, f, enumerated, seed, cases, threads, .. } = *setting;
    let began = std::time::Instant::now();
    let next = AtomicU64::new(0);
    let first = AtomicU64::new(u64::MAX);
    let running = AtomicU64::new(threads as u64);
    let total = Mutex::new(Stats::default());
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let slots: Vec<[AtomicU64; 3]> = (0..threads).map(|_| std::array::from_fn(|_| AtomicU64::new(0))).collect();
    let mut stuck = None;
    let mut suspicions = vec![(0, 0, 0); threads];
    std::thread::scope(|scope| {
        let (next, first, running, total, failure, slots) = (&next, &first, &running, &total, &failure, &slots);
        for slot in 0..threads {
            let body = move || {
                let mut stats = Stats::default();
                slots[slot][2].store(thread_number(), Ordering::SeqCst);
                loop {
                    if setting.seconds > 0 && began.elapsed().as_secs() >= setting.seconds {
                        break;
                    }
                    let index = next.fetch_add(1, Ordering::SeqCst);
                    if index >= cases || index > first.load(Ordering::SeqCst) {
                        break;
                    }
                    if let Some(journal) = setting.journal {
                        let entry = (setting.ordinal << 48 | index) + 1;
                        let _ = journal.write_at(&entry.to_le_bytes(), 8 * slot as u64);
                    }
                    slots[slot][1].store(index, Ordering::SeqCst);
                    slots[slot][0].store(began.elapsed().as_secs() + 1, Ordering::SeqCst);
                    let mut source = source_of(name, enumerated, seed, index);
                    let mut case = Case::default();
                    crate::memory::start();
                    let outcome = evaluate(f, &mut source, &mut case);
                    slots[slot][0].store(0, Ordering::SeqCst);
                    stats.max_choices = stats.max_choices.max(source.record.len());
                    stats.max_memory = stats.max_memory.max(crate::memory::peak());
                    match outcome {
                        Outcome::Discard(why) => {
                            *stats.discards.entry(why).or_default() += 1;
                        }
                        Outcome::Pass => {
                            stats.evaluations += 1;
                            for c in case.classes {
                                *stats.classes.entry(c).or_default() += 1;
                            }
                            for (k, v) in case.counters {
                                *stats.counters.entry(k).or_default() += v;
                            }
                            if case.nontrivial {
                                stats.nontrivial += 1;
                                stats.distinct.insert(case.hash);
                                if stats.samples.len() < 6 && (index % 7 == 3 || enumerated) {
                                    stats.samples.push((index, case.sample));
                                }
                            }
                        }
                        Outcome::Fail(message) => {
                            first.fetch_min(index, Ordering::SeqCst);
                            let mut slot = failure.lock().unwrap();
                            if slot.as_ref().map_or(true, |x| x.index > index) {
                                *slot = Some(Failure { index, choices: source.record, message });
                            }
                        }
                    }
                }
                if let Some(journal) = setting.journal {
                    let _ = journal.write_at(&[0; 8], 8 * slot as u64);
                }
                total.lock().unwrap().merge(stats);
                running.fetch_sub(1, Ordering::SeqCst);
            };
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, body).unwrap();
        }
        while running.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let now = began.elapsed().as_secs() + 1;
            for (slot, suspicion) in slots.iter().zip(&mut suspicions) {
                let start = slot[0].load(Ordering::SeqCst);
                if start == 0 || now <= start + setting.patience {
                    continue;
                }
                // The machine may have been busy or asleep: what counts is work, or waiting without any.
                let worked = worked(slot[2].load(Ordering::SeqCst));
                if suspicion.0 != start {
                    *suspicion = (start, worked, 0);
                }
                suspicion.2 += 1;
                if worked >= suspicion.1 + 60 || suspicion.2 > setting.polls {
                    stuck = Some(slot[1].load(Ordering::SeqCst));
                }
            }
            if let Some(index) = stuck {
                crate::runner::report_stuck(setting, index);
            }
        }
    });
    (total.into_inner().unwrap(), failure.into_inner().unwrap())
}

fn fails(f: CaseFn, choices: &[u64]) -> Option<(Vec<u64>, String)> {
    let mut source = Source::replay(choices);
    let mut case = Case::default();
    match evaluate(f, &mut source, &mut case) {
        Outcome::Fail(message) => Some((source.record, message)),
        _ => None,
    }
}

/// Minimise a failing choice sequence.
pub fn shrink(f: CaseFn, failure: Failure, budget: usize) -> Failure {
    let started = std::time::Instant::now();
    let mut best = failure.choices.clone();
    let mut message = failure.message.clone();
    let spent = std::cell::Cell::new(0);
    // The limit on time only bounds the effort of minimising a failure already found.
    let over = || spent.get() >= budget || started.elapsed().as_secs() > 40;
    let attempt = |candidate: &[u64], best: &mut Vec<u64>, message: &mut String| -> bool {
        if over() {
            return false;
        }
        spent.set(spent.get() + 1);
        if let Some((record, text)) = fails(f, candidate) {
            let better = record.len() < best.len()
                || (record.len() == best.len() && record < *best);
            if better {
                *best = record;
                *message = text;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = best.len().next_power_of_two().max(1);
        while size >= 1 {
            let mut at = 0;
            while at < best.len() && !over() {
                let end = (at + size).min(best.len());
                let mut candidate = best.clone();
                candidate.drain(at..end);
                if !attempt(&candidate, &mut best, &mut message) {
                    let mut candidate = best.clone();
                    let end = end.min(candidate.len());
                    let zero = candidate[at..end].iter().all(|v| *v == 0);
                    if !zero {
                        candidate[at..end].fill(0);
                        attempt(&candidate, &mut best, &mut message);
                    }
                    at += size;
                }
            }
            size /= 2;
        }
        for at in 0..best.len() {
            if at >= best.len() || over() {
                break;
            }
            let mut low = 0;
            let mut high = best[at];
            while low < high && !over() {
                let middle = low + (high - low) / 2;
                let mut candidate = best.clone();
                candidate[at] = middle;
                if attempt(&candidate, &mut best, &mut message) {
                    if at >= best.len() {
                        break;
                    }
                    high = best[at].min(middle);
                } else {
                    low = middle + 1;
                }
            }
        }
        if best == before || over() {
            break;
        }
    }
    Failure { index: failure.index, choices: best, message }
}
