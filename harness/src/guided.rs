//! Coverage-guided search over choice sequences, for builds with counters.
//!
//! The corpus consists of choice sequences, not of bytes: each is what a structured generator has drawn, a mutation is
//! a change of some of the draws, and what has been cut or added is drawn at random.

use crate::engine::{case_seed, evaluate, mix, Case, CaseFn, Failure, Outcome, Rng, Source, Stats};
use std::os::unix::fs::FileExt;
use std::sync::Mutex;

static COUNTERS: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);

/// Called once for each instrumented module.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let mut counters = COUNTERS.lock().unwrap();
    let one = (start as usize, stop as usize);
    if one.0 < one.1 && !counters.contains(&one) {
        counters.push(one);
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

/// How often each edge has been taken, up to a power of two, and whether something is new.
struct Coverage {
    modules: Vec<(usize, usize)>,
    seen: Vec<Vec<u8>>,
    pub features: u64,
    pub edges: u64,
}

impl Coverage {
    fn new() -> Self {
        let modules = COUNTERS.lock().unwrap().clone();
        let seen = modules.iter().map(|(start, stop)| vec![0; stop - start]).collect();
        Coverage { modules, seen, features: 0, edges: 0 }
    }

    fn total(&self) -> u64 {
        self.seen.iter().map(|seen| seen.len() as u64).sum()
    }

    fn clear(&mut self) {
        for (start, stop) in &self.modules {
            // The counters are static, and the only thread that counts is this one.
            unsafe { std::ptr::write_bytes(*start as *mut u8, 0, stop - start) };
        }
    }

    fn collect(&mut self) -> u64 {
        let mut new = 0;
        for ((start, stop), seen) in self.modules.iter().zip(&mut self.seen) {
            let counters = unsafe { std::slice::from_raw_parts(*start as *const u8, stop - start) };
            for (chunk, seen) in counters.chunks(16).zip(seen.chunks_mut(16)) {
                if chunk.iter().all(|count| *count == 0) {
                    continue;
                }
                for (count, seen) in chunk.iter().zip(seen) {
                    if *count == 0 {
                        continue;
                    }
                    let bucket: u8 = match count {
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if *seen & bucket == 0 {
                        self.edges += (*seen == 0) as u64;
                        *seen |= bucket;
                        new += 1;
                    }
                }
            }
        }
        self.features += new;
        new
    }
}

fn value(rng: &mut Rng, old: u64) -> u64 {
    match rng.below(8) {
        0 => 0,
        1 => old.wrapping_add(1),
        2 => old.wrapping_sub(1),
        3 => rng.below(16),
        4 => (1 << rng.below(33)) - rng.below(2),
        5 => old ^ 1 << rng.below(16),
        6 => u64::MAX - rng.below(4),
        // Reduced to the range by the one who draws.
        _ => rng.next() >> rng.below(60),
    }
}

/// The choices of a case, and the time it has taken in microseconds.
type Kept = (Vec<u64>, u64);

fn mutate(corpus: &[Kept], rng: &mut Rng) -> Vec<u64> {
    let n = corpus.len() as u64;
    // The cheapest one out of several, late ones at times.
    let late = rng.below(2) == 0;
    let mut draw = || (if late { n - 1 - rng.below(1 + n / 5) } else { rng.below(n) }) as usize;
    let parent = (0..4).map(|_| draw()).min_by_key(|i| corpus[*i].1).unwrap();
    let mut choices = corpus[parent].0.clone();
    // Early choices decide about much.
    fn place(rng: &mut Rng, n: usize) -> usize {
        let n = n as u64;
        let at = match rng.below(3) {
            0 => rng.below(n.min(40)),
            _ => rng.below(n),
        };
        at as usize
    }
    for _ in 0..1 + rng.below(4) {
        if choices.is_empty() {
            break;
        }
        let at = place(rng, choices.len());
        match rng.below(12) {
            0 => {
                let to = (at + 1 + rng.below(20) as usize).min(choices.len());
                choices.drain(at..to);
            }
            1 => {
                let to = (at + 1 + rng.below(20) as usize).min(choices.len());
                let block = choices[at..to].to_vec();
                let to = place(rng, choices.len());
                choices.splice(to..to, block);
            }
            2 => choices.truncate(at),
            3 => {
                let other = &corpus[rng.below(n) as usize].0;
                if !other.is_empty() {
                    let from = place(rng, other.len());
                    let to = (from + 1 + rng.below(60) as usize).min(other.len());
                    let end = (at + to - from).min(choices.len());
                    choices.splice(at..end, other[from..to].iter().copied());
                }
            }
            4 => {
                let other = &corpus[rng.below(n) as usize].0;
                choices.truncate(at);
                choices.extend(other.iter().skip(at));
            }
            5 => {
                let same = choices[place(rng, choices.len())];
                choices[at] = same;
            }
            _ => choices[at] = value(rng, choices[at]),
        }
    }
    choices
}

pub struct Search<'s> {
    pub name: &'s str,
    pub f: CaseFn,
    pub seed: u64,
    pub cases: u64,
    pub seconds: u64,
    /// Where the case in progress is kept, in case the process dies.
    pub journal: Option<&'s std::fs::File>,
}

pub struct Summary {
    pub stats: Stats,
    pub corpus: u64,
    pub features: u64,
    pub edges: u64,
    pub total: u64,
}

pub fn run(search: &Search) -> (Summary, Option<Failure>) {
    let began = std::time::Instant::now();
    let mut rng = Rng(case_seed(search.seed, search.name, 1 << 40));
    let mut coverage = Coverage::new();
    let mut corpus: Vec<Kept> = vec![];
    let mut stats = Stats::default();
    let mut failure = None;
    if coverage.total() == 0 {
        eprintln!("HARNESS: built without counters");
        std::process::exit(3);
    }
    for index in 0..search.cases {
        if search.seconds > 0 && began.elapsed().as_secs() >= search.seconds {
            break;
        }
        let prefix = if corpus.is_empty() || rng.below(4) == 0 { vec![] } else { mutate(&corpus, &mut rng) };
        let seed = mix(rng.next());
        if let Some(journal) = search.journal {
            let mut bytes = Vec::with_capacity(16 + 8 * prefix.len());
            bytes.extend((prefix.len() as u64).to_le_bytes());
            bytes.extend(seed.to_le_bytes());
            bytes.extend(prefix.iter().flat_map(|value| value.to_le_bytes()));
            let _ = journal.write_at(&bytes, 0);
        }
        let mut source = Source::continued(prefix, seed);
        let mut case = Case::default();
        crate::memory::start();
        coverage.clear();
        let start = std::time::Instant::now();
        let outcome = evaluate(search.f, &mut source, &mut case);
        let new = coverage.collect();
        match outcome {
            Outcome::Fail(message) => {
                failure = Some(Failure { index, choices: source.record, message });
                break;
            }
            Outcome::Discard(why) => *stats.discards.entry(why).or_default() += 1,
            Outcome::Pass => {
                stats.evaluations += 1;
                if case.nontrivial {
                    stats.nontrivial += 1;
                    stats.distinct.insert(case.hash);
                }
                if new > 0 && source.record.len() < 20_000 {
                    corpus.push((source.record, start.elapsed().as_micros() as u64));
                }
            }
        }
    }
    let summary = Summary {
        stats,
        corpus: corpus.len() as u64,
        features: coverage.features,
        edges: coverage.edges,
        total: coverage.total(),
    };
    (summary, failure)
}
