//! Readings that go on at the same time: one inside of another, or several in threads.

use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

use crate::checks::{base, decode_limited, make, read};
use crate::codec::{Plan, E, R};
use crate::engine::{guard, mix, Case, Outcome, Source};
use crate::fonts::{self, Expected, Given, Wish, SLOTS};
use crate::image::Image;
use crate::kinds::{self, Kind};
use crate::tape::Tape;
use crate::value::{diff, V};

/// Something to be read, with what is to come of it.
struct Job {
    name: String,
    image: Image,
    base: u64,
    chop: u64,
    task: Task,
    /// The number of operations on the tape when done alone.
    ops: u64,
    weight: u64,
}

enum Task {
    Table { kind: &'static Kind, expected: R<V> },
    Font { given: Given, takes: Vec<(usize, Expected)> },
}

impl Job {
    /// Do it, with something happening before each operation on the tape.
    fn run(&self, hook: Option<&dyn Fn(u64)>) -> Result<u64, String> {
        let mut tape = Tape::at(&self.image, self.base);
        tape.chop = self.chop;
        tape.budget = 16 << 20;
        tape.hook = hook;
        match &self.task {
            Task::Table { kind, expected } => {
                let found = read(kind, &mut tape, false);
                if tape.exhausted {
                    return Ok(tape.ops);
                }
                match (expected, found) {
                    (_, Err(panic)) => return Err(format!("{}: panicked: {panic}", self.name)),
                    (Ok(expected), Ok(Ok(found))) => {
                        if let Some(difference) = diff(expected, &found) {
                            return Err(format!("{}: {difference}", self.name));
                        }
                    }
                    (Err(_), Ok(Err(_))) => {}
                    (Ok(_), Ok(Err(error))) => return Err(format!("{}: refused: {error}", self.name)),
                    (Err(error), Ok(Ok(_))) => return Err(format!("{}: accepted in spite of {error:?}", self.name)),
                }
            }
            Task::Font { given, takes } => {
                let file = match guard(|| opentype::File::read(&mut tape)) {
                    Err(panic) => return Err(format!("{}: opening: panicked: {panic}", self.name)),
                    Ok(Err(error)) => return Err(format!("{}: opening: refused: {error}", self.name)),
                    Ok(Ok(file)) => file,
                };
                for (index, expected) in takes {
                    let slot = &SLOTS[*index];
                    let found = guard(|| (slot.take)(&file.fonts[0], &mut tape, given));
                    let what = format!("{}: taking {}", self.name, String::from_utf8_lossy(slot.tag));
                    fonts::agree(expected, found, &what)?;
                }
            }
        }
        Ok(tape.ops)
    }
}

/// A table as it is, to be read; none if it calls for too much work.
fn table(kind: &'static Kind, image: Image, base: u64, src: &mut Source) -> Option<Job> {
    let decoded = decode_limited(kind, &image, crate::codec::Cfg::built(), 2 << 20);
    if decoded.result == Err(E::Budget) || decoded.reads > 4000 {
        return None;
    }
    let name = format!("{} at {base}", kind.name);
    let chop = if src.chance(1, 8) { 1 + src.below(20) } else { 0 };
    let task = Task::Table { kind, expected: decoded.result };
    Some(Job { name, image, base, chop, task, ops: 0, weight: decoded.reads })
}

/// What to take of a file, with what is to come of it.
fn takes(made: &fonts::Made, src: &mut Source) -> (Given, Vec<(usize, Expected)>) {
    let given = fonts::given(made);
    let listed: Vec<usize> = (0..SLOTS.len()).filter(|i| made.find(SLOTS[*i].tag).is_some()).collect();
    let mut takes = vec![];
    for _ in 0..src.within(1, 4) {
        let index = if listed.is_empty() || src.chance(1, 6) {
            src.below(SLOTS.len() as u64) as usize
        } else {
            *src.pick(&listed)
        };
        let expected = fonts::expected(made, &SLOTS[index], &given);
        // The readers of others may do anything.
        if expected != Expected::Endless && expected != Expected::Unclear {
            takes.push((index, expected));
        }
    }
    (given, takes)
}

fn file(src: &mut Source) -> Result<fonts::Made, Outcome> {
    let wish = Wish { density: src.within(1, 6), corrupt: true, size: 150, far: false, own: false, large: false };
    fonts::generate(src, wish)
}

fn font(src: &mut Source) -> Result<Job, Outcome> {
    let made = file(src)?;
    let (given, takes) = takes(&made, src);
    let weight = 5 + made.entries.len() as u64;
    let task = Task::Font { given, takes };
    Ok(Job { name: "font".into(), image: made.image, base: 0, chop: 0, task, ops: 0, weight })
}

/// A few things to read, often alike.
fn jobs(src: &mut Source) -> Result<Vec<Job>, Outcome> {
    let mut jobs: Vec<Job> = vec![];
    let mut last: Option<(&'static Kind, Image, u64)> = None;
    let count = src.within(2, 5);
    while (jobs.len() as u64) < count {
        if src.chance(1, 8) {
            jobs.push(font(src)?);
            continue;
        }
        let how = src.below(8);
        let kind = match &last {
            Some((kind, ..)) if how < 5 => *kind,
            _ => kinds::find(*src.pick(kinds::ALL)),
        };
        let at = match &last {
            Some((.., at)) if src.chance(2, 3) => *at,
            _ => base(src),
        };
        let image = match &last {
            // A twin.
            Some((_, image, _)) if how < 2 => {
                let mut image = image.clone();
                if !image.segs.is_empty() {
                    let which = src.below(image.segs.len() as u64) as usize;
                    let (start, length) = (image.segs[which].0, image.segs[which].1.len() as u64);
                    if length > 0 {
                        let at = start + src.below(length);
                        image.set(at, image.byte(at) ^ 1 << src.below(8));
                    }
                }
                image
            }
            _ => {
                let mut plan = Plan::small();
                plan.size = src.within(20, 300) as i64;
                plan.arrange(src);
                match make(kind, src, &plan) {
                    Ok(made) => made.image,
                    Err(E::Discard(why)) => return Err(Outcome::Discard(why)),
                    Err(error) => panic!("HARNESS: generation of {} has failed: {error:?}", kind.name),
                }
            }
        };
        last = Some((kind, image.clone(), at));
        match table(kind, image, at, src) {
            Some(job) => jobs.push(job),
            None => return Err(Outcome::Discard("work budget")),
        }
    }
    // Alone, first.
    for job in &mut jobs {
        job.ops = match job.run(None) {
            Ok(ops) => ops,
            Err(message) => return Err(Outcome::Fail(format!("alone: {message}"))),
        };
    }
    Ok(jobs)
}

fn names(jobs: &[Job]) -> String {
    jobs.iter().map(|job| job.name.clone()).collect::<Vec<_>>().join(", ")
}

fn describe(case: &mut Case, jobs: &[Job], src: &Source, mode: &str, interrupted: bool) {
    case.class(format!("mode:{mode}"));
    for job in jobs {
        if let Task::Table { kind, expected } = &job.task {
            case.class(format!("kind:{}", kind.name));
            if expected.is_err() {
                case.class("a table to be refused");
            }
        } else {
            case.class("a font");
        }
    }
    case.hash = jobs.iter().fold(mix(mode.len() as u64), |hash, job| mix(hash ^ job.image.hash()));
    for choice in &src.record {
        case.hash = mix(case.hash ^ choice);
    }
    case.nontrivial = interrupted;
    case.sample = format!("{mode}: {}", names(jobs));
    if case.verbose {
        for job in jobs {
            println!("{}: {} operations; {}", job.name, job.ops, job.image.describe());
        }
    }
}

/// A reading, and those that take place before operations on its tape.
struct Node {
    job: usize,
    inner: Vec<(u64, Node)>,
}

fn node(job: usize, depth: u64, jobs: &[Job], left: &mut u64, src: &mut Source) -> Node {
    let mut inner = vec![];
    let ops = jobs[job].ops;
    if depth > 0 && ops > 0 {
        let points = match src.below(3) {
            0 => src.within(1, 3),
            1 => src.within(2, 12),
            _ => ops,
        };
        let every = points >= ops;
        let only = if src.chance(1, 2) { Some(src.below(jobs.len() as u64) as usize) } else { None };
        for i in 0..points.min(ops) {
            if *left == 0 {
                break;
            }
            *left -= 1;
            let at = if every { i } else { src.below(ops) };
            let other = only.unwrap_or_else(|| src.below(jobs.len() as u64) as usize);
            let depth = if src.chance(1, 5) { depth - 1 } else { 0 };
            inner.push((at, node(other, depth, jobs, left, src)));
        }
    }
    Node { job, inner }
}

fn perform(node: &Node, jobs: &[Job], count: &Cell<u64>, failure: &RefCell<Option<String>>) {
    let job = &jobs[node.job];
    let hook = |at: u64| {
        for (when, inner) in &node.inner {
            if *when == at && failure.borrow().is_none() {
                count.set(count.get() + 1);
                perform(inner, jobs, count, failure);
            }
        }
    };
    if let Err(message) = job.run(if node.inner.is_empty() { None } else { Some(&hook) }) {
        let mut failure = failure.borrow_mut();
        if failure.is_none() {
            let inside = node.inner.iter().map(|(at, inner)| format!("{} before operation {at}", jobs[inner.job].name));
            let inside = inside.take(6).collect::<Vec<_>>().join(", ");
            *failure = Some(if inside.is_empty() {
                format!("{message}, read while another is being read")
            } else {
                format!("{message}, with others read meanwhile: {inside}")
            });
        }
    }
}

/// One reading inside of another.
#[cfg_attr(feature = "share", allow(dead_code))]
fn nested(src: &mut Source, case: &mut Case) -> Result<(), Outcome> {
    let jobs = jobs(src)?;
    let mut left = 120;
    let root = node(0, 2, &jobs, &mut left, src);
    let (count, failure) = (Cell::new(0), RefCell::new(None));
    perform(&root, &jobs, &count, &failure);
    case.count("readings within another", count.get());
    describe(case, &jobs, src, "nested", count.get() > 0 && jobs[0].weight >= 5);
    match failure.into_inner() {
        Some(message) => Err(Outcome::Fail(message)),
        None => Ok(()),
    }
}

/// How many times a thread has not been seen to move on, possibly for the sake of another.
static STALLS: AtomicU64 = AtomicU64::new(0);

/// Threads taking turns.
struct Turns {
    state: Mutex<State>,
    changed: Condvar,
}

struct State {
    turn: usize,
    left: u64,
    script: Vec<(usize, u64)>,
    next: usize,
    alive: Vec<bool>,
    steps: u64,
    switches: u64,
    /// Nobody waits for anybody.
    free: bool,
}

impl State {
    fn advance(&mut self) {
        while self.next < self.script.len() {
            let (who, run) = self.script[self.next];
            self.next += 1;
            if self.alive[who] {
                self.switches += (who != self.turn) as u64;
                (self.turn, self.left) = (who, run);
                return;
            }
        }
        self.left = u64::MAX;
        if !self.alive[self.turn] {
            if let Some(who) = self.alive.iter().position(|alive| *alive) {
                self.turn = who;
            }
        }
    }
}

impl Turns {
    fn new(count: usize, script: Vec<(usize, u64)>) -> Self {
        let free = STALLS.load(Ordering::Relaxed) > 200;
        let alive = vec![true; count];
        let mut state = State { turn: 0, left: 0, script, next: 0, alive, steps: 0, switches: 0, free };
        state.advance();
        Turns { state: Mutex::new(state), changed: Condvar::new() }
    }

    /// Wait for one's turn, and take a step.
    fn step(&self, me: usize) {
        let mut state = self.state.lock().unwrap();
        if state.free {
            return;
        }
        if state.turn == me && state.left == 0 {
            state.advance();
            if state.turn != me {
                self.changed.notify_all();
            }
        }
        while state.turn != me && !state.free {
            let before = state.steps;
            let (after, timeout) = self.changed.wait_timeout(state, Duration::from_millis(100)).unwrap();
            state = after;
            if timeout.timed_out() && state.steps == before && state.turn != me && !state.free {
                // The one whose turn it is may be waiting for a lock that another holds.
                state.free = true;
                STALLS.fetch_add(1, Ordering::Relaxed);
                self.changed.notify_all();
            }
        }
        state.steps += 1;
        state.left = state.left.saturating_sub(1);
    }

    fn leave(&self, me: usize) {
        let mut state = self.state.lock().unwrap();
        state.alive[me] = false;
        if state.turn == me {
            state.advance();
        }
        self.changed.notify_all();
    }
}

/// Run in threads, each of them given its number, collecting what fails first.
fn in_threads(count: usize, body: &(dyn Fn(usize) -> Result<(), String> + Sync)) -> Result<(), String> {
    let failure: Mutex<Option<(usize, String)>> = Mutex::new(None);
    std::thread::scope(|scope| {
        for me in 0..count {
            let failure = &failure;
            let work = move || {
                crate::memory::start();
                let result = guard(|| body(me)).unwrap_or_else(|panic| Err(format!("panicked: {panic}")));
                if let Err(message) = result {
                    let mut failure = failure.lock().unwrap();
                    if failure.as_ref().map_or(true, |(other, _)| *other > me) {
                        *failure = Some((me, message));
                    }
                }
            };
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(scope, work).expect("HARNESS: a thread");
        }
    });
    match failure.into_inner().unwrap() {
        Some((_, message)) if message.contains("HARNESS") || message.contains(" at src/") => panic!("HARNESS: {message}"),
        Some((_, message)) => Err(message),
        None => Ok(()),
    }
}

/// Turns for threads that make about so many steps in total.
fn script(threads: usize, steps: u64, src: &mut Source) -> Vec<(usize, u64)> {
    let mut script = vec![];
    let mut who = 0;
    let mut total = 0;
    let long = src.chance(1, 3);
    while total < steps && script.len() < 60 {
        let run = if long { 1 + src.below(40) } else { 1 + src.below(6) };
        script.push((who, run));
        total += run;
        who = (who + 1 + src.below(threads as u64 - 1) as usize) % threads;
    }
    script
}

/// Several readings in threads of their own.
#[cfg_attr(feature = "share", allow(dead_code))]
fn threads(src: &mut Source, case: &mut Case, free: bool) -> Result<(), Outcome> {
    let jobs = jobs(src)?;
    let count = src.within(2, 3) as usize;
    let lists: Vec<Vec<usize>> = (0..count)
        .map(|_| (0..src.within(1, 4)).map(|_| src.below(jobs.len() as u64) as usize).collect())
        .collect();
    let steps: u64 = lists.iter().flatten().map(|job| jobs[*job].ops).sum();
    let turns = if free { None } else { Some(Turns::new(count, script(count, steps, src))) };
    let rounds = if free { 6 } else { 1 };
    let body = |me: usize| {
        let hook = |_: u64| turns.as_ref().unwrap().step(me);
        let mut result = Ok(());
        for _ in 0..rounds {
            for job in &lists[me] {
                if result.is_ok() {
                    result = jobs[*job].run(if free { None } else { Some(&hook) }).map(|_| ());
                }
            }
        }
        if let Some(turns) = &turns {
            turns.leave(me);
        }
        result
    };
    let result = in_threads(count, &body);
    let mut switches = 0;
    if let Some(turns) = &turns {
        let state = turns.state.lock().unwrap();
        switches = state.switches;
        case.count("switches of threads", switches);
        case.count("turns given up", state.free as u64);
    }
    case.count("readings in threads", rounds * lists.iter().map(|list| list.len() as u64).sum::<u64>());
    let heavy = lists.iter().flatten().any(|job| jobs[*job].weight >= 5);
    describe(case, &jobs, src, if free { "threads at will" } else { "threads in turns" }, heavy && (free || switches > 1));
    result.map_err(|message| Outcome::Fail(format!("{message}, in one of {count} threads reading {}", names(&jobs))))
}

/// One font used by several threads.
#[cfg(feature = "share")]
fn shared_font(src: &mut Source, case: &mut Case) -> Result<(), Outcome> {
    let made = file(src)?;
    let mut tape = Tape::new(&made.image);
    let opened = match guard(|| opentype::File::read(&mut tape)) {
        Err(panic) => return Err(Outcome::Fail(format!("opening: panicked: {panic}"))),
        Ok(Err(error)) => return Err(Outcome::Fail(format!("opening: refused: {error}"))),
        Ok(Ok(file)) => file,
    };
    let count = src.within(2, 3) as usize;
    let free = src.chance(1, 3);
    let lists: Vec<_> = (0..count).map(|_| takes(&made, src)).collect();
    let turns = if free { None } else { Some(Turns::new(count, script(count, 60, src))) };
    let (opened, made) = (&opened, &made);
    let body = |me: usize| {
        let hook = |_: u64| turns.as_ref().unwrap().step(me);
        let mut tape = Tape::new(&made.image);
        if !free {
            tape.hook = Some(&hook);
        }
        let mut result = Ok(());
        let (given, takes) = &lists[me];
        for _ in 0..if free { 6 } else { 1 } {
            for (index, expected) in takes {
                if result.is_ok() {
                    let slot = &SLOTS[*index];
                    let what = format!("taking {}", String::from_utf8_lossy(slot.tag));
                    if (slot.exists)(&opened.fonts[0]) != made.find(slot.tag).is_some() {
                        result = Err(format!("existence of {}", String::from_utf8_lossy(slot.tag)));
                        break;
                    }
                    let found = guard(|| (slot.take)(&opened.fonts[0], &mut tape, given));
                    result = fonts::agree(expected, found, &what);
                }
            }
        }
        if let Some(turns) = &turns {
            turns.leave(me);
        }
        result
    };
    let result = in_threads(count, &body);
    if let Some(turns) = &turns {
        case.count("switches of threads", turns.state.lock().unwrap().switches);
    }
    case.count("takes in threads", lists.iter().map(|list| list.1.len() as u64).sum());
    case.class("mode:one font");
    case.hash = crate::engine::hash_bytes(made.image.hash(), &lists.iter().flat_map(|l| l.1.iter().map(|t| t.0 as u8)).collect::<Vec<_>>());
    case.nontrivial = lists.iter().filter(|list| !list.1.is_empty()).count() >= 2;
    case.sample = format!("one font, {} tables, {count} threads", made.entries.len());
    result.map_err(|message| Outcome::Fail(format!("{message}, in one of {count} threads sharing a font")))
}

/// One value used by several threads.
#[cfg(feature = "share")]
fn shared_value(src: &mut Source, case: &mut Case) -> Result<(), Outcome> {
    let kind = kinds::find(*src.pick(kinds::ALL));
    let mut plan = Plan::small();
    plan.size = src.within(20, 2000) as i64;
    plan.arrange(src);
    let (made, decoded) = crate::checks::valid(kind, src, &plan, case)?;
    let expected = decoded.result.as_ref().unwrap();
    let mut tape = Tape::at(&made.image, base(src));
    let value = match guard(|| (kind.keep)(&mut tape)) {
        Err(panic) => return Err(Outcome::Fail(format!("{}: panicked: {panic}", kind.name))),
        Ok(Err(error)) => return Err(Outcome::Fail(format!("{}: refused: {error}", kind.name))),
        Ok(Ok(value)) => value,
    };
    let count = src.within(2, 4) as usize;
    let plans: Vec<Vec<u64>> = (0..count).map(|_| (0..src.within(1, 3)).map(|_| src.below(3)).collect()).collect();
    {
        let value = &value;
        let body = |me: usize| {
            for action in &plans[me] {
                let found = match action {
                    0 => value.project(),
                    1 => {
                        value.use_up();
                        continue;
                    }
                    _ => match value.again() {
                        Some(copy) => copy.project(),
                        None => value.project(),
                    },
                };
                if let Some(difference) = diff(expected, &found) {
                    return Err(format!("{}: {difference}", kind.name));
                }
            }
            Ok(())
        };
        let fail = |message| Outcome::Fail(format!("{message}, in one of {count} threads sharing a value"));
        in_threads(count, &body).map_err(fail)?;
    }
    // Given away.
    let cell = Mutex::new(Some(value));
    let body = |_: usize| {
        let value = cell.lock().unwrap().take().expect("HARNESS: a value");
        match diff(expected, &value.project()) {
            Some(difference) => Err(format!("{}: {difference}", kind.name)),
            None => Ok(()),
        }
    };
    in_threads(1, &body).map_err(|message| Outcome::Fail(format!("{message}, in a thread given a value")))?;
    case.class("mode:one value");
    case.count("uses in threads", plans.iter().map(|plan| plan.len() as u64).sum());
    Ok(())
}

/// Readings in progress at the same time do not affect each other.
pub fn c21(src: &mut Source, case: &mut Case) -> Outcome {
    #[cfg(feature = "share")]
    let result = if src.chance(1, 2) { shared_font(src, case) } else { shared_value(src, case) };
    #[cfg(not(feature = "share"))]
    let result = match src.below(8) {
        0..=3 => nested(src, case),
        4..=6 => threads(src, case, false),
        _ => threads(src, case, true),
    };
    match result {
        Ok(()) => Outcome::Pass,
        Err(outcome) => outcome,
    }
}
