//! The command line: checks, replays and evidence.

use std::collections::HashMap;
use std::fmt::Write;

use crate::checks;
use crate::engine::{self, Case, CaseFn, Failure, Outcome, Setting, Source, Stats};
use crate::fonts;
use crate::guided;
use crate::shared;
use crate::tags;

pub struct Phase {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub enumerated: bool,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub phases: &'static [Phase],
}

const fn phase(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Phase {
    Phase { name, f, quick, thorough, enumerated: false }
}

const fn list(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Phase {
    Phase { name, f, quick, thorough, enumerated: true }
}

const TABLES: &str = "A case is a well-formed table of one kind, built by running the transcribed format with the \
    generating codec: random counts, values, optional parts, sizes at width boundaries, placement, gaps and sharing of \
    subtables. Non-trivial: the reference decoder needs at least five fields to decode it; distinct by the bytes and \
    the kind.";

pub static CHECKS: &[Check] = &[
    Check { id: "C01", rule: TABLES, phases: &[phase("C01", checks::c01, 90_000, 3_000_000)] },
    Check { id: "C02", rule: TABLES, phases: &[phase("C02", checks::c02, 90_000, 3_000_000)] },
    Check { id: "C03", rule: TABLES, phases: &[phase("C03", checks::c03, 300_000, 30_000_000)] },
    Check { id: "C04", rule: TABLES, phases: &[phase("C04", checks::c04, 250_000, 50_000_000)] },
    Check { id: "C05", rule: TABLES, phases: &[phase("C05", checks::c05, 1_500_000, 50_000_000)] },
    Check { id: "C06", rule: TABLES, phases: &[phase("C06", checks::c06, 300_000, 10_000_000)] },
    Check {
        id: "C07",
        rule: "A case is a well-formed script, language or feature list, or a whole layout table, with entries in any \
            order and repeated tags, together with queries for listed, neighbouring and foreign tags, each answered by \
            the code and by a search of the list. Non-trivial: at least five fields; distinct by the bytes and the kind.",
        phases: &[phase("C07", checks::c07, 80_000, 2_000_000)],
    },
    Check {
        id: "C08",
        rule: "A case is a font file (format tag, subset and order of tables, placement, sizes, checksums of which \
            none, one or several are wrong) with all sixteen types probed for existence, position and contents, or a \
            file of another format, or a real font with records reordered and one bit flipped. Non-trivial: at least \
            two tables, or another format tag; distinct by the bytes.",
        phases: &[phase("C08", fonts::c08, 120_000, 4_000_000), phase("C08-fixtures", fonts::c08_fixtures, 60, 3_000)],
    },
    Check {
        id: "C09",
        rule: "A case is a byte string read as one of 44 kinds of tables or as a font: generated tables with up to \
            five words changed, cut or extended, overlays of two tables, real tables changed, words and bytes at \
            random, and tables of extreme sizes. What is accepted is cloned, printed, iterated and searched. \
            Non-trivial: at least five fields are decoded before the end or the error; distinct by the bytes and the kind.",
        phases: &[phase("C09", checks::c09, 150_000, 6_000_000)],
    },
    Check {
        id: "C10",
        rule: "A case is a well-formed table with exactly one documented constraint violated at a randomly chosen \
            place, which the reference decoder refuses for that reason. Non-trivial: all of them; distinct by the bytes \
            and the kind.",
        phases: &[phase("C10", checks::c10, 3_000_000, 20_000_000)],
    },
    Check {
        id: "C11",
        rule: "A case is a well-formed table read with the data cut at up to 60 places before the last byte the \
            reference decoder needs (all of them if there are fewer), and with the data ending there or later. \
            Non-trivial: at least five fields; distinct by the bytes and the kind.",
        phases: &[phase("C11", checks::c11, 50_000, 800_000)],
    },
    Check {
        id: "C12",
        rule: "A case is a well-formed table read at ten positions from 0 to nearly 2^64, each time with other bytes \
            before, between and after. Non-trivial: at least five fields; distinct by the bytes and the kind.",
        phases: &[phase("C12", checks::c12, 40_000, 1_000_000)],
    },
    Check {
        id: "C13",
        rule: "A case is a table or a font read once for each operation on the tape (a sample of 87 if there are over \
            120) with that operation failing, with that or all later ones failing, and with the data delivered in \
            pieces and interrupted. Non-trivial: at least five fields or one table; distinct by the bytes and the kind.",
        phases: &[phase("C13", checks::c13, 40_000, 300_000)],
    },
    Check {
        id: "C14",
        rule: "A case is one registered tag together with 49 tags close to it, looked up in all three registries, or \
            256 arbitrary tags. Non-trivial: all of them; distinct by the first tag. The registered tags are enumerated \
            completely.",
        phases: &[
            list("C14-registered", tags::registered, tags::ROWS, tags::ROWS),
            phase("C14-arbitrary", tags::arbitrary, 4_000, 40_000),
            list("C14-exhaustive", tags::exhaustive, 0, 1 << 16),
        ],
    },
    Check {
        id: "C15",
        rule: "A case is a font file, possibly with a twin that differs in one byte of one table, and a history of 3 to \
            16, at times up to 99, operations on their tapes: probing, taking, seeking, reopening, and taking with a \
            failure ahead; each is compared with the model of the file or with the \
            operation done alone on a fresh tape. Besides, one to eight tables, whole or damaged, on one tape and a \
            history of 3 to 17, at times up to 69, reads of several kinds at several positions, some of them failing, \
            each compared with the reference decoder started there. Non-trivial: at least two takes or reads; distinct \
            by the data and the history.",
        phases: &[phase("C15", fonts::c15, 120_000, 6_000_000), phase("C15-tables", checks::c15_tables, 100_000, 6_000_000)],
    },
    Check {
        id: "C16",
        rule: "A case is a table or a font with or without a missing list, a missing mark anchor or a wrong checksum, \
            a table with another constraint violated as for C10, or arbitrary bytes as for C19, read in each build and \
            compared with the reference decoder set to the same switches. Non-trivial: at least five fields, or at \
            least two tables; distinct by the bytes and the kind, for each build.",
        phases: &[phase("C16", checks::c16, 30_000, 800_000)],
    },
    Check { id: "C17", rule: TABLES, phases: &[phase("C17", checks::c17, 1_500_000, 10_000_000)] },
    Check {
        id: "C18",
        rule: "A case is a block of 256 words read as each of the four types of flags and used to construct each of \
            them, or put in each of ten places of tables that are then compared with the reference decoder; all 65536 \
            words are covered. Besides, generated tables of any shape with a reserved bit set in one flag word, and \
            ones without. Non-trivial: at least five fields.",
        phases: &[
            list("C18", checks::c18, 256, 256),
            list("C18-inside", checks::c18_inside, 256, 256),
            phase("C18-tables", checks::c18_tables, 200_000, 6_000_000),
        ],
    },
    Check {
        id: "C19",
        rule: "A case is a byte string as for C09 read as one of 44 kinds of tables by the code and by the reference \
            decoder; in addition all tables of the real fonts as they are. Non-trivial: at least five fields are \
            decoded before the end or the error; distinct by the bytes and the kind.",
        phases: &[
            list("C19-fixtures", fonts::c19_fixtures, 64, 64),
            phase("C19", checks::c19, 1_500_000, 20_000_000),
        ],
    },
    Check {
        id: "C20",
        rule: "A case is a table of one of 44 kinds, well-formed or damaged and still accepted, whole and cut at three \
            places; or a font file, which is opened and of which two to eight tables are located or taken. The bytes \
            and operations asked of the tape are limited to four times what the reference decoder needs for the whole, \
            plus 256. Non-trivial: at least five fields, or at least two tables; distinct by the bytes and the kind.",
        phases: &[phase("C20", checks::c20, 100_000, 3_000_000), phase("C20-fonts", fonts::c20, 40_000, 1_000_000)],
    },
    Check {
        id: "C21",
        rule: "A case is two to five tables of any kinds, often of the same kind, at the same position or alike but for \
            one byte, and fonts, each with what the reference decoder or the model of the file says. They are read one \
            inside of another, from within operations on the tape; or in two or three threads that take turns at \
            operations on their tapes as a drawn script says; or in threads running freely; in the build with sharing, \
            one font or one decoded value is used by all threads. Non-trivial: a reading with at least five fields, or \
            of a font, has been interrupted by another; distinct by the data and the schedule.",
        phases: &[phase("C21", shared::c21, 60_000, 2_000_000)],
    },
    Check {
        id: "C22",
        rule: "A case is a table, a part of one or a font, well-formed, changed, cut, or with words enlarged as if they were counts, \
            read twice while the memory held is measured. Non-trivial: at least five fields or one table; distinct by the bytes \
            and the kind.",
        phases: &[phase("C22", checks::c22, 120_000, 6_000_000), phase("C22-fonts", fonts::c22, 40_000, 1_000_000)],
    },
];

pub fn configuration() -> String {
    let mut names = vec![];
    for (on, name) in [
        (cfg!(feature = "dirs"), "ignore-incomplete-directories"),
        (cfg!(feature = "marks"), "ignore-incomplete-marks"),
        (cfg!(feature = "sums"), "ignore-invalid-checksums"),
        (cfg!(feature = "lang"), "default-language"),
        (cfg!(feature = "share"), "with sharing"),
        (!cfg!(debug_assertions), "without assertions"),
    ] {
        if on {
            names.push(name);
        }
    }
    if names.is_empty() {
        "no features".into()
    } else {
        names.join(",")
    }
}

fn features() -> String {
    let mut names = vec![];
    for (on, name) in [
        (cfg!(feature = "dirs"), "dirs"),
        (cfg!(feature = "marks"), "marks"),
        (cfg!(feature = "sums"), "sums"),
        (cfg!(feature = "lang"), "lang"),
        (cfg!(feature = "share"), "share"),
        (!cfg!(debug_assertions), "plain"),
    ] {
        if on {
            names.push(name);
        }
    }
    names.join(",")
}

fn find(name: &str) -> Option<(&'static Check, &'static Phase)> {
    CHECKS.iter().find_map(|check| check.phases.iter().find(|phase| phase.name == name).map(|phase| (check, phase)))
}

fn escape(text: &str) -> String {
    let mut out = String::from("\"");
    for c in text.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

struct Arguments(HashMap<String, String>);

impl Arguments {
    fn text(&self, name: &str) -> Option<&str> {
        self.0.get(name).map(String::as_str)
    }
    fn number(&self, name: &str, default: u64) -> u64 {
        match self.text(name) {
            Some(text) => text.parse().unwrap_or_else(|_| panic!("HARNESS: --{name} is not a number")),
            None => default,
        }
    }
}

fn replay_text(phase: &str, choices: &str, message: &str) -> String {
    format!("phase {phase}\nfeatures {}\n{choices}\nmessage {}\n", features(), message.replace('\n', " "))
}

fn write(path: &str, text: &str) {
    if let Some(parent) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(parent);
    }
    if let Err(error) = std::fs::write(path, text) {
        eprintln!("HARNESS: cannot write {path}: {error}");
        std::process::exit(3);
    }
}

static REPLAY: std::sync::OnceLock<String> = std::sync::OnceLock::new();

/// A case does not end: give up and say so.
pub fn report_stuck(setting: &Setting, index: u64) -> ! {
    let path = REPLAY.get().cloned().unwrap_or("stuck.replay".into());
    let message = format!("no end after {} seconds", setting.patience);
    let origin = format!("index {} {index}", setting.seed);
    write(&path, &replay_text(setting.name, &origin, &message));
    println!("FAILURE {message}");
    std::process::exit(1);
}

fn choices_text(failure: &Failure) -> String {
    format!("choices {}", failure.choices.iter().map(u64::to_string).collect::<Vec<_>>().join(" "))
}

fn check(id: &str, arguments: &Arguments) -> i32 {
    let Some(check) = CHECKS.iter().find(|check| check.id == id) else {
        eprintln!("HARNESS: no check {id}");
        return 3;
    };
    let thorough = arguments.text("tier") == Some("thorough");
    let seed = arguments.number("seed", 1);
    let threads = arguments.number("threads", 8).max(1) as usize;
    let percent = arguments.number("percent", 100);
    let seconds = arguments.number("seconds", 0);
    let started = std::time::Instant::now();
    let journal = arguments.text("journal").map(|path| {
        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(path).expect("HARNESS: the journal")
    });
    if let Some(path) = arguments.text("replay") {
        let _ = REPLAY.set(path.into());
        let _ = std::fs::remove_file(path);
    }
    let mut total = Stats::default();
    let mut exhaustive = true;
    let mut found = None;
    for (ordinal, phase) in check.phases.iter().enumerate() {
        let mut cases = if thorough { phase.thorough } else { phase.quick };
        if !phase.enumerated {
            cases = cases * percent / 100;
            exhaustive = false;
        }
        if cases == 0 {
            continue;
        }
        let setting = Setting {
            name: phase.name,
            f: phase.f,
            enumerated: phase.enumerated,
            seed,
            cases,
            threads,
            journal: journal.as_ref(),
            ordinal: ordinal as u64,
            patience: if phase.name == "C21" { 30 } else { 150 },
            polls: if phase.name == "C21" { 3_000 } else { 25_000 },
            seconds,
        };
        let (stats, failure) = engine::run(&setting);
        total.merge(stats);
        if let Some(failure) = failure {
            let path = arguments.text("replay").unwrap_or("failure.replay");
            let original = replay_text(phase.name, &choices_text(&failure), &failure.message);
            write(path, &original);
            // In case the failure depends on what came before it in this process.
            write(&format!("{path}.original"), &original);
            let whole = format!("sequence {seed} 0 {}", failure.index);
            write(&format!("{path}.sequence"), &replay_text(phase.name, &whole, &failure.message));
            println!("found: {}", failure.message);
            let length = failure.choices.len();
            let budget = if seconds > 0 { 0 } else { 6000 };
            let failure = engine::shrink(phase.f, failure, budget);
            write(path, &replay_text(phase.name, &choices_text(&failure), &failure.message));
            println!("FAILURE {} (case {}, {} choices out of {length})", failure.message, failure.index, failure.choices.len());
            found = Some(failure);
            break;
        }
    }
    let wall = started.elapsed().as_secs_f64();
    if let Some(path) = arguments.text("evidence") {
        write(path, &evidence(check, &total, thorough, seed, exhaustive && found.is_none(), found.is_some(), wall));
    }
    println!(
        "{id} ({}): {} cases, {} distinct and non-trivial, {} discarded, {:.1} s, at most {} choices and {} MiB",
        configuration(),
        total.evaluations,
        total.distinct.len(),
        total.discards.values().sum::<u64>(),
        wall,
        total.max_choices,
        total.max_memory >> 20,
    );
    if found.is_some() {
        1
    } else {
        0
    }
}

fn evidence(
    check: &Check,
    stats: &Stats,
    thorough: bool,
    seed: u64,
    exhaustive: bool,
    violated: bool,
    wall: f64,
) -> String {
    let map = |pairs: Vec<(&str, u64)>| {
        let items: Vec<String> = pairs.iter().map(|(k, v)| format!("{}: {v}", escape(k))).collect();
        format!("{{{}}}", items.join(", "))
    };
    let samples: Vec<String> = stats.samples.iter().map(|(i, text)| escape(&format!("case {i}: {text}"))).collect();
    format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{\
         \"evaluations\": {}, \"distinct_nontrivial\": {}, \"nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \
         \"configuration\": {}, \"discarded\": {}, \"classes\": {}, \"counters\": {}, \"exhaustive\": {exhaustive}}}, \
         \"wall_s\": {wall:.2}, \"violations\": {}}}\n",
        escape(check.id),
        escape(if thorough { "thorough" } else { "quick" }),
        stats.evaluations,
        stats.distinct.len(),
        stats.nontrivial,
        escape(check.rule),
        samples.join(", "),
        escape(&configuration()),
        map(stats.discards.iter().map(|(k, v)| (*k, *v)).collect()),
        map(stats.classes.iter().map(|(k, v)| (k.as_str(), *v)).collect()),
        map(stats.counters.iter().map(|(k, v)| (*k, *v)).collect()),
        violated as u32,
    )
}

/// Repeat one case: 1 if it fails.
fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(text) => text,
        Err(error) => {
            eprintln!("HARNESS: cannot read {path}: {error}");
            return 3;
        }
    };
    let line = |name: &str| {
        text.lines().find_map(|line| if line == name { Some("") } else { line.strip_prefix(name)?.strip_prefix(' ') })
    };
    if line("features").unwrap_or("") != features() {
        eprintln!("HARNESS: the replay is for a build with features {:?}", line("features").unwrap_or(""));
        return 3;
    }
    let numbers = |text: &str| -> Vec<u64> { text.split_whitespace().map(|word| word.parse().unwrap()).collect() };
    let outcome;
    let mut case = Case { verbose: true, ..Case::default() };
    crate::memory::start();
    if let Some(hex) = line("raw") {
        let bytes: Vec<u8> =
            (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let values = line("values") == Some("1");
        outcome = match engine::guard(|| checks::judge_raw(&bytes, &mut case, values)) {
            Ok(outcome) => outcome,
            Err(panic) => Outcome::Fail(format!("panicked: {panic}")),
        };
    } else {
        let Some((_, phase)) = line("phase").and_then(find) else {
            eprintln!("HARNESS: no such phase");
            return 3;
        };
        if let Some(range) = line("sequence") {
            // A failure that needs the cases before it.
            let range = numbers(range);
            for index in range[1]..=range[2] {
                let mut source = engine::source_of(phase.name, phase.enumerated, range[0], index);
                crate::memory::start();
                if let Outcome::Fail(message) = engine::evaluate(phase.f, &mut source, &mut Case::default()) {
                    println!("FAILURE {message} (case {index} after those from {})", range[1]);
                    return 1;
                }
            }
            println!("passed");
            return 0;
        }
        let mut source = if let Some(choices) = line("choices") {
            Source::replay(&numbers(choices))
        } else if let Some(choices) = line("continued") {
            // A seed and the choices before what is drawn at random.
            let numbers = numbers(choices);
            Source::continued(numbers[1..].to_vec(), numbers[0])
        } else {
            let origin = numbers(line("index").expect("HARNESS: neither choices nor index"));
            engine::source_of(phase.name, phase.enumerated, origin[0], origin[1])
        };
        outcome = engine::evaluate(phase.f, &mut source, &mut case);
    }
    match outcome {
        Outcome::Pass => {
            println!("passed: {}", case.sample);
            0
        }
        Outcome::Discard(why) => {
            println!("discarded: {why}");
            0
        }
        Outcome::Fail(message) => {
            println!("FAILURE {message}");
            1
        }
    }
}

/// A coverage-guided search on one thread, each phase of a check having its share of the time.
fn guided(id: &str, arguments: &Arguments) -> i32 {
    let Some(check) = CHECKS.iter().find(|check| check.id == id) else {
        eprintln!("HARNESS: no check {id}");
        return 3;
    };
    let phases: Vec<&Phase> = check.phases.iter().filter(|phase| !phase.enumerated).collect();
    let journal = arguments.text("journal").map(|path| {
        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(path).expect("HARNESS: the journal")
    });
    let path = arguments.text("replay").unwrap_or("failure.replay");
    for phase in &phases {
        if arguments.text("phase").is_some_and(|name| name != phase.name) {
            continue;
        }
        if let Some(path) = arguments.text("phase-file") {
            write(path, phase.name);
        }
        let search = guided::Search {
            name: phase.name,
            f: phase.f,
            seed: arguments.number("seed", 1),
            cases: arguments.number("cases", u64::MAX),
            seconds: arguments.number("seconds", 60) / phases.len() as u64,
            journal: journal.as_ref(),
        };
        let (summary, failure) = guided::run(&search);
        println!(
            "GUIDED phase {} cases {} distinct {} discarded {} corpus {} features {} edges {} of {}",
            phase.name,
            summary.stats.evaluations,
            summary.stats.distinct.len(),
            summary.stats.discards.values().sum::<u64>(),
            summary.corpus,
            summary.features,
            summary.edges,
            summary.total,
        );
        if let Some(failure) = failure {
            let original = replay_text(phase.name, &choices_text(&failure), &failure.message);
            write(path, &original);
            write(&format!("{path}.original"), &original);
            let failure = engine::shrink(phase.f, failure, 6000);
            write(path, &replay_text(phase.name, &choices_text(&failure), &failure.message));
            println!("FAILURE {} (case {} of the guided search)", failure.message, failure.index);
            return 1;
        }
    }
    0
}

pub fn main() -> i32 {
    engine::install_hook();
    let words: Vec<String> = std::env::args().skip(1).collect();
    let mut plain = vec![];
    let mut named = HashMap::new();
    let mut at = 0;
    while at < words.len() {
        match words[at].strip_prefix("--") {
            Some(name) if at + 1 < words.len() => {
                named.insert(name.to_string(), words[at + 1].clone());
                at += 2;
            }
            _ => {
                plain.push(words[at].clone());
                at += 1;
            }
        }
    }
    let arguments = Arguments(named);
    let plain: Vec<&str> = plain.iter().map(String::as_str).collect();
    match plain[..] {
        ["check", id] => check(id, &arguments),
        ["guided", id] => {
            let id = id.to_string();
            let search = move || guided(&id, &arguments);
            std::thread::Builder::new().stack_size(64 << 20).spawn(search).unwrap().join().unwrap_or(3)
        }
        ["replay", path] => {
            let path = path.to_string();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || replay(&path)).unwrap().join().unwrap_or(3)
        }
        ["phase", id, ordinal] => {
            let check = CHECKS.iter().find(|check| check.id == id);
            match check.and_then(|check| check.phases.get(ordinal.parse::<usize>().unwrap_or(99))) {
                Some(phase) => {
                    println!("{}", phase.name);
                    0
                }
                None => 3,
            }
        }
        _ => {
            eprintln!("usage: harness check ID [--tier quick|thorough] [--seed N] .. | harness replay FILE");
            3
        }
    }
}
