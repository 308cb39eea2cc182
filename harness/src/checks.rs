//! The checks on tables: decoding, malformed tables, truncation, placement and faults.

use std::io::ErrorKind;

use crate::codec::{Cfg, Dec, Gen, Made, Plan, E, R};
use crate::engine::{guard, mix, Case, Outcome, Source};
use crate::image::Image;
use crate::kinds::{self, Kind};
use crate::tape::{Tape, BUDGET};
use crate::value::{diff, V};

/// Generate a table of a kind.
pub fn make(kind: &Kind, src: &mut Source, plan: &Plan) -> R<Made> {
    let mut gen = Gen::new(src, plan.clone());
    (kind.gen)(&mut gen)?;
    gen.finish()
}

pub struct Decoded {
    pub result: R<V>,
    pub extent: u64,
    pub reads: u64,
    pub taken: u64,
    pub charged: u64,
    pub furthest: u64,
    pub notes: Vec<&'static str>,
}

pub fn decode(kind: &Kind, image: &Image, cfg: Cfg) -> Decoded {
    decode_limited(kind, image, cfg, 48 << 20)
}

pub fn decode_limited(kind: &Kind, image: &Image, cfg: Cfg, budget: i64) -> Decoded {
    let mut dec = Dec::limited(image, cfg, budget);
    let result = (kind.dec)(&mut dec);
    let result = dec.conclude(result);
    Decoded {
        result,
        extent: dec.extent,
        reads: dec.reads,
        taken: dec.taken,
        charged: dec.charged,
        furthest: dec.furthest,
        notes: dec.notes,
    }
}

/// Read with the code under test.
pub fn read(kind: &Kind, tape: &mut Tape, exercise: bool) -> Result<std::io::Result<V>, String> {
    guard(|| (kind.read)(tape, exercise))
}

pub fn hash_name(image: &Image, name: &str) -> u64 {
    crate::engine::hash_bytes(image.hash(), name.as_bytes())
}

pub fn describe(case: &mut Case, kind: &Kind, image: &Image, reads: u64) {
    case.hash = hash_name(image, kind.name);
    case.nontrivial = reads >= 5;
    if case.sample.is_empty() {
        case.sample = format!("{}: {}", kind.name, image.describe());
    }
}

/// A table the reference decoder accepts, with its value.
pub fn valid(kind: &'static Kind, src: &mut Source, plan: &Plan, case: &mut Case) -> Result<(Made, Decoded), Outcome> {
    let made = match make(kind, src, plan) {
        Ok(made) => made,
        Err(E::Discard(why)) => return Err(Outcome::Discard(why)),
        Err(error) => panic!("HARNESS: generation of {} has failed: {error:?}", kind.name),
    };
    let decoded = decode(kind, &made.image, plan.cfg);
    match &decoded.result {
        Ok(_) => {}
        Err(E::Budget) => return Err(Outcome::Discard("work budget")),
        Err(error) => {
            panic!("HARNESS: {} generated but refused by the reference: {error:?}; {}", kind.name, made.image.describe())
        }
    }
    if case.verbose {
        println!("kind {}; {}; extent {}", kind.name, made.image.describe(), decoded.extent);
        for (at, data) in &made.image.segs {
            println!("  at {at}: {}", data.iter().take(400).map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" "));
        }
        println!("expected {:?}", decoded.result);
    }
    case.class(format!("kind:{}", kind.name));
    for note in &decoded.notes {
        case.class(format!("has:{note}"));
    }
    if made.shared {
        case.class("shared subtables");
    }
    if made.big {
        case.class("big array");
    }
    if decoded.furthest > 0x7FFF {
        case.class("offset over 32767");
    }
    if decoded.furthest > 0xFFFF {
        case.class("offset over 65535");
    }
    if decoded.furthest > 0x7FFF_FFFF {
        case.class("offset over 2147483647");
    }
    case.class(match made.subtables {
        1 => "subtables:1",
        2..=5 => "subtables:2-5",
        6..=20 => "subtables:6-20",
        _ => "subtables:21+",
    });
    if plan.shuffle > 0 && made.subtables > 2 {
        case.class("shuffled subtables");
    }
    describe(case, kind, &made.image, decoded.reads);
    Ok((made, decoded))
}

pub fn compare(
    expected: &V,
    found: Result<std::io::Result<V>, String>,
    kind: &Kind,
    what: &str,
) -> Result<(), String> {
    match found {
        Err(panic) => Err(format!("{}: panicked {what}: {panic}", kind.name)),
        Ok(Err(error)) => Err(format!("{}: refused {what}: {error}", kind.name)),
        Ok(Ok(value)) => match diff(expected, &value) {
            Some(difference) => Err(format!("{}: {what}: {difference}", kind.name)),
            None => Ok(()),
        },
    }
}

pub fn base(src: &mut Source) -> u64 {
    match src.below(8) {
        0..=3 => 0,
        4 | 5 => 1 + src.below(200),
        6 => src.below(1 << 20),
        _ => src.below(1 << 40),
    }
}

macro_rules! attempt {
    ($result:expr) => {
        match $result {
            Ok(value) => value,
            Err(outcome) => return outcome,
        }
    };
}

/// Well-formed tables decode to what they encode.
pub fn decoding(kinds: &'static [&'static str], src: &mut Source, case: &mut Case) -> Outcome {
    let kind = kinds::find(kinds[src.below(kinds.len() as u64) as usize]);
    let plan = Plan::draw(src, true);
    let (made, decoded) = attempt!(valid(kind, src, &plan, case));
    let base = base(src);
    let mut tape = Tape::at(&made.image, base);
    if let Err(message) =
        compare(decoded.result.as_ref().unwrap(), read(kind, &mut tape, false), kind, "a well-formed table")
    {
        return Outcome::Fail(message);
    }
    // What has no parts elsewhere is read in sequence.
    if SEQUENTIAL.contains(&kind.name) && tape.pos != base + decoded.extent {
        let consumed = tape.pos.wrapping_sub(base) as i64;
        return Outcome::Fail(format!("{}: {consumed} bytes consumed instead of {}", kind.name, decoded.extent));
    }
    Outcome::Pass
}

const SEQUENTIAL: &[&str] = &["coverage", "class", "correction", "device"];

pub fn c01(src: &mut Source, case: &mut Case) -> Outcome {
    decoding(kinds::GSUB, src, case)
}

pub fn c02(src: &mut Source, case: &mut Case) -> Outcome {
    decoding(kinds::GPOS, src, case)
}

pub fn c03(src: &mut Source, case: &mut Case) -> Outcome {
    decoding(kinds::GDEF, src, case)
}

pub fn c04(src: &mut Source, case: &mut Case) -> Outcome {
    decoding(&["fvar"], src, case)
}

pub fn c05(src: &mut Source, case: &mut Case) -> Outcome {
    decoding(&["cpal"], src, case)
}

pub fn c06(src: &mut Source, case: &mut Case) -> Outcome {
    decoding(kinds::SHARED, src, case)
}

pub fn c17(src: &mut Source, case: &mut Case) -> Outcome {
    decoding(&["store", "variation-data"], src, case)
}

/// A table with one violated constraint is refused.
pub fn c10(src: &mut Source, case: &mut Case) -> Outcome {
    malformed(src, case, kinds::ALL, false)
}

/// One violated constraint in a table of one of the kinds, possibly one on flags only.
fn malformed(src: &mut Source, case: &mut Case, names: &[&str], flags: bool) -> Outcome {
    let kind = kinds::find(*src.pick(names));
    let mut plan = Plan::draw(src, false);
    plan.flags = flags;
    let site = src.raw();
    let how = src.raw();
    let mark = src.record.len();
    let first = match make(kind, src, &plan) {
        Ok(made) => made,
        Err(E::Discard(why)) => return Outcome::Discard(why),
        Err(error) => panic!("HARNESS: generation has failed: {error:?}"),
    };
    if first.sites == 0 {
        return Outcome::Discard("no constraint to violate");
    }
    plan.violate = Some((site as usize % first.sites, how));
    let choices = src.record[mark..].to_vec();
    let made = match make(kind, &mut Source::replay(&choices), &plan) {
        Ok(made) => made,
        Err(E::Discard(why)) => return Outcome::Discard(why),
        Err(error) => panic!("HARNESS: generation has failed: {error:?}"),
    };
    if made.site.is_empty() {
        panic!("HARNESS: nothing violated in {}", kind.name);
    }
    let decoded = decode(kind, &made.image, plan.cfg);
    match decoded.result {
        Err(E::Bad(_)) => {}
        Err(E::Budget) => return Outcome::Discard("work budget"),
        // The damage may have made the table longer before it is noticed.
        Err(E::Eof) => return Outcome::Discard("truncated"),
        other => panic!("HARNESS: {}: violation of {} not noticed: {other:?}", kind.name, made.site),
    }
    if case.verbose {
        println!("kind {}; violated: {} (constraint {:?}); {}", kind.name, made.site, plan.violate, made.image.describe());
    }
    case.class(format!("kind:{}", kind.name));
    case.class(format!("violated:{}", made.site));
    describe(case, kind, &made.image, decoded.reads.max(5));
    let mut tape = Tape::at(&made.image, base(src));
    match read(kind, &mut tape, false) {
        Ok(Err(_)) => Outcome::Pass,
        Ok(Ok(_)) => Outcome::Fail(format!("{}: accepted in spite of a violation: {}", kind.name, made.site)),
        Err(panic) => Outcome::Fail(format!("{}: panicked on a violation of {}: {panic}", kind.name, made.site)),
    }
}

/// A table needs all of its bytes and no other.
pub fn c11(src: &mut Source, case: &mut Case) -> Outcome {
    let kind = kinds::find(*src.pick(kinds::ALL));
    let mut plan = Plan::draw(src, true);
    plan.huge = false;
    let (made, decoded) = attempt!(valid(kind, src, &plan, case));
    let expected = decoded.result.as_ref().unwrap();
    let extent = decoded.extent;
    let mut cuts = vec![];
    let limit = if decoded.reads > 3000 { 8 } else { 60 };
    if extent <= limit {
        cuts.extend(0..extent);
    } else {
        cuts.extend([0, extent - 1, extent - 2, extent - 3]);
        for _ in 0..limit - 8 {
            cuts.push(src.below(extent));
        }
        // Just before and after the starts of the segments.
        for (at, data) in made.image.segs.iter().take(20) {
            cuts.push((at + data.len() as u64).saturating_sub(1));
            cuts.push(at + 1);
        }
    }
    let mut image = made.image.clone();
    for cut in cuts {
        if cut >= extent {
            continue;
        }
        image.len = cut;
        let mut tape = Tape::new(&image);
        case.count("cuts", 1);
        match read(kind, &mut tape, false) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => {
                return Outcome::Fail(format!("{}: a value from {cut} bytes of {extent} needed", kind.name));
            }
            Err(panic) => return Outcome::Fail(format!("{}: panicked at {cut} bytes of {extent}: {panic}", kind.name)),
        }
    }
    for more in [0, 1, src.below(64), 5000] {
        image.len = extent + more;
        image.fill = mix(plan.fill + more);
        // Segments are the table's own bytes; gaps and what follows are not.
        let mut tape = Tape::new(&image);
        case.count("extensions", 1);
        let again = decode(kind, &image, plan.cfg);
        if again.result.as_ref() != Ok(expected) {
            panic!("HARNESS: the reference depends on alien bytes");
        }
        let what = format!("with {extent} bytes needed and {more} more");
        if let Err(message) = compare(expected, read(kind, &mut tape, false), kind, &what) {
            return Outcome::Fail(message);
        }
    }
    Outcome::Pass
}

/// Location and surroundings make no difference.
pub fn c12(src: &mut Source, case: &mut Case) -> Outcome {
    let kind = kinds::find(*src.pick(kinds::ALL));
    let plan = Plan::draw(src, true);
    let (made, decoded) = attempt!(valid(kind, src, &plan, case));
    let expected = decoded.result.as_ref().unwrap();
    let mut bases = vec![0, 1 + src.below(70000), (1 << 32) - src.below(2 * decoded.extent.min(1 << 31) + 1)];
    bases.push((1 << 32) + src.below(1 << 36));
    bases.push((1 << 62) - src.below(1 << 40));
    bases.push(u64::MAX - (1 << 44) - src.below(1 << 40));
    bases.push((1 << 63) - src.below(2 * decoded.extent.min(1 << 31) + 1));
    bases.push((1 << 31) - src.below(decoded.extent.min(1 << 30) + 1));
    // At the boundaries of pages and buffers, and around them.
    let size = 1u64 << (9 + src.below(24));
    let reach = src.below(12);
    bases.push(size * (1 + src.below(1 << reach)));
    bases.push(bases[bases.len() - 1] + src.below(17) - 8);
    for base in bases {
        let mut image = made.image.clone();
        image.fill = 1 + src.below(1 << 40);
        image.len = decoded.extent + src.below(3) * 1000;
        let again = decode(kind, &image, plan.cfg);
        if again.result.as_ref() != Ok(expected) {
            panic!("HARNESS: the reference depends on alien bytes");
        }
        case.count("placements", 1);
        let mut tape = Tape::at(&image, base);
        tape.before = 1 + src.below(1 << 40);
        tape.sealed = src.chance(1, 2);
        let what = format!("at position {base}{}", if tape.sealed { " with nothing to read before it" } else { "" });
        if let Err(message) = compare(expected, read(kind, &mut tape, false), kind, &what) {
            return Outcome::Fail(message);
        }
    }
    Outcome::Pass
}

const FAULTS: [ErrorKind; 13] = [
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::NotFound,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::WriteZero,
];

/// An operation on a tape, for the purpose of injecting faults.
pub type Operation<'f> = &'f dyn Fn(&mut Tape) -> std::io::Result<V>;

/// Fail each operation of the tape in turn, then deliver in pieces.
pub fn faults(
    name: &str,
    image: &Image,
    base: u64,
    operation: Operation,
    src: &mut Source,
    case: &mut Case,
) -> Result<(), String> {
    // Some of what is asked for may have been delivered by the time of the failure.
    let pieces = if src.chance(1, 5) { 2 + src.below(30) } else { 0 };
    let fresh = || {
        let mut tape = Tape::at(image, base);
        tape.chop = pieces;
        tape
    };
    let mut tape = fresh();
    let expected = match guard(|| operation(&mut tape)) {
        Ok(Ok(value)) => value,
        Ok(Err(error)) => return Err(format!("{name}: refused without faults: {error}")),
        Err(panic) => return Err(format!("{name}: panicked without faults: {panic}")),
    };
    let total = tape.ops;
    let mut indices: Vec<u64> = vec![];
    if total <= 120 {
        indices.extend(0..total);
    } else {
        indices.extend([0, 1, 2, 3, total - 1, total - 2, total - 3]);
        for _ in 0..80 {
            indices.push(src.below(total));
        }
    }
    let offset = src.below(13);
    for index in indices {
        let kind = FAULTS[((index + offset) % 13) as usize];
        let sticky = (index + offset) % 2 == 0;
        let mut tape = fresh();
        tape.fail = Some((index, kind, sticky));
        let what = format!("{name}: operation {index} of {total} failing ({kind:?})");
        case.count("faults", 1);
        match guard(|| operation(&mut tape)) {
            Err(panic) => return Err(format!("{what}: panicked: {panic}")),
            Ok(Ok(_)) if !tape.failed => return Err(format!("{what}: the number of operations varies")),
            Ok(Ok(_)) => return Err(format!("{what}: a value in spite of the failure")),
            Ok(Err(error)) => {
                if error.kind() != kind || error.to_string() != Tape::failure(index, kind) {
                    return Err(format!("{what}: another error: {error}"));
                }
            }
        }
    }
    for (chop, interrupt) in [(1, 0), (3, 0), (2 + src.below(60), 3), (0, 2)] {
        let mut tape = fresh();
        tape.chop = chop;
        tape.interrupt = interrupt;
        case.count("deliveries", 1);
        let what = format!("{name}: delivered in pieces ({chop}, {interrupt})");
        match guard(|| operation(&mut tape)) {
            Err(panic) => return Err(format!("{what}: panicked: {panic}")),
            Ok(Err(error)) => return Err(format!("{what}: refused: {error}")),
            Ok(Ok(value)) => {
                if let Some(difference) = diff(&expected, &value) {
                    return Err(format!("{what}: {difference}"));
                }
            }
        }
    }
    Ok(())
}

pub fn c13(src: &mut Source, case: &mut Case) -> Outcome {
    if src.chance(1, 4) {
        return crate::fonts::c13(src, case);
    }
    let kind = kinds::find(*src.pick(kinds::ALL));
    let mut plan = Plan::draw(src, false);
    plan.size = plan.size.min(600);
    let (made, decoded) = attempt!(valid(kind, src, &plan, case));
    if decoded.reads > 20000 {
        return Outcome::Discard("too long");
    }
    let base = base(src);
    match faults(kind.name, &made.image, base, &|tape| (kind.read)(tape, false), src, case) {
        Ok(()) => Outcome::Pass,
        Err(message) => Outcome::Fail(message),
    }
}

/// Flag words, exhaustively: the case number is the word.
pub fn flags(word: u16) -> Result<u64, String> {
    use opentype::layout::lookup::Flags as LookupFlags;
    use opentype::tables::font_variations::{AxisFlags, InstanceFlags};
    use opentype::tables::glyph_positioning::Flags as ValueFlags;
    let image = Image::from_bytes(word.to_be_bytes().to_vec());
    macro_rules! check(
        ($type:ty, $reserved:expr, $($name:ident => $bit:expr),* $(,)?) => ({
            let result = guard(|| -> std::io::Result<($type, Vec<(&'static str, bool, bool)>)> {
                let mut tape = Tape::new(&image);
                let value = <$type as opentype::value::Read>::read(&mut tape)?;
                let flags = vec![$((stringify!($name), value.$name(), word >> $bit & 1 == 1)),*];
                Ok((value, flags))
            })
            .map_err(|panic| format!("{} {word:#06x}: panicked: {panic}", stringify!($type)))?;
            let allowed = word & $reserved == 0;
            match result {
                Ok((value, flags)) => {
                    if !allowed {
                        return Err(format!("{} {word:#06x}: accepted with reserved bits", stringify!($type)));
                    }
                    if value.0 != word || u16::from(value) != word {
                        return Err(format!("{} {word:#06x}: read as {:#06x}", stringify!($type), value.0));
                    }
                    let mut written = vec![];
                    if opentype::value::Write::write(&value, &mut written).is_err() || written != word.to_be_bytes() {
                        return Err(format!("{} {word:#06x}: written as {written:02x?}", stringify!($type)));
                    }
                    if value.is_invalid() {
                        return Err(format!("{} {word:#06x}: reported as invalid", stringify!($type)));
                    }
                    for (name, found, expected) in flags {
                        if found != expected {
                            return Err(format!("{} {word:#06x}: {name} is {found}", stringify!($type)));
                        }
                    }
                    guard(|| format!("{value:?} {value}"))
                        .map_err(|panic| format!("{} {word:#06x}: printing panicked: {panic}", stringify!($type)))?;
                }
                Err(error) => {
                    if allowed {
                        return Err(format!("{} {word:#06x}: refused: {error}", stringify!($type)));
                    }
                }
            }
            // The predicates on a word constructed directly.
            let value = <$type>::default();
            if value.0 != 0 {
                return Err(format!("{}: the default is not zero", stringify!($type)));
            }
        });
    );
    check!(
        LookupFlags, 0x00E0,
        is_right_to_left => 0, should_ignore_base_glyphs => 1, should_ignore_ligature => 2,
        should_ignore_marks => 3, has_mark_filtering => 4,
    );
    check!(
        ValueFlags, 0xFF00,
        has_x_placement => 0, has_y_placement => 1, has_x_advance => 2, has_y_advance => 3,
        has_x_placement_correction => 4, has_y_placement_correction => 5,
        has_x_advance_correction => 6, has_y_advance_correction => 7,
    );
    check!(AxisFlags, 0xFFFE, is_hidden => 0);
    check!(InstanceFlags, 0xFFFF,);
    macro_rules! direct(
        ($type:ident, $reserved:expr, $($name:ident => $bit:expr),* $(,)?) => ({
            let value = $type(word);
            $(if value.$name() != (word >> $bit & 1 == 1) {
                return Err(format!("{}({word:#06x}): {} is wrong", stringify!($type), stringify!($name)));
            })*
            if value.is_invalid() != (word & $reserved != 0) {
                return Err(format!("{}({word:#06x}): is_invalid is wrong", stringify!($type)));
            }
        });
    );
    direct!(
        LookupFlags, 0x00E0,
        is_right_to_left => 0, should_ignore_base_glyphs => 1, should_ignore_ligature => 2,
        should_ignore_marks => 3, has_mark_filtering => 4,
    );
    direct!(
        ValueFlags, 0xFF00,
        has_x_placement => 0, has_y_placement => 1, has_x_advance => 2, has_y_advance => 3,
        has_x_placement_correction => 4, has_y_placement_correction => 5,
        has_x_advance_correction => 6, has_y_advance_correction => 7,
    );
    direct!(AxisFlags, 0xFFFE, is_hidden => 0);
    direct!(InstanceFlags, 0xFFFF,);
    Ok(8)
}

pub fn c18(src: &mut Source, case: &mut Case) -> Outcome {
    // One case covers 256 words; the first draw is the case number when enumerating.
    let block = src.below(256) as u16;
    case.class(format!("high byte {:x}x", block >> 4));
    case.hash = mix(block as u64);
    case.nontrivial = true;
    case.sample = format!("words {:#06x}..={:#06x} of each of the four types", block << 8, block << 8 | 0xFF);
    for low in 0..256 {
        let word = block << 8 | low;
        match flags(word) {
            Ok(n) => case.count("words x types", n),
            Err(message) => return Outcome::Fail(message),
        }
    }
    Outcome::Pass
}

/// Flag words inside of tables, exhaustively, against the reference decoder.
pub fn c18_inside(src: &mut Source, case: &mut Case) -> Outcome {
    let block = src.below(256) as u16;
    case.hash = mix(0x1_0000 | block as u64);
    case.nontrivial = true;
    case.sample = format!("words {:#06x}..={:#06x} in each of ten places of a table", block << 8, block << 8 | 0xFF);
    let seed = src.raw();
    for low in 0..256 {
        let word = block << 8 | low;
        // What the flags may call for: up to eight values each, offsets null.
        let values = |mut flags: u16, salt: u64| -> Vec<u16> {
            let mut words = vec![];
            flags &= 0xFF;
            for bit in 0..8 {
                if flags >> bit & 1 == 1 {
                    words.push(if bit < 4 { mix(seed ^ salt ^ bit) as u16 } else { 0 });
                }
            }
            words
        };
        let coverage = [1, 1, 7];
        let mut tables: Vec<(&str, Vec<u16>, bool)> = vec![];
        for kind in ["gsub-lookups", "gpos-lookups"] {
            // The subtable is an extension; the mark filtering set is there if its flag is.
            let extension = if kind == "gsub-lookups" { 7 } else { 9 };
            let mut lookup = vec![extension, word, 1, 8];
            if word & 0x10 != 0 {
                lookup[3] = 10;
                lookup.push(mix(seed) as u16);
            }
            lookup.extend([1, 1, 0, 8]);
            let mut words = vec![1, 4];
            words.extend(lookup);
            tables.push((kind, words, word & 0x00E0 == 0));
        }
        let allowed = word & 0xFF00 == 0;
        for format in [1, 2] {
            let body = values(word, 1);
            let mut words = vec![format, 0, word];
            if format == 2 {
                words.push(2);
                words.extend(values(word, 2));
            }
            words.extend(body);
            words[1] = 2 * words.len() as u16;
            words.extend(coverage);
            tables.push(("gpos-1", words, allowed));
        }
        for other in [0, mix(seed ^ word as u64) as u16 & 0xFF] {
            for swap in [false, true] {
                let (one, two) = if swap { (other, word) } else { (word, other) };
                let record: Vec<u16> = [values(one, 3), values(two, 4)].concat();
                // One set of two pairs.
                let mut words = vec![1, 12, one, two, 1, 18];
                words.extend(coverage);
                words.extend([2, 10]);
                words.extend(&record);
                words.push(11);
                words.extend(&record);
                tables.push(("gpos-2", words, allowed));
            }
        }
        for axis in [true, false] {
            let mut words = vec![1, 0, 16, 2, 1, 20, 1, 10];
            words.extend([1, 2, 3, 4, 5, 6, 7, 8, if axis { word } else { 1 }, 9]);
            words.extend([300, if axis { 0 } else { word }, 11, 12, 13]);
            tables.push(("fvar", words, if axis { word & 0xFFFE == 0 } else { word == 0 }));
        }
        for (name, words, allowed) in tables {
            let kind = kinds::find(name);
            let image = Image::from_bytes(words.iter().flat_map(|word| word.to_be_bytes()).collect());
            let decoded = decode(kind, &image, Cfg::built());
            if decoded.result.is_ok() != allowed {
                panic!("HARNESS: {name} with {word:#06x}: {:?}", decoded.result);
            }
            case.count("words x places", 1);
            let mut tape = Tape::new(&image);
            let what = format!("a table with the flags {word:#06x}");
            let found = read(kind, &mut tape, false);
            let message = match decoded.result {
                Ok(expected) => compare(&expected, found, kind, &what).err(),
                Err(_) => match found {
                    Ok(Err(_)) => None,
                    Ok(Ok(_)) => Some(format!("{name}: accepted {what}")),
                    Err(panic) => Some(format!("{name}: panicked on {what}: {panic}")),
                },
            };
            if let Some(message) = message {
                return Outcome::Fail(message);
            }
        }
    }
    Outcome::Pass
}

/// Flag words in tables of any shape.
pub fn c18_tables(src: &mut Source, case: &mut Case) -> Outcome {
    const KINDS: &[&str] = &["gsub-lookups", "gpos-lookups", "gpos-1", "gpos-2", "fvar", "gsub", "gpos"];
    if src.chance(3, 4) {
        return malformed(src, case, KINDS, true);
    }
    let kind = kinds::find(*src.pick(KINDS));
    let plan = Plan::draw(src, false);
    let (made, decoded) = attempt!(valid(kind, src, &plan, case));
    case.class("without reserved flags");
    let mut tape = Tape::at(&made.image, base(src));
    match compare(decoded.result.as_ref().unwrap(), read(kind, &mut tape, false), kind, "a table without reserved flags") {
        Ok(()) => Outcome::Pass,
        Err(message) => Outcome::Fail(message),
    }
}

/// Tables with a tolerated defect, and tables without.
pub fn c16(src: &mut Source, case: &mut Case) -> Outcome {
    let kinds: &[&str] = match src.below(6) {
        0 => return crate::fonts::c16(src, case),
        // What is tolerated is that defect and no other.
        4 => return c10(src, case),
        5 => return c19(src, case),
        1 => &["gsub", "gpos", "gsub", "gpos", "marks", "gpos-4", "gpos-5", "gpos-6"],
        2 => &["marks", "gpos-4", "gpos-5", "gpos-6", "gpos-lookups", "gpos"],
        _ => kinds::ALL,
    };
    let kind = kinds::find(kinds[src.below(kinds.len() as u64) as usize]);
    let mut plan = Plan::draw(src, false);
    plan.lacking = true;
    let cfg = Cfg::built();
    if src.chance(1, 2) {
        // A defect that may be tolerated in some build.
        let all = Cfg { dirs: true, marks: true };
        plan.cfg = all;
        let made = match make(kind, src, &plan) {
            Ok(made) => made,
            Err(E::Discard(why)) => return Outcome::Discard(why),
            Err(error) => panic!("HARNESS: generation has failed: {error:?}"),
        };
        let decoded = decode(kind, &made.image, cfg);
        describe(case, kind, &made.image, decoded.reads);
        case.class(format!("kind:{}", kind.name));
        let mut tape = Tape::new(&made.image);
        let found = read(kind, &mut tape, true);
        match decoded.result {
            Ok(expected) => {
                case.class(if made.lacked { "tolerated" } else { "without defects" });
                match compare(&expected, found, kind, "a table with tolerated defects") {
                    Ok(()) => Outcome::Pass,
                    Err(message) => Outcome::Fail(message),
                }
            }
            Err(E::Budget) => Outcome::Discard("work budget"),
            Err(E::Bad(what)) => {
                case.class(format!("refused:{what}"));
                case.nontrivial = true;
                match found {
                    Ok(Err(_)) => Outcome::Pass,
                    Ok(Ok(_)) => Outcome::Fail(format!("{}: accepted with {what} although not asked to", kind.name)),
                    Err(panic) => Outcome::Fail(format!("{}: panicked on {what}: {panic}", kind.name)),
                }
            }
            Err(error) => panic!("HARNESS: {error:?}"),
        }
    } else {
        plan.lacking = false;
        let (made, decoded) = attempt!(valid(kind, src, &plan, case));
        let mut tape = Tape::new(&made.image);
        match compare(decoded.result.as_ref().unwrap(), read(kind, &mut tape, false), kind, "a table without defects") {
            Ok(()) => Outcome::Pass,
            Err(message) => Outcome::Fail(message),
        }
    }
}

// Arbitrary bytes.

/// Bytes of some relation to a kind of table.
/// A header of font variations with records that may overlap, and an axis or two.
fn header_of_variations(src: &mut Source) -> Vec<u8> {
    let axis_count = match src.below(4) {
        0 => src.below(4),
        1 => (1 << 14) - 4 + src.below(8),
        2 => (1 << src.below(16)) + src.below(3) - 1,
        _ => src.below(65536),
    };
    let axis_size = *src.pick(&[0, 0, 4, 8, 16, 20, 24]);
    let instance_count = src.below(4);
    let needed = 4 + 4 * axis_count;
    let instance_size = match src.below(5) {
        0 => 0,
        1 => src.below(64),
        2 => needed,
        3 => needed + src.below(8),
        _ => needed.saturating_sub(src.below(8)),
    };
    let mut bytes = vec![];
    for word in [1, 0, 16, 2, axis_count, axis_size, instance_count, instance_size] {
        bytes.extend((word as u16).to_be_bytes());
    }
    // A tag whose second half is read as flags as well.
    for _ in 0..src.below(3) {
        bytes.extend([src.below(128) as u8, src.below(128) as u8, 0, 0]);
        bytes.extend([0; 16]);
    }
    bytes
}

pub fn wild(kind: &'static Kind, src: &mut Source, case: &mut Case) -> Result<Image, Outcome> {
    let generated = |src: &mut Source, kind: &Kind| -> Result<Image, Outcome> {
        let plan = Plan::draw(src, false);
        match make(kind, src, &plan) {
            Ok(made) => Ok(made.image),
            Err(E::Discard(why)) => Err(Outcome::Discard(why)),
            Err(error) => panic!("HARNESS: generation has failed: {error:?}"),
        }
    };
    let mut image = match src.below(16) {
        0 | 1 => {
            case.class("origin:words");
            let count = src.below(160);
            let mut bytes = vec![];
            for _ in 0..count {
                let word = match src.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => src.below(4),
                    3 => src.below(64),
                    4 => src.below(400),
                    _ => src.below(65536),
                };
                bytes.extend((word as u16).to_be_bytes());
            }
            Image::from_bytes(bytes)
        }
        2 => {
            case.class("origin:bytes");
            let count = src.below(64);
            Image::from_bytes((0..count).map(|_| src.below(256) as u8).collect())
        }
        3 => {
            if let Some(bytes) = crate::fonts::fixture_table(kind.name, src) {
                case.class("origin:fixture");
                Image::from_bytes(bytes)
            } else {
                case.class("origin:generated");
                generated(src, kind)?
            }
        }
        14 | 15 if src.chance(1, if kind.name == "fvar" { 1 } else { 4 }) => {
            // The beginning of a table and then little but zeros.
            case.class("origin:zeros");
            let mut bytes = if kind.name == "fvar" && src.chance(1, 2) {
                header_of_variations(src)
            } else {
                let bytes = generated(src, kind)?.flatten();
                let keep = (2 * src.within(1, 24)).min(bytes.len() as u64);
                bytes[..keep as usize].to_vec()
            };
            bytes.resize(bytes.len() + (*src.pick(&[40, 400, 70_000, 140_000]) + src.below(9)) as usize, 0);
            Image::from_bytes(bytes)
        }
        4 => {
            // Overlay of two tables.
            case.class("origin:overlay");
            let mut first = generated(src, kind)?.flatten();
            let second = generated(src, kind)?.flatten();
            let at = src.below(first.len() as u64 + 1) as usize;
            let from = src.below(second.len() as u64 + 1) as usize;
            let n = src.below((second.len() - from) as u64 + 1) as usize;
            if first.len() < at + n {
                first.resize(at + n, 0);
            }
            first[at..at + n].copy_from_slice(&second[from..from + n]);
            Image::from_bytes(first)
        }
        _ => {
            case.class("origin:generated");
            generated(src, kind)?
        }
    };
    let mutations = src.below(6);
    case.class(format!("mutations:{mutations}"));
    for _ in 0..mutations {
        if image.len < 2 {
            break;
        }
        // Prefer the beginnings of segments, which is where the structure is.
        let at = {
            let seg = if image.segs.is_empty() { 0 } else { src.below(image.segs.len() as u64) as usize };
            match image.segs.get(seg) {
                Some((at, data)) if src.chance(4, 5) => {
                    let word = src.below((data.len() as u64 / 2).clamp(1, 40));
                    at + 2 * word
                }
                _ => src.below(image.len - 1),
            }
        };
        if at + 1 >= image.len {
            continue;
        }
        let old = u16::from_be_bytes([image.byte(at), image.byte(at + 1)]);
        let new = match src.below(7) {
            0 => old.wrapping_add(1),
            1 => old.wrapping_sub(1),
            2 => src.below(8) as u16,
            3 => src.below(200) as u16,
            4 => *src.pick(&[0xFFFF, 0x7FFF, 0x8000, 0xFFFE, 0x0100, 0x00FF]),
            5 => old ^ (1 << src.below(16)),
            _ => src.below(65536) as u16,
        };
        image.set(at, (new >> 8) as u8);
        image.set(at + 1, new as u8);
    }
    match src.below(6) {
        0 => {
            image.len = src.below(image.len + 1);
            case.class("cut");
        }
        1 => {
            image.len += src.below(1 << 17);
            case.class("extended");
        }
        _ => {}
    }
    let len = image.len;
    image.segs.retain_mut(|(at, data)| {
        if *at >= len {
            return false;
        }
        data.truncate((len - *at) as usize);
        true
    });
    Ok(image)
}

pub fn judge(kind: &'static Kind, image: &Image, case: &mut Case, values: bool) -> Outcome {
    let decoded = decode_limited(kind, image, Cfg::built(), 24 << 20);
    if decoded.result == Err(E::Budget) {
        return Outcome::Discard("work budget");
    }
    if case.verbose {
        println!("kind {}; {}; reference {:?}", kind.name, image.describe(), decoded.result);
        for (at, data) in &image.segs {
            println!("  at {at}: {}", data.iter().take(400).map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" "));
        }
    }
    case.class(format!("kind:{}", kind.name));
    describe(case, kind, image, decoded.reads);
    let mut tape = Tape::new(image);
    tape.budget = 16 << 20;
    let found = read(kind, &mut tape, !values);
    if tape.exhausted {
        return Outcome::Discard("work budget");
    }
    case.class(match &decoded.result {
        Ok(_) => "accepted".to_string(),
        Err(E::Eof) => "refused:end of data".to_string(),
        Err(E::Bad(what)) => format!("refused:{what}"),
        Err(_) => unreachable!(),
    });
    let found = match found {
        Err(panic) => return Outcome::Fail(format!("{}: panicked: {panic}", kind.name)),
        Ok(found) => found,
    };
    if !values {
        return Outcome::Pass;
    }
    match (decoded.result, found) {
        (Ok(expected), Ok(found)) => match diff(&expected, &found) {
            Some(difference) => Outcome::Fail(format!("{}: {difference}", kind.name)),
            None => Outcome::Pass,
        },
        (Err(_), Err(error)) => {
            debug_assert!(error.to_string() != BUDGET);
            Outcome::Pass
        }
        (Ok(_), Err(error)) => Outcome::Fail(format!("{}: refused: {error}", kind.name)),
        (Err(error), Ok(_)) => Outcome::Fail(format!("{}: accepted in spite of {error:?}", kind.name)),
    }
}

/// No panic.
pub fn c09(src: &mut Source, case: &mut Case) -> Outcome {
    if src.chance(1, 5) {
        return crate::fonts::c09(src, case);
    }
    let kind = kinds::find(*src.pick(kinds::ALL));
    if src.chance(1, 4) {
        // Extreme but well-formed.
        let mut plan = Plan::draw(src, true);
        plan.big = Some(src.below(4));
        let image = match make(kind, src, &plan) {
            Ok(made) => made.image,
            Err(E::Discard(why)) => return Outcome::Discard(why),
            Err(error) => panic!("HARNESS: generation has failed: {error:?}"),
        };
        case.class("origin:extreme");
        return judge(kind, &image, case, false);
    }
    let image = attempt!(wild(kind, src, case));
    judge(kind, &image, case, false)
}

/// Agreement with the reference.
pub fn c19(src: &mut Source, case: &mut Case) -> Outcome {
    let kind = kinds::find(*src.pick(kinds::ALL));
    let image = attempt!(wild(kind, src, case));
    judge(kind, &image, case, true)
}

/// A raw input: the kind and the bytes, as a fuzzer delivers them.
pub fn raw(data: &[u8]) -> Option<(&'static Kind, Image)> {
    let (first, rest) = data.split_first()?;
    let kind = kinds::find(kinds::ALL[*first as usize % kinds::ALL.len()]);
    Some((kind, Image::from_bytes(rest.to_vec())))
}

pub fn judge_raw(data: &[u8], case: &mut Case, values: bool) -> Outcome {
    match raw(data) {
        Some((kind, image)) => judge(kind, &image, case, values),
        None => Outcome::Discard("empty"),
    }
}

/// Let a tape fail when more is asked of it than the work at hand calls for.
pub fn bound(tape: &mut Tape, taken: u64, charged: u64) {
    tape.ops = 0;
    tape.bytes = 0;
    tape.budget = 4 * taken + 256;
    tape.exhausted = false;
    tape.fail = Some((4 * charged + 256, ErrorKind::Other, true));
    tape.failed = false;
}

/// Whether the tape has had enough.
pub fn overworked(tape: &Tape, what: &str) -> Result<(), String> {
    if tape.exhausted {
        return Err(format!("{what}: more than {} bytes taken from the tape", tape.budget));
    }
    if tape.failed {
        return Err(format!("{what}: more than {} operations on the tape", tape.ops.saturating_sub(1)));
    }
    Ok(())
}

/// Reading takes work in proportion to what there is to be read.
pub fn c20(src: &mut Source, case: &mut Case) -> Outcome {
    let kind = kinds::find(*src.pick(kinds::ALL));
    let (mut image, decoded) = if src.chance(1, 3) {
        let image = attempt!(wild(kind, src, case));
        let decoded = decode_limited(kind, &image, Cfg::built(), 8 << 20);
        describe(case, kind, &image, decoded.reads);
        if decoded.result.is_err() {
            case.nontrivial = false;
            return Outcome::Discard("not a table");
        }
        (image, decoded)
    } else {
        let plan = Plan::draw(src, true);
        let (made, decoded) = attempt!(valid(kind, src, &plan, case));
        (made.image, decoded)
    };
    let base = base(src);
    let mut cuts = vec![decoded.extent];
    for _ in 0..3 {
        cuts.push(src.below(decoded.extent + 1));
    }
    for (i, cut) in cuts.into_iter().enumerate() {
        if i > 0 {
            image.len = cut;
        }
        let mut tape = Tape::at(&image, base);
        bound(&mut tape, decoded.taken, decoded.charged);
        let found = read(kind, &mut tape, false);
        let what = if i > 0 { format!("{} cut at {cut}", kind.name) } else { kind.name.to_string() };
        if let Err(message) = overworked(&tape, &what) {
            return Outcome::Fail(message);
        }
        case.count("reads", 1);
        if i == 0 {
            if let Err(message) = compare(decoded.result.as_ref().unwrap(), found, kind, "a table") {
                return Outcome::Fail(message);
            }
            case.class(match (100 * tape.bytes).checked_div(decoded.taken).unwrap_or(0) {
                0..=100 => "bytes per byte needed: at most 1",
                101..=150 => "bytes per byte needed: at most 1.5",
                _ => "bytes per byte needed: more",
            });
            case.class(match decoded.charged {
                0..=1000 => "work: up to 1000",
                1001..=100_000 => "work: up to 100000",
                _ => "work: more",
            });
        }
    }
    Outcome::Pass
}

/// Enlarge a few words of a table, as if they were counts, and perhaps cut it.
fn swell(image: &mut Image, src: &mut Source) {
    for _ in 0..src.within(1, 4) {
        let which = if image.segs.is_empty() { return } else { src.below(image.segs.len() as u64) as usize };
        let (start, length) = (image.segs[which].0, image.segs[which].1.len() as u64);
        if length < 2 {
            continue;
        }
        let at = start + 2 * src.below((length / 2).min(24));
        let word = match src.below(5) {
            0 => 65535,
            1 => 32767,
            2 => 65535 - src.below(100),
            3 => 256 * (1 + src.below(255)),
            _ => src.below(65536),
        };
        image.set(at, (word >> 8) as u8);
        image.set(at + 1, word as u8);
    }
}

/// Bytes of memory for each byte and record, and what arrays of 16-bit counts may come to before they are refused.
const MEMORY_UNIT: u64 = 16;
const MEMORY_LEAST: u64 = 64 << 10;
const MEMORY_REFUSED: u64 = 64 << 20;

/// How much memory so many bytes and records may take.
pub fn memory_bound(work: u64, accepted: bool) -> u64 {
    MEMORY_UNIT * work + MEMORY_LEAST + if accepted { 0 } else { MEMORY_REFUSED }
}

pub fn heavy(what: &str, peak: u64, bound: u64) -> Result<(), String> {
    if peak > bound {
        return Err(format!("{what}: {peak} bytes of memory where at most {bound} are called for"));
    }
    Ok(())
}

/// Reading holds memory in proportion to what there is to be read, and leaves nothing behind.
pub fn c22(src: &mut Source, case: &mut Case) -> Outcome {
    let kind = kinds::find(*src.pick(kinds::ALL));
    let (mut image, cfg) = match src.below(4) {
        0 => (attempt!(wild(kind, src, case)), Cfg::built()),
        how => {
            let mut plan = Plan::draw(src, true);
            if how > 1 {
                plan.size = plan.size.min(600);
                plan.big = None;
            }
            let made = match make(kind, src, &plan) {
                Ok(made) => made,
                Err(E::Discard(why)) => return Outcome::Discard(why),
                Err(error) => panic!("HARNESS: generation has failed: {error:?}"),
            };
            let mut image = made.image;
            if how > 1 {
                swell(&mut image, src);
                case.class("origin:swollen");
            }
            (image, plan.cfg)
        }
    };
    if src.chance(1, 4) {
        image.len = src.below(image.len + 1);
        case.class("cut");
    }
    let decoded = decode_limited(kind, &image, cfg, 16 << 20);
    if decoded.result == Err(E::Budget) {
        return Outcome::Discard("work budget");
    }
    if case.verbose {
        println!("kind {}; {}; reference {:?}", kind.name, image.describe(), decoded.result);
    }
    case.class(format!("kind:{}", kind.name));
    describe(case, kind, &image, decoded.reads);
    let base = base(src);
    let mut bound = memory_bound(decoded.charged + decoded.reads, decoded.result.is_ok());
    let mut modest = decoded.reads < 20_000;
    let mut grown = 0;
    let mut retained = 0;
    for round in 0..7 {
        // As it is twice, elsewhere, and with a byte changed.
        let mut at = base;
        if round > 1 {
            at = src.below(1 << 40);
            if round > 3 && !image.segs.is_empty() {
                let which = src.below(image.segs.len() as u64) as usize;
                let (start, length) = (image.segs[which].0, image.segs[which].1.len() as u64);
                let at = start + src.below(length.max(1));
                if at < image.len {
                    image.set(at, image.byte(at) ^ 1 << src.below(4));
                    let changed = decode_limited(kind, &image, cfg, 16 << 20);
                    if changed.result == Err(E::Budget) {
                        modest = false;
                        break;
                    }
                    bound = memory_bound(changed.charged + changed.reads, changed.result.is_ok());
                }
            }
        }
        let mut tape = Tape::at(&image, at);
        tape.budget = 64 << 20;
        let (result, peak, left) = crate::memory::weigh(|| guard(|| (kind.pass)(&mut tape).is_ok()));
        if tape.exhausted {
            return Outcome::Discard("work budget");
        }
        match result {
            Err(panic) => return Outcome::Fail(format!("{}: panicked: {panic}", kind.name)),
            Ok(accepted) => case.class(if accepted { "accepted" } else { "refused" }),
        }
        case.count("readings", 1);
        if let Err(message) = heavy(kind.name, peak, bound) {
            return Outcome::Fail(message);
        }
        // What is kept for good, once, is not held against the reader.
        if round > 0 && left > 0 {
            grown += 1;
            retained += left;
        }
        if round == 1 && left > 0 {
            return Outcome::Fail(format!("{}: {left} bytes of memory are not released", kind.name));
        }
        case.class(match peak {
            0..=1000 => "memory: up to 1 kB",
            1001..=100_000 => "memory: up to 100 kB",
            100_001..=10_000_000 => "memory: up to 10 MB",
            _ => "memory: more",
        });
    }
    // What comes of using it.
    if modest {
        for round in 0..2 {
            let mut tape = Tape::at(&image, base);
            tape.budget = 16 << 20;
            let (found, _, left) = crate::memory::weigh(|| read(kind, &mut tape, true).map(drop));
            if let Err(panic) = found {
                return Outcome::Fail(format!("{}: panicked: {panic}", kind.name));
            }
            if round > 0 && left > 0 {
                return Outcome::Fail(format!("{}: {left} bytes of memory are not released after use", kind.name));
            }
        }
    }
    if grown > 2 {
        return Outcome::Fail(format!("{}: {retained} bytes of memory are retained in the course of {grown} readings", kind.name));
    }
    Outcome::Pass
}

/// Histories of reads of several kinds at several positions of one tape.
pub fn c15_tables(src: &mut Source, case: &mut Case) -> Outcome {
    let mut tables: Vec<(&'static Kind, u64)> = vec![];
    let mut whole = Image { fill: src.below(1 << 40), ..Image::default() };
    let count = src.within(1, 4);
    let family = src.below(2);
    let first = kinds::find(*src.pick(kinds::ALL));
    for index in 0..count {
        // Often several tables of one kind.
        let kind = if index > 0 && family == 0 { first } else { kinds::find(*src.pick(kinds::ALL)) };
        let mut plan = Plan::draw(src, false);
        plan.size = plan.size.min(400);
        let image = if src.chance(1, 3) { attempt!(wild(kind, src, case)) } else {
            match make(kind, src, &plan) {
                Ok(made) => made.image,
                Err(E::Discard(why)) => return Outcome::Discard(why),
                Err(error) => panic!("HARNESS: generation of {} has failed: {error:?}", kind.name),
            }
        };
        if image.len > 1 << 40 {
            return Outcome::Discard("too long");
        }
        let gap = if src.chance(1, 2) { 0 } else { src.below(9) };
        let at = whole.len + gap;
        for (start, data) in &image.segs {
            whole.segs.push((at + start, data.clone()));
        }
        whole.len = at + image.len;
        tables.push((kind, at));
        // A copy of it with a byte changed.
        if src.chance(1, 4) && image.len > 0 {
            let mut image = image;
            let which = src.below(image.segs.len().max(1) as u64) as usize;
            if let Some((start, data)) = image.segs.get(which).map(|(start, data)| (*start, data.clone())) {
                if !data.is_empty() {
                    let at = start + src.below(data.len() as u64);
                    image.set(at, image.byte(at) ^ 1 << src.below(8));
                }
            }
            let at = whole.len;
            for (start, data) in &image.segs {
                whole.segs.push((at + start, data.clone()));
            }
            whole.len = at + image.len;
            tables.push((kind, at));
        }
    }
    whole.len += src.below(3) * 50;
    let shift = base(src);
    // Another tape, on which a few bytes are different.
    let mut other = whole.clone();
    let twin = src.chance(1, 2) && !whole.segs.is_empty();
    if twin {
        for _ in 0..src.within(1, 6) {
            let which = src.below(whole.segs.len() as u64) as usize;
            let (start, length) = (whole.segs[which].0, whole.segs[which].1.len() as u64);
            if length > 0 {
                let at = start + if src.chance(1, 2) { src.below(length) } else { length - 1 - src.below(length.min(4)) };
                other.set(at, other.byte(at) ^ 1 << src.below(8));
            }
        }
        case.class("two tapes");
    }
    let mut tapes = [Tape::at(&whole, shift), Tape::at(&other, shift)];
    let steps = if src.chance(1, 24) { 30 + src.below(40) } else { 3 + src.below(15) };
    let mut done = vec![];
    let mut read_count = 0;
    let mut known: std::collections::HashMap<(&'static str, u64, usize), Decoded> = Default::default();
    let mut last = None;
    for step in 0..steps {
        let (mut kind, mut at) = *src.pick(&tables);
        match src.below(8) {
            6 => kind = kinds::find(*src.pick(kinds::ALL)),
            7 => at = src.below(whole.len.min(2000) + 1),
            _ => {}
        }
        let mut which = 0;
        if twin {
            which = src.below(2) as usize;
            if let Some((kind_last, at_last, which_last)) = last {
                // The same again on the other tape.
                if src.chance(1, 2) {
                    (kind, at, which) = (kind_last, at_last, 1 - which_last);
                }
            }
        }
        last = Some((kind, at, which));
        let tape = &mut tapes[which];
        let image = if which == 0 { &whole } else { &other };
        let decoded = known.entry((kind.name, at, which)).or_insert_with(|| {
            let mut dec = Dec::starting(image, Cfg::built(), 4 << 20, at);
            let result = (kind.dec)(&mut dec);
            Decoded {
                result: dec.conclude(result),
                extent: dec.extent,
                reads: dec.reads,
                taken: dec.taken,
                charged: dec.charged,
                furthest: dec.furthest,
                notes: dec.notes,
            }
        });
        if decoded.result == Err(E::Budget) {
            case.count("reads beyond the work budget", 1);
            continue;
        }
        tape.pos = shift + at;
        let mut what = format!("{} at {at}{}", kind.name, if which == 1 { " of the other" } else { "" });
        let fail = src.chance(1, 4);
        if fail {
            let ahead = src.below(2 * decoded.reads.min(40) + 2);
            tape.fail = Some((tape.ops + ahead, ErrorKind::Other, src.chance(1, 2)));
            what.push_str(&format!(" failing after {ahead}"));
        }
        tape.failed = false;
        tape.bytes = 0;
        tape.budget = 16 << 20;
        tape.exhausted = false;
        let exercise = src.chance(1, 4);
        let found = read(kind, tape, exercise);
        tape.fail = None;
        done.push(what);
        if tape.exhausted {
            case.count("reads beyond the work budget", 1);
            continue;
        }
        case.count("reads", 1);
        read_count += 1;
        let message = match (&decoded.result, found) {
            (_, Err(panic)) => Some(format!("panicked: {panic}")),
            (_, Ok(Ok(_))) if tape.failed => Some("a value in spite of the failure".into()),
            (_, Ok(Err(_))) if tape.failed => None,
            (Ok(expected), Ok(Ok(found))) if !exercise => diff(expected, &found),
            (Ok(_), Ok(Ok(_))) | (Err(_), Ok(Err(_))) => None,
            (Ok(_), Ok(Err(error))) => Some(format!("refused: {error}")),
            (Err(error), Ok(Ok(_))) => Some(format!("accepted in spite of {error:?}")),
        };
        if let Some(message) = message {
            return Outcome::Fail(format!("step {step} of [{}]: {message}", done.join("; ")));
        }
    }
    case.class(format!("tables:{}", tables.len()));
    case.nontrivial = read_count >= 2;
    case.hash = crate::engine::hash_bytes(whole.hash(), done.join(";").as_bytes());
    case.sample = format!("{}; {}", whole.describe(), done.join("; "));
    Outcome::Pass
}

// Directories.

fn lookup_all<T>(
    what: &str,
    tags: &[i64],
    records: &[V],
    queries: &[u32],
    get: &dyn Fn(u32) -> Vec<Option<T>>,
    project: &dyn Fn(&T) -> V,
    case: &mut Case,
) -> Result<(), String> {
    for query in queries {
        let expected = tags.iter().position(|tag| *tag == *query as i64);
        for found in get(*query) {
            case.count("queries", 1);
            match (expected, found) {
                (None, None) => {}
                (None, Some(_)) => return Err(format!("{what}: tag {query:08x} is not listed but found")),
                (Some(i), None) => return Err(format!("{what}: tag {query:08x} is listed at {i} but not found")),
                (Some(i), Some(record)) => {
                    if let Some(difference) = diff(&records[i], &project(&record)) {
                        return Err(format!("{what}: tag {query:08x} should give record {i}: {difference}"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn field<'v>(value: &'v V, name: &str) -> &'v V {
    match value {
        V::R(fields) => &fields.iter().find(|(other, _)| *other == name).expect("HARNESS: a field").1,
        _ => panic!("HARNESS: not a record"),
    }
}

fn listed(value: &V) -> (Vec<i64>, Vec<V>) {
    match (field(value, "tags"), field(value, "records")) {
        (V::A(tags), V::L(records)) => (tags.clone(), records.clone()),
        _ => panic!("HARNESS: not a list"),
    }
}

pub fn c07(src: &mut Source, case: &mut Case) -> Outcome {
    use crate::proj::Proj;
    use opentype::layout::{feature, script, Feature, Features, Language, Script, Scripts};
    use opentype::tables::{GlyphPositioning, GlyphSubstitution};
    use opentype::truetype::Tag;
    let name = *src.pick(kinds::DIRECTORY);
    let kind = kinds::find(name);
    let plan = Plan::draw(src, true);
    let (made, decoded) = attempt!(valid(kind, src, &plan, case));
    let expected = decoded.result.as_ref().unwrap();
    let base = base(src);
    let mut tape = Tape::at(&made.image, base);
    if let Err(message) = compare(expected, read(kind, &mut tape, false), kind, "a directory") {
        return Outcome::Fail(message);
    }
    let mut alien: Vec<u32> = [b"DFLT", b"dflt", b"latn"].map(|tag| u32::from_be_bytes(*tag)).to_vec();
    alien.extend([0, src.below(1 << 32) as u32]);
    // All tags of a registry.
    match src.below(10) {
        7 => alien.extend(crate::registry::SCRIPTS.iter().map(|row| u32::from_be_bytes(*row.0))),
        8 => alien.extend(crate::registry::FEATURES.iter().map(|row| u32::from_be_bytes(*row.0))),
        9 => alien.extend(crate::registry::LANGUAGES.iter().map(|row| u32::from_be_bytes(*row.0))),
        _ => {}
    }
    let near = src.below(32);
    let queries = |tags: &[i64], alien: &mut Vec<u32>| -> Vec<u32> {
        let mut queries = alien.clone();
        for tag in tags.iter().take(60).chain(tags.iter().rev().take(10)) {
            queries.push(*tag as u32);
            queries.push(*tag as u32 ^ 1 << near);
        }
        queries
    };
    let to_tag = |query: u32| Tag(query.to_be_bytes());
    let check_script = |record: &script::Record, expected: &V, case: &mut Case, alien: &mut Vec<u32>| {
        let (tags, records) = listed(expected);
        lookup_all(
            "language",
            &tags,
            &records,
            &queries(&tags, alien),
            &|query| {
                let tag = to_tag(query);
                vec![record.get(tag).cloned(), record.get(Language::from_tag(&tag)).cloned()]
            },
            &|record| record.v(),
            case,
        )
    };
    let check_scripts = |scripts: &Scripts, expected: &V, case: &mut Case, alien: &mut Vec<u32>| {
        let (tags, records) = listed(expected);
        lookup_all(
            "script",
            &tags,
            &records,
            &queries(&tags, alien),
            &|query| {
                let tag = to_tag(query);
                vec![scripts.get(tag).cloned(), scripts.get(Script::from_tag(&tag)).cloned()]
            },
            &|record| record.v(),
            case,
        )?;
        for (record, expected) in scripts.records.iter().zip(&records).take(20) {
            check_script(record, expected, case, alien)?;
        }
        Ok(())
    };
    let check_features = |features: &Features, expected: &V, case: &mut Case, alien: &mut Vec<u32>| {
        let (tags, records) = listed(expected);
        lookup_all(
            "feature",
            &tags,
            &records,
            &queries(&tags, alien),
            &|query| {
                let tag = to_tag(query);
                vec![features.get(tag).cloned(), features.get(Feature::from_tag(&tag)).cloned()]
            },
            &|record: &feature::Record| record.v(),
            case,
        )
    };
    let mut tape = Tape::at(&made.image, base);
    macro_rules! take(($type:ty) => (<$type as opentype::value::Read>::read(&mut tape).expect("HARNESS: read before")));
    let result = guard(|| match name {
        "scripts" => check_scripts(&take!(Scripts), expected, case, &mut alien),
        "features" => check_features(&take!(Features), expected, case, &mut alien),
        "script" => check_script(&take!(script::Record), expected, case, &mut alien),
        "gsub" => {
            let table = take!(GlyphSubstitution);
            check_scripts(&table.scripts, field(expected, "scripts"), case, &mut alien)?;
            check_features(&table.features, field(expected, "features"), case, &mut alien)
        }
        "gpos" => {
            let table = take!(GlyphPositioning);
            check_scripts(&table.scripts, field(expected, "scripts"), case, &mut alien)?;
            check_features(&table.features, field(expected, "features"), case, &mut alien)
        }
        _ => Ok(()),
    });
    match result {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(message)) => Outcome::Fail(message),
        Err(panic) => Outcome::Fail(format!("panicked looking tags up: {panic}")),
    }
}
