//! The registries of tags.

use opentype::layout::{Feature, Language, Script};
use opentype::truetype::Tag;

use crate::engine::{guard, mix, Case, Outcome, Source};
use crate::registry::{FEATURES, LANGUAGES, SCRIPTS};

fn number(tag: &[u8; 4]) -> u32 {
    u32::from_be_bytes(*tag)
}

/// The number of registered tags, each registry for itself.
pub const ROWS: u64 = (SCRIPTS.len() + FEATURES.len() + LANGUAGES.len()) as u64;

/// Language systems of the registry; the default one is there by request only.
fn language_listed(tag: &[u8; 4]) -> bool {
    tag != b"DFLT" || cfg!(feature = "lang")
}

struct Found {
    debug: String,
    name: Option<&'static str>,
    codes: Vec<&'static str>,
    back: [u8; 4],
    other: Option<[u8; 4]>,
}

fn script(tag: u32) -> Found {
    let value = Script::from_tag(&Tag(tag.to_be_bytes()));
    Found {
        debug: format!("{value:?}"),
        name: value.name(),
        codes: vec![],
        back: Tag::from(value).0,
        other: if let Script::Other(tag) = value { Some(tag.0) } else { None },
    }
}

fn feature(tag: u32) -> Found {
    let value = Feature::from_tag(&Tag(tag.to_be_bytes()));
    Found {
        debug: format!("{value:?}"),
        name: value.name(),
        codes: vec![],
        back: Tag::from(value).0,
        other: if let Feature::Other(tag) = value { Some(tag.0) } else { None },
    }
}

fn language(tag: u32) -> Found {
    let value = Language::from_tag(&Tag(tag.to_be_bytes()));
    Found {
        debug: format!("{value:?}"),
        name: value.name(),
        codes: value.codes().collect(),
        back: Tag::from(value).0,
        other: if let Language::Other(tag) = value { Some(tag.0) } else { None },
    }
}

type Row = (&'static [u8; 4], &'static str, &'static str, &'static str);

fn rows(which: usize) -> Vec<Row> {
    match which {
        0 => SCRIPTS.iter().map(|row| (row.0, row.1, row.2, "")).collect(),
        1 => FEATURES.iter().map(|row| (row.0, row.1, row.2, "")).collect(),
        _ => LANGUAGES.iter().filter(|row| language_listed(row.0)).copied().collect(),
    }
}

/// What a tag stands for, of which there may be two.
fn meaning(which: usize, tag: u32) -> Vec<Row> {
    use std::collections::HashMap;
    use std::sync::OnceLock;
    static MAPS: OnceLock<Vec<HashMap<u32, Vec<Row>>>> = OnceLock::new();
    MAPS.get_or_init(|| {
        (0..3)
            .map(|which| {
                let mut map: HashMap<u32, Vec<Row>> = HashMap::new();
                for row in rows(which) {
                    map.entry(number(row.0)).or_default().push(row);
                }
                map
            })
            .collect()
    })[which]
        .get(&tag)
        .cloned()
        .unwrap_or_default()
}

const WHAT: [&str; 3] = ["script", "feature", "language"];

/// One tag in one registry.
fn check(which: usize, tag: u32) -> Result<bool, String> {
    let bytes = tag.to_be_bytes();
    let what = format!("{} {:?} ({tag:#010x})", WHAT[which], String::from_utf8_lossy(&bytes));
    let found = guard(|| match which {
        0 => script(tag),
        1 => feature(tag),
        _ => language(tag),
    })
    .map_err(|panic| format!("{what}: panicked: {panic}"))?;
    if found.back != bytes {
        return Err(format!("{what}: maps back to {:?}", String::from_utf8_lossy(&found.back)));
    }
    let rows = meaning(which, tag);
    if rows.is_empty() {
        if found.other != Some(bytes) {
            return Err(format!("{what}: not registered but found as {}", found.debug));
        }
        if found.name.is_some() || !found.codes.is_empty() {
            return Err(format!("{what}: not registered but has a name or codes: {:?} {:?}", found.name, found.codes));
        }
        return Ok(false);
    }
    let good = rows.iter().any(|row| {
        let codes: Vec<&str> = row.3.split(", ").filter(|code| !code.is_empty()).collect();
        found.debug == row.2 && found.name == Some(row.1) && found.codes == codes
    });
    if !good {
        return Err(format!(
            "{what}: registered as {rows:?} but found as {} named {:?} with {:?}",
            found.debug, found.name, found.codes
        ));
    }
    Ok(true)
}

/// A registered tag and what is close to it.
pub fn registered(src: &mut Source, case: &mut Case) -> Outcome {
    let at = src.below(ROWS) as usize;
    let (which, tag, name) = if at < SCRIPTS.len() {
        (0, SCRIPTS[at].0, SCRIPTS[at].1)
    } else if at < SCRIPTS.len() + FEATURES.len() {
        let at = at - SCRIPTS.len();
        (1, FEATURES[at].0, FEATURES[at].1)
    } else {
        let at = at - SCRIPTS.len() - FEATURES.len();
        (2, LANGUAGES[at].0, LANGUAGES[at].1)
    };
    case.class(format!("registered {}", WHAT[which]));
    case.hash = mix(at as u64);
    case.nontrivial = true;
    case.sample = format!("{} {:?} ({name}) and what is close to it", WHAT[which], String::from_utf8_lossy(tag));
    let mut queries = vec![number(tag)];
    for bit in 0..32 {
        queries.push(number(tag) ^ 1 << bit);
    }
    for at in 0..4 {
        let mut close = *tag;
        close[at] = close[at].wrapping_add(1);
        queries.push(number(&close));
        close[at] = b' ';
        queries.push(number(&close));
        close[at] = 0;
        queries.push(number(&close));
    }
    let mut upper = *tag;
    upper.make_ascii_uppercase();
    let mut lower = *tag;
    lower.make_ascii_lowercase();
    queries.extend([number(&upper), number(&lower), number(tag).rotate_left(8), number(tag).swap_bytes()]);
    for (i, query) in queries.iter().enumerate() {
        for registry in 0..3 {
            case.count("tags x registries", 1);
            match check(registry, *query) {
                Ok(listed) => {
                    if i == 0 && registry == which && !listed && (which < 2 || language_listed(tag)) {
                        panic!("HARNESS: a registered tag is not listed");
                    }
                    if listed {
                        case.count("registered tags met", 1);
                    }
                }
                Err(message) => return Outcome::Fail(message),
            }
        }
    }
    Outcome::Pass
}

/// Arbitrary tags, most of them printable.
pub fn arbitrary(src: &mut Source, case: &mut Case) -> Outcome {
    let mut rng = crate::engine::Rng(src.raw());
    let alphabet = src.below(5);
    case.class(["any bytes", "letters", "capitals", "digits and letters", "spliced registered tags"][alphabet as usize]);
    case.hash = mix(rng.0 ^ alphabet);
    case.nontrivial = true;
    let mut first = 0;
    for i in 0..256 {
        let mut tag = [0; 4];
        for (at, b) in tag.iter_mut().enumerate() {
            *b = match alphabet {
                0 => rng.below(256) as u8,
                1 => b'a' + rng.below(26) as u8,
                2 => *b"ABCDEFGHIJKLMNOPQRSTUVWXYZ "[..].get(rng.below(27) as usize).unwrap(),
                3 => *b"0123456789csvhnlt "[..].get(rng.below(18) as usize).unwrap(),
                _ => match rng.below(3) {
                    0 => SCRIPTS[rng.below(SCRIPTS.len() as u64) as usize].0[at],
                    1 => FEATURES[rng.below(FEATURES.len() as u64) as usize].0[at],
                    _ => LANGUAGES[rng.below(LANGUAGES.len() as u64) as usize].0[at],
                },
            };
        }
        if i == 0 {
            first = number(&tag);
        }
        for registry in 0..3 {
            case.count("tags x registries", 1);
            match check(registry, number(&tag)) {
                Ok(listed) => {
                    if listed {
                        case.count("registered tags met", 1);
                    }
                }
                Err(message) => return Outcome::Fail(message),
            }
        }
    }
    case.sample = format!("256 tags, the first one being {first:#010x}");
    Outcome::Pass
}

/// All the tags with the given first half.
pub fn exhaustive(src: &mut Source, case: &mut Case) -> Outcome {
    let half = src.below(1 << 16) as u32;
    case.class(format!("first byte {:x}x", half >> 12));
    case.hash = mix(half as u64);
    case.nontrivial = true;
    case.sample = format!("all tags from {:#010x} to {:#010x}", half << 16, half << 16 | 0xFFFF);
    let mut listed: Vec<Vec<u32>> = vec![];
    for which in 0..3 {
        let mut tags: Vec<u32> = rows(which).iter().map(|row| number(row.0)).filter(|tag| tag >> 16 == half).collect();
        tags.sort();
        listed.push(tags);
    }
    for low in 0..1 << 16 {
        let tag = half << 16 | low;
        let value = Tag(tag.to_be_bytes());
        macro_rules! quick(
            ($which:literal, $type:ident, |$found:ident| $more:expr) => (
                if listed[$which].binary_search(&tag).is_err() {
                    let $found = $type::from_tag(&value);
                    let kept = matches!($found, $type::Other(other) if other == value);
                    if !kept || $found.name().is_some() || Tag::from($found) != value || $more {
                        return match check($which, tag) {
                            Err(message) => Outcome::Fail(message),
                            Ok(_) => panic!("HARNESS: the two ways of checking disagree"),
                        };
                    }
                } else if let Err(message) = check($which, tag) {
                    return Outcome::Fail(message);
                }
            );
        );
        quick!(0, Script, |_found| false);
        quick!(1, Feature, |_found| false);
        quick!(2, Language, |found| found.codes().next().is_some());
    }
    case.count("tags x registries", 3 << 16);
    Outcome::Pass
}
