//! Font files: a generator with its own model of the offset table and checksums.

use std::fmt::Debug;
use std::io::{Read as _, Result as Io};
use std::sync::OnceLock;

use opentype::postscript::compact1::FontSet;
use opentype::tables::{ColorPalettes, FontVariations, GlyphDefinition, GlyphPositioning, GlyphSubstitution};
use opentype::truetype::tables::{
    CharacterMapping, FontHeader, GlyphData, GlyphMapping, HorizontalHeader, HorizontalMetrics, MaximumProfile, Names,
    PostScript, WindowsMetrics,
};
use opentype::{File, Font, Table};

use crate::checks::{decode_limited, faults, make};
use crate::codec::{Cfg, Dec, Plan, E};
use crate::engine::{guard, Case, Outcome, Source};
use crate::image::Image;
use crate::kinds;
use crate::proj::Proj;
use crate::tape::Tape;
use crate::value::{diff, V};

pub const KNOWN: [&[u8; 4]; 16] = [
    b"CFF ", b"CPAL", b"GDEF", b"GPOS", b"GSUB", b"OS/2", b"cmap", b"fvar", b"glyf", b"head", b"hhea", b"hmtx",
    b"loca", b"maxp", b"name", b"post",
];

/// The tables whose readers belong to the project.
pub fn own(tag: &[u8; 4]) -> Option<&'static str> {
    match tag {
        b"CPAL" => Some("cpal"),
        b"GDEF" => Some("gdef"),
        b"GPOS" => Some("gpos"),
        b"GSUB" => Some("gsub"),
        b"fvar" => Some("fvar"),
        _ => None,
    }
}

// The types.

/// What some tables need in order to be read.
pub struct Given {
    pub head: FontHeader,
    pub hhea: HorizontalHeader,
    pub maxp: MaximumProfile,
    pub loca: GlyphMapping,
}

pub struct Slot {
    pub tag: &'static [u8; 4],
    pub exists: fn(&Font) -> bool,
    pub position: fn(&Font, &mut Tape) -> Io<Option<()>>,
    pub take: fn(&Font, &mut Tape, &Given) -> Io<Option<V>>,
    /// Read without a font.
    pub direct: fn(&mut Tape, &Given) -> Io<V>,
}

fn printed<T: Debug>(value: &T) -> V {
    V::B(format!("{value:?}").into_bytes())
}

/// Printed irrespective of order, as some collections have none.
fn jumbled<T: Debug>(value: &T) -> V {
    let mut bytes = format!("{value:?}").into_bytes();
    bytes.sort_unstable();
    V::B(bytes)
}

macro_rules! slot {
    (@at $tag:literal, $type:ty, $take:expr, $direct:expr) => {
        Slot {
            tag: $tag,
            exists: |font| font.exists::<$type>(),
            position: |font, tape| font.position::<_, $type>(tape),
            take: $take,
            direct: $direct,
        }
    };
    (own $tag:literal, $type:ty) => {
        slot!(
            @at $tag, $type,
            |font, tape, _| Ok(font.take::<_, $type>(tape)?.map(|value| value.v())),
            |tape, _| Ok(<$type as opentype::value::Read>::read(tape)?.v())
        )
    };
    (plain $tag:literal, $type:ty) => {
        slot!(
            @at $tag, $type,
            |font, tape, _| Ok(font.take::<_, $type>(tape)?.map(|value| printed(&value))),
            |tape, _| Ok(printed(&<$type as opentype::value::Read>::read(tape)?))
        )
    };
    (jumbled $tag:literal, $type:ty) => {
        slot!(
            @at $tag, $type,
            |font, tape, _| Ok(font.take::<_, $type>(tape)?.map(|value| jumbled(&value))),
            |tape, _| Ok(jumbled(&<$type as opentype::value::Read>::read(tape)?))
        )
    };
    (given $tag:literal, $type:ty, |$given:ident| $parameter:expr) => {
        slot!(
            @at $tag, $type,
            |font, tape, $given| Ok(font.take_given::<_, $type>(tape, $parameter)?.map(|value| printed(&value))),
            |tape, $given| Ok(printed(&<$type as opentype::walue::Read>::read(tape, $parameter)?))
        )
    };
}

pub static SLOTS: [Slot; 16] = [
    slot!(jumbled b"CFF ", FontSet),
    slot!(own b"CPAL", ColorPalettes),
    slot!(own b"GDEF", GlyphDefinition),
    slot!(own b"GPOS", GlyphPositioning),
    slot!(own b"GSUB", GlyphSubstitution),
    slot!(plain b"OS/2", WindowsMetrics),
    slot!(plain b"cmap", CharacterMapping),
    slot!(own b"fvar", FontVariations),
    slot!(given b"glyf", GlyphData, |given| &given.loca),
    slot!(plain b"head", FontHeader),
    slot!(plain b"hhea", HorizontalHeader),
    slot!(given b"hmtx", HorizontalMetrics, |given| (&given.hhea, &given.maxp)),
    slot!(given b"loca", GlyphMapping, |given| (&given.head, &given.maxp)),
    slot!(plain b"maxp", MaximumProfile),
    slot!(plain b"name", Names),
    slot!(plain b"post", PostScript),
];

#[allow(dead_code)]
fn bound<T: Table>() {}

// The model of a file.

#[derive(Clone)]
pub struct Entry {
    pub tag: [u8; 4],
    pub checksum: u32,
    pub offset: u32,
    pub size: u32,
    /// Whether the recorded checksum is the one of the contents.
    pub sound: bool,
    /// What the contents encode, where it is known from the generation.
    pub value: Option<V>,
}

pub struct Made {
    pub image: Image,
    pub entries: Vec<Entry>,
    pub version: [u8; 4],
}

impl Made {
    pub fn find(&self, tag: &[u8; 4]) -> Option<&Entry> {
        self.entries.iter().find(|entry| entry.tag == *tag)
    }
}

/// The checksum of a table: the sum of its words, the adjustment of a font header left out.
pub fn checksum(tag: &[u8; 4], bytes: &[u8]) -> u32 {
    let mut total = 0u32;
    for (i, chunk) in bytes.chunks(4).enumerate() {
        let mut word = [0; 4];
        word[..chunk.len()].copy_from_slice(chunk);
        if tag != b"head" || i != 2 {
            total = total.wrapping_add(u32::from_be_bytes(word));
        }
    }
    total
}

fn words(out: &mut Vec<u8>, words: &[u16]) {
    for word in words {
        out.extend(word.to_be_bytes());
    }
}

fn font_header(src: &mut Source) -> Vec<u8> {
    let mut out = vec![];
    words(&mut out, &[1, 0]);
    out.extend((src.below(1 << 32) as u32).to_be_bytes());
    out.extend((src.below(1 << 32) as u32).to_be_bytes());
    out.extend(0x5F0F_3CF5u32.to_be_bytes());
    words(&mut out, &[src.below(1 << 15) as u16, src.int(16) as u16]);
    out.extend(src.raw().to_be_bytes());
    out.extend(src.raw().to_be_bytes());
    for _ in 0..4 {
        words(&mut out, &[src.below(1 << 16) as u16]);
    }
    words(&mut out, &[src.below(1 << 7) as u16, src.below(1 << 16) as u16, src.below(5) as u16, src.below(2) as u16, 0]);
    out
}

fn horizontal_header(src: &mut Source) -> Vec<u8> {
    let mut out = vec![];
    words(&mut out, &[1, 0]);
    for _ in 0..15 {
        words(&mut out, &[src.below(1 << 16) as u16]);
    }
    words(&mut out, &[1 + src.below(4) as u16]);
    out
}

fn maximum_profile(src: &mut Source) -> Vec<u8> {
    let mut out = vec![];
    let short = src.chance(1, 2);
    out.extend(if short { 0x0000_5000u32 } else { 0x0001_0000 }.to_be_bytes());
    words(&mut out, &[3 + src.below(6) as u16]);
    if !short {
        for _ in 0..13 {
            words(&mut out, &[src.below(1 << 16) as u16]);
        }
    }
    out
}

fn names(src: &mut Source) -> Vec<u8> {
    let count = src.below(4) as u16;
    let mut out = vec![];
    words(&mut out, &[0, count, 6 + 12 * count]);
    for _ in 0..count {
        words(&mut out, &[0, src.below(4) as u16, 0, src.below(20) as u16, src.below(4) as u16, src.below(3) as u16]);
    }
    for _ in 0..8 {
        out.push(src.below(128) as u8);
    }
    out
}

fn postscript(src: &mut Source) -> Vec<u8> {
    let mut out = vec![];
    out.extend(src.pick(&[0x0003_0000u32, 0x0001_0000]).to_be_bytes());
    for _ in 0..14 {
        words(&mut out, &[src.below(1 << 16) as u16]);
    }
    out
}

fn noise(src: &mut Source, least: u64, most: u64) -> Vec<u8> {
    let n = src.within(least, most);
    (0..n).map(|_| src.below(256) as u8).collect()
}

/// A font set without fonts. What is not well formed may have its reader ask for gigabytes.
fn font_set(src: &mut Source) -> Vec<u8> {
    fn index(src: &mut Source, bytes: &mut Vec<u8>) {
        let items: Vec<Vec<u8>> = (0..src.below(4)).map(|_| noise(src, 0, 8)).collect();
        words(bytes, &[items.len() as u16]);
        if items.is_empty() {
            return;
        }
        bytes.push(1);
        let mut at = 1;
        bytes.push(at);
        for item in &items {
            at += item.len() as u8;
            bytes.push(at);
        }
        for item in items {
            bytes.extend(item);
        }
    }
    let mut bytes = vec![1, 0, 4, 1];
    if src.chance(1, 4) {
        // Offsets of seven bytes.
        bytes.extend([0, 1, 7]);
        bytes.extend(noise(src, 0, 40));
        return bytes;
    }
    index(src, &mut bytes);
    words(&mut bytes, &[0]);
    index(src, &mut bytes);
    index(src, &mut bytes);
    bytes
}

/// The contents of a table and, if one of ours, its value.
fn contents(tag: &[u8; 4], src: &mut Source, size: i64) -> Result<(Vec<u8>, Option<V>), Outcome> {
    if let Some(name) = own(tag) {
        let kind = kinds::find(name);
        let mut plan = Plan::small();
        plan.size = size;
        plan.arrange(src);
        let made = match make(kind, src, &plan) {
            Ok(made) => made,
            Err(E::Discard(why)) => return Err(Outcome::Discard(why)),
            Err(error) => panic!("HARNESS: generation of {name} has failed: {error:?}"),
        };
        return match crate::checks::decode(kind, &made.image, plan.cfg).result {
            Ok(value) => Ok((made.image.flatten(), Some(value))),
            Err(E::Budget) => Err(Outcome::Discard("work budget")),
            Err(error) => panic!("HARNESS: {name} generated but refused: {error:?}"),
        };
    }
    Ok((
        match tag {
            b"head" => font_header(src),
            b"hhea" => horizontal_header(src),
            b"maxp" => maximum_profile(src),
            b"name" => names(src),
            b"post" => postscript(src),
            b"OS/2" => {
                let mut bytes = noise(src, 78, 78);
                bytes[..2].copy_from_slice(&[0, 0]);
                // Reserved bits of the two sets of flags.
                bytes[8..10].copy_from_slice(&[0, 0]);
                bytes[62..64].copy_from_slice(&[0, src.below(128) as u8]);
                bytes
            }
            b"CFF " => font_set(src),
            b"hmtx" | b"loca" => noise(src, 36, 60),
            _ => noise(src, 0, 50),
        },
        None,
    ))
}

#[derive(Clone, Copy)]
pub struct Wish {
    /// How often a known table is included, out of 8.
    pub density: u64,
    pub corrupt: bool,
    pub size: i64,
    pub far: bool,
    /// Only tables whose readers belong to the project.
    pub own: bool,
    /// Sometimes a table followed by up to megabytes that belong to it.
    pub large: bool,
}

pub fn generate(src: &mut Source, wish: Wish) -> Result<Made, Outcome> {
    let mut version = *src.pick(&[*b"\0\x01\0\0", *b"OTTO", *b"true", *b"typ1"]);
    if src.chance(1, 400) {
        version = *b"\0\x01\0\0";
    }
    let mut tags: Vec<[u8; 4]> = vec![];
    for tag in KNOWN {
        if (!wish.own || own(tag).is_some()) && src.chance(wish.density, 8) {
            tags.push(*tag);
        }
    }
    if !wish.own {
        let others = if wish.large && src.chance(1, 100) { (1 << src.within(2, 11)) + src.below(4) } else { src.below(4) };
        for _ in 0..others {
            let mut tag = match src.below(3) {
                0 => **src.pick(&[b"kern", b"DSIG", b"GASP", b"zzzz", b"\0\0\0\0", b"CFF2", b"BASE", b"HVAR"]),
                1 => (src.below(1 << 32) as u32).to_be_bytes(),
                _ => **src.pick(&KNOWN),
            };
            if KNOWN.contains(&&tag) {
                // Close to a known one.
                let at = src.below(4) as usize;
                tag[at] ^= 1 << src.below(8);
            }
            if !tags.contains(&tag) && !KNOWN.contains(&&tag) {
                tags.push(tag);
            }
        }
    }
    if tags.is_empty() && src.chance(3, 4) {
        tags.push(*b"GDEF");
    }
    // The order of records.
    let mut order: Vec<usize> = (0..tags.len()).collect();
    if src.chance(2, 3) {
        for i in (1..order.len()).rev() {
            order.swap(i, src.below(i as u64 + 1) as usize);
        }
    }
    let tags: Vec<[u8; 4]> = order.iter().map(|i| tags[*i]).collect();
    let mut bodies = vec![];
    for tag in &tags {
        bodies.push(contents(tag, src, wish.size)?);
    }
    // The order of contents.
    let mut order: Vec<usize> = (0..tags.len()).collect();
    if src.chance(2, 3) {
        for i in (1..order.len()).rev() {
            order.swap(i, src.below(i as u64 + 1) as usize);
        }
    }
    let corruptions: Vec<bool> = match if wish.corrupt { src.below(3) } else { 0 } {
        0 => vec![false; tags.len()],
        1 => {
            let only = src.below(tags.len() as u64);
            (0..tags.len()).map(|i| i as u64 == only).collect()
        }
        _ => (0..tags.len()).map(|_| src.chance(1, 2)).collect(),
    };
    let mut entries: Vec<Option<Entry>> = vec![None; tags.len()];
    let mut image = Image { segs: vec![], len: 0, fill: 1 + src.below(1 << 32) };
    let mut at = 12 + 16 * tags.len() as u64;
    let far = if wish.far && src.chance(1, 3) { Some(src.below(tags.len() as u64) as usize) } else { None };
    let large = if wish.large && !tags.is_empty() && src.chance(1, 60) {
        // One that is decoded by the project, preferably.
        let own: Vec<usize> = (0..tags.len()).filter(|i| own(&tags[*i]).is_some()).collect();
        Some(if own.is_empty() { src.below(tags.len() as u64) as usize } else { *src.pick(&own) })
    } else {
        None
    };
    for (k, i) in order.iter().copied().enumerate() {
        let tag = tags[i];
        let (mut bytes, mut value) = bodies[i].clone();
        if large == Some(i) {
            // What follows the contents belongs to the table nonetheless.
            let extra = match src.below(4) {
                0 => src.within(200, 70_000),
                1 => src.within(60_000, 300_000),
                2 => src.within(1 << 17, 1 << 20),
                _ => (1 << src.within(8, 21)) + src.below(5),
            };
            let seed = src.below(1 << 32);
            bytes.extend((0..extra).map(|i| (crate::engine::mix(seed ^ (i / 8)) >> (8 * (i % 8))) as u8));
        }
        let size = bytes.len() as u32;
        at += match src.below(4) {
            0 | 1 => 0,
            2 => 4 * src.below(8),
            _ => src.below(30),
        };
        if far == Some(i) {
            // What is yet to be placed has to start before the end of what can be expressed.
            let left: u64 = order[k..].iter().map(|i| bodies[*i].0.len() as u64 + 40).sum::<u64>() + (3 << 20);
            let room = (1u64 << 32) - at - left;
            at += match src.below(4) {
                0 => src.below(1 << 30) << src.below(2),
                1 => src.below(room),
                2 => room - src.below(1 << 20),
                // The last one may well extend beyond.
                _ if k + 1 == order.len() => (1 << 32) - 1 - at - src.below(2 * bytes.len() as u64 + 16),
                _ => room,
            };
        }
        let correct = checksum(&tag, &bytes);
        let mut recorded = correct;
        if corruptions[i] {
            match src.below(6) {
                0 => recorded = correct.wrapping_add(1),
                1 => recorded = 0,
                2 => recorded = correct.swap_bytes(),
                3 => recorded ^= 1 << src.below(32),
                4 => recorded = src.below(1 << 32) as u32,
                _ => {
                    if !bytes.is_empty() {
                        let at = if src.chance(1, 2) { bytes.len() as u64 - 1 } else { src.below(bytes.len() as u64) };
                        bytes[at as usize] ^= 1 << src.below(8);
                        value = None;
                    }
                }
            }
        } else if &tag == b"head" && bytes.len() > 11 {
            // The adjustment does not count.
            bytes[8 + src.below(4) as usize] ^= src.below(256) as u8;
        }
        let sound = recorded == checksum(&tag, &bytes);
        entries[i] = Some(Entry { tag, checksum: recorded, offset: at as u32, size, sound, value });
        // The last word is completed by bytes that do not belong to the table.
        while bytes.len() % 4 != 0 {
            bytes.push(src.below(256) as u8);
        }
        let n = bytes.len() as u64;
        if n > 0 {
            image.segs.push((at, bytes));
        }
        at += n;
    }
    let mut entries: Vec<Entry> = entries.into_iter().map(Option::unwrap).collect();
    let mut head = vec![];
    head.extend(version);
    let count = entries.len() as u16;
    words(&mut head, &[count]);
    // What is there for binary search is of no consequence, be it right or wrong.
    let log = 15 - (count.max(1)).leading_zeros() as u16;
    for right in [16 << log, log, (count << 4).saturating_sub(16 << log)] {
        let value = match src.below(4) {
            0 => right,
            1 => 0,
            2 => src.below(64) as u16,
            _ => src.below(1 << 16) as u16,
        };
        words(&mut head, &[value]);
    }
    // Tables of others may share bytes with any of the tables and with the header.
    for i in 0..entries.len() {
        if KNOWN.contains(&&entries[i].tag) || !src.chance(1, 6) {
            continue;
        }
        let (offset, bytes) = match src.below(8) {
            0 => {
                let at = src.below(12) as usize;
                let to = at + src.below(13 - at as u64) as usize;
                (at as u32, head[at..to].to_vec())
            }
            _ => {
                let other = src.below(entries.len() as u64) as usize;
                let (offset, size) = (entries[other].offset, entries[other].size);
                if size == 0 || offset.checked_add(size).is_none() {
                    continue;
                }
                let at = if src.chance(1, 3) { 0 } else { src.below(size as u64) as u32 };
                let size = if src.chance(1, 3) { size - at } else { src.below((size - at) as u64 + 1) as u32 };
                let mut bytes = vec![0; size as usize];
                image.segs.sort_by_key(|seg| seg.0);
                image.get((offset + at) as u64, &mut bytes);
                (offset + at, bytes)
            }
        };
        let entry = &mut entries[i];
        entry.offset = offset;
        entry.size = bytes.len() as u32;
        if entry.sound {
            entry.checksum = checksum(&entry.tag, &bytes);
        }
        entry.sound = entry.checksum == checksum(&entry.tag, &bytes);
    }
    for entry in &entries {
        head.extend(entry.tag);
        head.extend(entry.checksum.to_be_bytes());
        head.extend(entry.offset.to_be_bytes());
        head.extend(entry.size.to_be_bytes());
    }
    image.segs.insert(0, (0, head));
    image.segs.sort_by_key(|seg| seg.0);
    image.len = at + src.below(3) * src.below(40);
    Ok(Made { image, entries, version })
}

/// What some tables need, out of the file as far as it is there.
pub fn given(made: &Made) -> Given {
    fn take<T: opentype::value::Read>(made: &Made, tag: &[u8; 4]) -> Option<T> {
        let entry = made.find(tag)?;
        let mut tape = Tape::new(&made.image);
        tape.pos = entry.offset as u64;
        guard(|| T::read(&mut tape)).ok()?.ok()
    }
    fn default<T: opentype::value::Read>(bytes: Vec<u8>) -> T {
        let image = Image::from_bytes(bytes);
        T::read(&mut Tape::new(&image)).unwrap_or_else(|error| panic!("HARNESS: a default table: {error}"))
    }
    let zero = || Source::replay(&[]);
    let head = take(made, b"head").unwrap_or_else(|| default(font_header(&mut zero())));
    let hhea = take(made, b"hhea").unwrap_or_else(|| default(horizontal_header(&mut zero())));
    let maxp = take(made, b"maxp").unwrap_or_else(|| default(maximum_profile(&mut zero())));
    let loca = made.find(b"loca").and_then(|entry| {
        let mut tape = Tape::new(&made.image);
        tape.pos = entry.offset as u64;
        guard(|| <GlyphMapping as opentype::walue::Read>::read(&mut tape, (&head, &maxp))).ok()?.ok()
    });
    let loca = loca.unwrap_or_else(|| GlyphMapping::HalfOffsets(vec![0; 4]));
    Given { head, hhea, maxp, loca }
}

/// What taking a table is to give.
#[derive(Clone, Debug, PartialEq)]
pub enum Expected {
    Nothing,
    Refused,
    /// The contents cannot be decoded.
    Undecodable,
    Value(V),
    /// A dependency panics on these contents.
    Unclear,
    /// By chance, the contents call for so much work that they are not to be taken.
    Endless,
}

pub fn expected(made: &Made, slot: &Slot, given: &Given) -> Expected {
    let Some(entry) = made.find(slot.tag) else { return Expected::Nothing };
    if !entry.sound && !cfg!(feature = "sums") {
        return Expected::Refused;
    }
    if let Some(value) = &entry.value {
        return Expected::Value(value.clone());
    }
    if let Some(kind) = own(slot.tag) {
        let mut dec = Dec::starting(&made.image, Cfg::built(), 48 << 20, entry.offset as u64);
        let result = (kinds::find(kind).dec)(&mut dec);
        return match dec.conclude(result) {
            Ok(value) => Expected::Value(value),
            Err(E::Budget) => Expected::Endless,
            Err(_) => Expected::Undecodable,
        };
    }
    let mut tape = Tape::new(&made.image);
    tape.pos = entry.offset as u64;
    match guard(|| (slot.direct)(&mut tape, given)) {
        Err(_) => Expected::Unclear,
        Ok(Err(_)) => Expected::Undecodable,
        Ok(Ok(value)) => Expected::Value(value),
    }
}

fn name(slot: &Slot) -> String {
    String::from_utf8_lossy(slot.tag).into_owned()
}

pub fn agree(expected: &Expected, found: Result<Io<Option<V>>, String>, what: &str) -> Result<(), String> {
    match (expected, found) {
        (Expected::Unclear | Expected::Endless, _) => Ok(()),
        (_, Err(panic)) => Err(format!("{what}: panicked: {panic}")),
        (Expected::Nothing, Ok(Ok(None))) => Ok(()),
        (Expected::Nothing, Ok(Ok(Some(_)))) => Err(format!("{what}: a value although the table is not listed")),
        (Expected::Nothing, Ok(Err(error))) => Err(format!("{what}: not listed but refused: {error}")),
        (Expected::Refused, Ok(Err(_))) => Ok(()),
        (Expected::Refused, Ok(Ok(_))) => Err(format!("{what}: accepted in spite of a wrong checksum")),
        (Expected::Undecodable, Ok(Err(_))) => Ok(()),
        (Expected::Undecodable, Ok(Ok(value))) => {
            Err(format!("{what}: {} but refused when decoded directly", if value.is_some() { "a value" } else { "nothing" }))
        }
        (Expected::Value(_), Ok(Err(error))) => Err(format!("{what}: refused: {error}")),
        (Expected::Value(_), Ok(Ok(None))) => Err(format!("{what}: listed but not found")),
        (Expected::Value(expected), Ok(Ok(Some(found)))) => match diff(expected, &found) {
            Some(difference) => Err(format!("{what}: {difference}")),
            None => Ok(()),
        },
    }
}

/// One probe of one table.
fn probe(
    made: &Made,
    slot: &Slot,
    font: &Font,
    tape: &mut Tape,
    given: &Given,
    expected: &Expected,
    action: u64,
) -> Result<(), String> {
    let entry = made.find(slot.tag);
    match action {
        0 => {
            let what = format!("existence of {}", name(slot));
            let found = guard(|| (slot.exists)(font)).map_err(|panic| format!("{what}: panicked: {panic}"))?;
            if found != entry.is_some() {
                return Err(format!("{what}: {found}"));
            }
        }
        1 => {
            let what = format!("position of {}", name(slot));
            let found = guard(|| (slot.position)(font, tape)).map_err(|panic| format!("{what}: panicked: {panic}"))?;
            match (entry, found) {
                (None, Ok(None)) => {}
                (None, _) => return Err(format!("{what}: not listed but found or refused")),
                (Some(entry), found) => {
                    let sound = entry.sound || cfg!(feature = "sums");
                    match found {
                        Ok(Some(())) if sound => {
                            if tape.pos != entry.offset as u64 {
                                return Err(format!("{what}: at {} instead of {}", tape.pos, entry.offset));
                            }
                        }
                        Ok(Some(())) => return Err(format!("{what}: accepted in spite of a wrong checksum")),
                        Ok(None) => return Err(format!("{what}: listed but not found")),
                        Err(error) if sound => return Err(format!("{what}: refused: {error}")),
                        Err(_) => {}
                    }
                }
            }
        }
        _ if *expected == Expected::Endless => {}
        _ => {
            let what = format!("taking {}", name(slot));
            let found = guard(|| (slot.take)(font, tape, given));
            agree(expected, found, &what)?;
        }
    }
    Ok(())
}

fn open(tape: &mut Tape) -> Result<Io<File>, String> {
    guard(|| File::read(tape))
}

fn describe(case: &mut Case, made: &Made) {
    case.hash = made.image.hash();
    case.nontrivial = made.entries.len() >= 2;
    case.class(format!("version:{}", String::from_utf8_lossy(&made.version).escape_debug()));
    let bad = made.entries.iter().filter(|entry| !entry.sound).count();
    case.class(match bad {
        0 => "corrupted tables:0",
        1 => "corrupted tables:1",
        _ => "corrupted tables:2+",
    });
    case.class(match made.entries.len() {
        0..=2 => "tables:0-2",
        3..=6 => "tables:3-6",
        7..=12 => "tables:7-12",
        13..=31 => "tables:13-31",
        _ => "tables:32+",
    });
    for entry in &made.entries {
        if KNOWN.contains(&&entry.tag) {
            case.class(format!(
                "table:{}{}",
                String::from_utf8_lossy(&entry.tag),
                if entry.sound { "" } else { " (corrupted)" }
            ));
        } else {
            case.class("table of unknown tag");
            let within = |other: &Entry| {
                other.tag != entry.tag && entry.offset >= other.offset && entry.offset - other.offset < other.size
            };
            if entry.size > 0 && made.entries.iter().any(within) {
                case.class("table of unknown tag sharing bytes");
            }
        }
        if entry.offset >= 1 << 31 {
            case.class("table beyond 2 GiB");
        }
        if entry.size % 4 != 0 {
            case.class("size not a multiple of four");
        }
    }
    case.sample = format!(
        "font {:?} with {}",
        String::from_utf8_lossy(&made.version),
        made.entries
            .iter()
            .map(|entry| {
                format!(
                    "{}@{}+{}{}",
                    String::from_utf8_lossy(&entry.tag).escape_debug(),
                    entry.offset,
                    entry.size,
                    if entry.sound { "" } else { " corrupted" }
                )
            })
            .collect::<Vec<_>>()
            .join(", ")
    );
    if case.verbose {
        println!("{}", case.sample);
        for (at, data) in &made.image.segs {
            println!("  at {at}: {}", data.iter().take(400).map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" "));
        }
    }
}

fn verify(made: &Made, src: &mut Source, case: &mut Case) -> Result<(), String> {
    let given = given(made);
    let mut tape = Tape::new(&made.image);
    let file = match open(&mut tape) {
        Err(panic) => return Err(format!("opening: panicked: {panic}")),
        Ok(Err(error)) => return Err(format!("opening: refused: {error}")),
        Ok(Ok(file)) => file,
    };
    if file.fonts.len() != 1 {
        return Err(format!("{} fonts", file.fonts.len()));
    }
    let first = src.below(16) as usize;
    for i in 0..16 {
        let slot = &SLOTS[(i + first) % 16];
        let expected = expected(made, slot, &given);
        for action in 0..3 {
            case.count("probes", 1);
            probe(made, slot, &file.fonts[0], &mut tape, &given, &expected, action)?;
        }
    }
    Ok(())
}

/// Files of unrecognised formats.
fn refused(src: &mut Source, case: &mut Case) -> Outcome {
    let wish = Wish { density: 3, corrupt: false, size: 100, far: false, own: false, large: false };
    let mut made = match generate(src, wish) {
        Ok(made) => made,
        Err(outcome) => return outcome,
    };
    let good: [[u8; 4]; 4] = [*b"\0\x01\0\0", *b"OTTO", *b"true", *b"typ1"];
    let tag = match src.below(4) {
        0 => *b"ttcf",
        1 => **src.pick(&[b"wOFF", b"wOF2", b"\0\x02\0\0", b"\0\0\x01\0", b"\x01\0\0\0", b"OTTC", b"TRUE", b"\0\0\0\0"]),
        2 => {
            let mut tag = *src.pick(&good);
            tag[src.below(4) as usize] ^= 1 << src.below(8);
            tag
        }
        _ => (src.below(1 << 32) as u32).to_be_bytes(),
    };
    let recognised = good.contains(&tag);
    for (i, b) in tag.iter().enumerate() {
        made.image.set(i as u64, *b);
    }
    if &tag == b"ttcf" && src.chance(1, 2) {
        // A collection with one font.
        let mut bytes = tag.to_vec();
        bytes.extend([0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 16]);
        let rest = made.image.flatten();
        bytes.extend(&rest[4..]);
        made.image = Image::from_bytes(bytes);
    }
    describe(case, &made);
    case.class(if &tag == b"ttcf" { "collection" } else { "other format tag" });
    case.nontrivial = true;
    case.sample = format!("format tag {tag:?}");
    let accepted = opentype::accept(&opentype::truetype::Tag(tag));
    if accepted != (recognised || &tag == b"ttcf") {
        return Outcome::Fail(format!("format tag {tag:?}: recognised: {accepted}"));
    }
    let mut tape = Tape::new(&made.image);
    match open(&mut tape) {
        Err(panic) => Outcome::Fail(format!("format tag {tag:?}: panicked: {panic}")),
        Ok(Ok(_)) if !recognised => Outcome::Fail(format!("format tag {tag:?}: accepted")),
        Ok(Err(error)) if recognised => Outcome::Fail(format!("format tag {tag:?}: refused: {error}")),
        _ => Outcome::Pass,
    }
}

pub fn c08(src: &mut Source, case: &mut Case) -> Outcome {
    if src.chance(1, 8) {
        return refused(src, case);
    }
    let wish = Wish {
        density: src.within(1, 7),
        corrupt: true,
        size: *src.pick(&[60, 200, 600]),
        far: true,
        own: false,
        large: true,
    };
    let made = match generate(src, wish) {
        Ok(made) => made,
        Err(outcome) => return outcome,
    };
    describe(case, &made);
    match verify(&made, src, case) {
        Ok(()) => Outcome::Pass,
        Err(message) => Outcome::Fail(message),
    }
}

// Real fonts.

pub struct Fixture {
    pub name: String,
    pub made: Made,
}

fn parse(bytes: Vec<u8>) -> Option<Made> {
    let word = |at: usize| Some(u32::from_be_bytes(bytes.get(at..at + 4)?.try_into().ok()?));
    let version = word(0)?.to_be_bytes();
    let count = word(4)? >> 16;
    let mut entries = vec![];
    for i in 0..count as usize {
        let at = 12 + 16 * i;
        let (tag, sum, offset, size) = (word(at)?.to_be_bytes(), word(at + 4)?, word(at + 8)?, word(at + 12)?);
        let data = bytes.get(offset as usize..(offset as usize).checked_add(size as usize)?)?;
        // The last word has to be complete in the file.
        bytes.get(..(offset as usize + size as usize).div_ceil(4) * 4)?;
        entries.push(Entry { tag, checksum: sum, offset, size, sound: sum == checksum(&tag, data), value: None });
    }
    Some(Made { image: Image::from_bytes(bytes), entries, version })
}

pub fn fixtures() -> &'static [Fixture] {
    static FIXTURES: OnceLock<Vec<Fixture>> = OnceLock::new();
    FIXTURES.get_or_init(|| {
        let mut fixtures = vec![];
        let path = std::env::var("HARNESS_FIXTURES").unwrap_or("/repo/tests/fixtures".into());
        let Ok(list) = std::fs::read_dir(path) else { return fixtures };
        let mut paths: Vec<_> = list.flatten().map(|entry| entry.path()).collect();
        paths.sort();
        for path in paths {
            let mut bytes = vec![];
            let read = std::fs::File::open(&path).and_then(|mut file| file.read_to_end(&mut bytes));
            if read.is_err() || bytes.len() > 4 << 20 {
                continue;
            }
            if let Some(made) = parse(bytes) {
                let name = path.file_name().map(|name| name.to_string_lossy().into_owned()).unwrap_or_default();
                fixtures.push(Fixture { name, made });
            }
        }
        fixtures
    })
}

/// Real fonts as they are, with tables rearranged or with one byte changed.
pub fn c08_fixtures(src: &mut Source, case: &mut Case) -> Outcome {
    let fixtures = fixtures();
    if fixtures.is_empty() {
        return Outcome::Discard("no real fonts");
    }
    let fixture = &fixtures[src.below(fixtures.len() as u64) as usize];
    case.class(format!("fixture:{}", fixture.name));
    let mut made = Made {
        image: fixture.made.image.clone(),
        entries: fixture.made.entries.clone(),
        version: fixture.made.version,
    };
    if src.chance(3, 4) {
        let at = src.below(made.entries.len() as u64) as usize;
        let entry = made.entries[at].clone();
        if entry.size > 0 {
            // One byte of one table.
            let position = entry.offset as u64 + src.below(entry.size as u64);
            let bit = 1u8 << src.below(8);
            let old = made.image.byte(position);
            made.image.set(position, old ^ bit);
            for entry in &mut made.entries {
                let mut data = vec![0; entry.size as usize];
                made.image.get(entry.offset as u64, &mut data);
                entry.sound = entry.checksum == checksum(&entry.tag, &data);
            }
            case.class("one bit flipped");
        }
    }
    let swaps = if made.entries.len() > 1 { src.below(4) } else { 0 };
    for _ in 0..swaps {
        let i = src.below(made.entries.len() as u64) as usize;
        let j = src.below(made.entries.len() as u64) as usize;
        made.entries.swap(i, j);
    }
    for (i, entry) in made.entries.iter().enumerate() {
        let mut record = entry.tag.to_vec();
        record.extend(entry.checksum.to_be_bytes());
        record.extend(entry.offset.to_be_bytes());
        record.extend(entry.size.to_be_bytes());
        for (j, b) in record.iter().enumerate() {
            made.image.set((12 + 16 * i + j) as u64, *b);
        }
    }
    describe(case, &made);
    let cfg = Cfg::built();
    for entry in &mut made.entries {
        let Some(name) = own(&entry.tag) else { continue };
        let table = Image::from_bytes(made.image.segs[0].1[entry.offset as usize..].to_vec());
        entry.value = match decode_limited(kinds::find(name), &table, cfg, 24 << 20).result {
            Ok(value) => Some(value),
            _ => None,
        };
    }
    match verify(&made, src, case) {
        Ok(()) => Outcome::Pass,
        Err(message) => Outcome::Fail(format!("{}: {message}", fixture.name)),
    }
}

/// The bytes of a table of some real font.
pub fn fixture_table(kind: &str, src: &mut Source) -> Option<Vec<u8>> {
    let tables: Vec<(&Fixture, &Entry)> = fixtures()
        .iter()
        .flat_map(|fixture| fixture.made.entries.iter().map(move |entry| (fixture, entry)))
        .filter(|(_, entry)| own(&entry.tag) == Some(kind))
        .collect();
    if tables.is_empty() {
        return None;
    }
    let (fixture, entry) = tables[src.below(tables.len() as u64) as usize];
    let mut bytes = vec![0; entry.size as usize];
    fixture.made.image.get(entry.offset as u64, &mut bytes);
    Some(bytes)
}

/// The tables of real fonts one by one: what the reference finds in them.
pub fn c19_fixtures(src: &mut Source, case: &mut Case) -> Outcome {
    let tables: Vec<(&Fixture, &Entry)> = fixtures()
        .iter()
        .flat_map(|fixture| fixture.made.entries.iter().map(move |entry| (fixture, entry)))
        .filter(|(_, entry)| own(&entry.tag).is_some())
        .collect();
    if tables.is_empty() {
        return Outcome::Discard("no real fonts");
    }
    let (fixture, entry) = tables[src.below(tables.len() as u64) as usize];
    let mut bytes = vec![0; entry.size as usize];
    fixture.made.image.get(entry.offset as u64, &mut bytes);
    let kind = kinds::find(own(&entry.tag).unwrap());
    case.class(format!("fixture:{} {}", fixture.name, String::from_utf8_lossy(&entry.tag)));
    match crate::checks::judge(kind, &Image::from_bytes(bytes), case, true) {
        Outcome::Fail(message) => Outcome::Fail(format!("{}: {message}", fixture.name)),
        outcome => outcome,
    }
}

/// Take a table of the project's own kind, and drop it.
fn pass(font: &Font, tape: &mut Tape, tag: &[u8; 4]) -> Io<()> {
    match tag {
        b"CPAL" => font.take::<_, ColorPalettes>(tape).map(drop),
        b"GDEF" => font.take::<_, GlyphDefinition>(tape).map(drop),
        b"GPOS" => font.take::<_, GlyphPositioning>(tape).map(drop),
        b"GSUB" => font.take::<_, GlyphSubstitution>(tape).map(drop),
        b"fvar" => font.take::<_, FontVariations>(tape).map(drop),
        _ => unreachable!(),
    }
}

/// Memory held while fonts are opened and tables located and taken.
pub fn c22(src: &mut Source, case: &mut Case) -> Outcome {
    let wish = Wish {
        density: src.within(1, 7),
        corrupt: true,
        size: *src.pick(&[60, 600, 6000]),
        far: true,
        own: src.chance(1, 2),
        large: true,
    };
    let made = match generate(src, wish) {
        Ok(made) => made,
        Err(outcome) => return outcome,
    };
    describe(case, &made);
    // What to do, and what it may take.
    let mut steps = vec![];
    for _ in 0..src.within(2, 8) {
        let slot = src.pick(&SLOTS);
        let mut take = src.chance(2, 3);
        let mut work = 0;
        let mut sound = true;
        if let Some(entry) = made.find(slot.tag) {
            work += entry.size as u64;
            match own(slot.tag) {
                Some(kind) if take && (entry.sound || cfg!(feature = "sums")) => {
                    let mut dec = Dec::starting(&made.image, Cfg::built(), 48 << 20, entry.offset as u64);
                    let result = (kinds::find(kind).dec)(&mut dec);
                    let result = dec.conclude(result);
                    if result == Err(E::Budget) {
                        take = false;
                    }
                    sound = result.is_ok();
                    work += dec.charged + dec.reads;
                }
                _ => {}
            }
        }
        take &= own(slot.tag).is_some();
        steps.push((slot, take, crate::checks::memory_bound(work, sound)));
    }
    let work = || -> Result<(), String> {
        let mut tape = Tape::new(&made.image);
        tape.budget = 256 << 20;
        let count = made.entries.len() as u64;
        let (found, peak, _) = crate::memory::weigh(|| open(&mut tape));
        crate::checks::heavy("opening", peak, crate::checks::memory_bound(12 + 16 * count, true))?;
        let Ok(Ok(file)) = found else { return Err("opening: refused".into()) };
        for (slot, take, bound) in &steps {
            let what = format!("{} {}", if *take { "taking" } else { "position of" }, name(slot));
            let (found, peak, _) = crate::memory::weigh(|| {
                if *take {
                    guard(|| pass(&file.fonts[0], &mut tape, slot.tag).is_ok())
                } else {
                    guard(|| (slot.position)(&file.fonts[0], &mut tape).is_ok())
                }
            });
            crate::checks::heavy(&what, peak, *bound)?;
            found.map_err(|panic| format!("{what}: panicked: {panic}"))?;
        }
        Ok(())
    };
    for round in 0..2 {
        let (result, _, left) = crate::memory::weigh(&work);
        if let Err(message) = result {
            return Outcome::Fail(message);
        }
        case.count("probes", steps.len() as u64);
        if round > 0 && left > 0 {
            return Outcome::Fail(format!("a font: {left} bytes of memory are not released"));
        }
    }
    Outcome::Pass
}

/// Opening a font and taking tables costs no more than their records and contents call for.
pub fn c20(src: &mut Source, case: &mut Case) -> Outcome {
    let wish = Wish {
        density: src.within(1, 7),
        corrupt: true,
        size: *src.pick(&[60, 600, 6000]),
        far: true,
        own: src.chance(1, 2),
        large: true,
    };
    let made = match generate(src, wish) {
        Ok(made) => made,
        Err(outcome) => return outcome,
    };
    describe(case, &made);
    let mut work = || -> Result<(), String> {
        let given = given(&made);
        let mut tape = Tape::new(&made.image);
        let count = made.entries.len() as u64;
        crate::checks::bound(&mut tape, 12 + 16 * count, 12 + 16 * count);
        let found = open(&mut tape);
        crate::checks::overworked(&tape, "opening")?;
        let Ok(Ok(file)) = found else { return Err("opening: refused".into()) };
        let steps = src.within(2, 8);
        for _ in 0..steps {
            let slot = src.pick(&SLOTS);
            let take = src.chance(2, 3);
            let what = format!("{} {}", if take { "taking" } else { "position of" }, name(slot));
            let (mut taken, mut charged) = (0, 0);
            if let Some(entry) = made.find(slot.tag) {
                // The verification, at least.
                taken += entry.size as u64;
                charged += entry.size as u64;
                if take && entry.sound {
                    let Some(kind) = own(slot.tag) else { continue };
                    let mut dec = Dec::starting(&made.image, Cfg::built(), 48 << 20, entry.offset as u64);
                    let result = (kinds::find(kind).dec)(&mut dec);
                    if dec.conclude(result).is_err() {
                        continue;
                    }
                    taken += dec.taken;
                    charged += dec.charged;
                } else if take && cfg!(feature = "sums") {
                    continue;
                }
            }
            crate::checks::bound(&mut tape, taken, charged);
            let found = if take {
                guard(|| (slot.take)(&file.fonts[0], &mut tape, &given).map(|_| ()))
            } else {
                guard(|| (slot.position)(&file.fonts[0], &mut tape).map(|_| ()))
            };
            crate::checks::overworked(&tape, &what)?;
            found.map_err(|panic| format!("{what}: panicked: {panic}"))?.ok();
            case.count("probes", 1);
        }
        Ok(())
    };
    match work() {
        Ok(()) => Outcome::Pass,
        Err(message) => Outcome::Fail(message),
    }
}

// Other properties on fonts.

/// Faults while opening a font and taking its tables.
pub fn c13(src: &mut Source, case: &mut Case) -> Outcome {
    let wish = Wish { density: 4, corrupt: false, size: 60, far: true, own: true, large: false };
    let made = match generate(src, wish) {
        Ok(made) => made,
        Err(outcome) => return outcome,
    };
    describe(case, &made);
    case.nontrivial = !made.entries.is_empty();
    let given = given(&made);
    let slots: Vec<&Slot> = SLOTS.iter().filter(|slot| own(slot.tag).is_some()).collect();
    let operation = |tape: &mut Tape| -> Io<V> {
        let file = File::read(tape)?;
        let mut values = vec![];
        for slot in &slots {
            values.push(match (slot.take)(&file.fonts[0], tape, &given)? {
                Some(value) => crate::value::some(value),
                None => V::None,
            });
        }
        Ok(V::L(values))
    };
    match faults("font", &made.image, 0, &operation, src, case) {
        Ok(()) => Outcome::Pass,
        Err(message) => Outcome::Fail(message),
    }
}

pub fn c16(src: &mut Source, case: &mut Case) -> Outcome {
    let wish = Wish { density: src.within(2, 6), corrupt: true, size: 200, far: false, own: false, large: true };
    let made = match generate(src, wish) {
        Ok(made) => made,
        Err(outcome) => return outcome,
    };
    describe(case, &made);
    match verify(&made, src, case) {
        Ok(()) => Outcome::Pass,
        Err(message) => Outcome::Fail(message),
    }
}

/// Any bytes as a font.
pub fn c09(src: &mut Source, case: &mut Case) -> Outcome {
    let mut image = match src.below(8) {
        0 => {
            case.class("font:words");
            let mut bytes = src.pick(&[*b"\0\x01\0\0", *b"OTTO", *b"true", *b"typ1", *b"ttcf"]).to_vec();
            let count = src.below(20);
            for _ in 0..count {
                let word = match src.below(3) {
                    0 => src.below(4),
                    1 => src.below(200),
                    _ => src.below(65536),
                };
                bytes.extend((word as u16).to_be_bytes());
            }
            Image::from_bytes(bytes)
        }
        1 if !fixtures().is_empty() => {
            case.class("font:fixture");
            let fixtures = fixtures();
            let i = src.below(fixtures.len() as u64) as usize;
            fixtures[i].made.image.clone()
        }
        _ => {
            case.class("font:generated");
            let wish = Wish { density: 4, corrupt: false, size: 200, far: false, own: src.chance(1, 2), large: false };
            match generate(src, wish) {
                Ok(made) => made.image,
                Err(outcome) => return outcome,
            }
        }
    };
    image = Image::from_bytes(image.flatten());
    let records = if image.len > 12 { (u16::from_be_bytes([image.byte(4), image.byte(5)]) as u64).min(30) } else { 0 };
    let mutations = src.below(5);
    for _ in 0..mutations {
        if image.len < 4 {
            break;
        }
        if records > 0 && src.chance(3, 4) {
            // A field of a record.
            let at = 12 + 16 * src.below(records) + 4 * src.below(4);
            let value = match src.below(6) {
                0 => u32::MAX - src.below(8) as u32,
                1 => src.below(64) as u32,
                2 => (1 << 31) + src.below(4) as u32,
                3 => image.len as u32 - src.below(image.len.min(9)) as u32,
                4 => src.below(1 << 32) as u32,
                _ => 0,
            };
            for (i, b) in value.to_be_bytes().iter().enumerate() {
                if at + (i as u64) < image.len {
                    image.set(at + i as u64, *b);
                }
            }
        } else {
            let at = src.below(image.len);
            image.set(at, src.below(256) as u8);
        }
    }
    if src.chance(1, 4) {
        image.len = src.below(image.len + 1);
        let n = image.len as usize;
        if let Some((_, data)) = image.segs.first_mut() {
            data.truncate(n);
        }
        image.segs.retain(|(_, data)| !data.is_empty());
    }
    case.class(format!("mutations:{mutations}"));
    case.hash = image.hash();
    case.nontrivial = image.len >= 28;
    case.sample = format!("font: {}", image.describe());
    if case.verbose {
        println!("{}", case.sample);
    }
    let mut tape = Tape::new(&image);
    tape.budget = 64 << 20;
    let file = match open(&mut tape) {
        Err(panic) => return Outcome::Fail(format!("opening: panicked: {panic}")),
        Ok(Err(_)) => {
            case.class("refused");
            return Outcome::Pass;
        }
        Ok(Ok(file)) => file,
    };
    case.class("opened");
    let made = Made { image: Image::default(), entries: vec![], version: [0; 4] };
    let given = given(&made);
    for font in &file.fonts {
        for slot in &SLOTS {
            let what = name(slot);
            if let Err(panic) = guard(|| (slot.exists)(font)) {
                return Outcome::Fail(format!("existence of {what}: panicked: {panic}"));
            }
            match guard(|| (slot.position)(font, &mut tape)) {
                Err(panic) => return Outcome::Fail(format!("position of {what}: panicked: {panic}")),
                Ok(Ok(Some(()))) => {}
                Ok(_) => continue,
            }
            // The readers of other tables are not the project's.
            let Some(kind) = own(slot.tag) else { continue };
            let at = (tape.pos as usize).min(image.len as usize);
            let table = Image::from_bytes(image.flatten()[at..].to_vec());
            if decode_limited(kinds::find(kind), &table, Cfg::built(), 24 << 20).result == Err(E::Budget) {
                case.count("tables beyond the work budget", 1);
                continue;
            }
            case.count("tables taken", 1);
            if let Err(panic) = guard(|| (slot.take)(font, &mut tape, &given)) {
                return Outcome::Fail(format!("taking {what}: panicked: {panic}"));
            }
        }
    }
    Outcome::Pass
}

/// Histories of operations on one font and one tape.
/// The file with a byte of one of its tables changed.
fn twin(made: &Made, src: &mut Source) -> Option<Made> {
    let sized: Vec<&Entry> = made.entries.iter().filter(|entry| entry.size > 0).collect();
    if sized.is_empty() {
        return None;
    }
    let target = sized[src.below(sized.len() as u64) as usize];
    let at = target.offset as u64 + src.below(target.size as u64);
    if at < 12 {
        // It shares bytes with the header.
        return None;
    }
    let mut image = made.image.clone();
    image.set(at, image.byte(at) ^ 1 << src.below(8));
    let mut entries = made.entries.clone();
    for entry in &mut entries {
        let start = entry.offset as u64;
        if start <= at && at < start + entry.size as u64 {
            let mut bytes = vec![0; entry.size as usize];
            image.get(entry.offset as u64, &mut bytes);
            entry.sound = entry.checksum == checksum(&entry.tag, &bytes);
            entry.value = None;
        }
    }
    Some(Made { image, entries, version: made.version })
}

pub fn c15(src: &mut Source, case: &mut Case) -> Outcome {
    let wish = Wish { density: src.within(2, 7), corrupt: true, size: 150, far: true, own: src.chance(1, 3), large: false };
    let made = match generate(src, wish) {
        Ok(made) => made,
        Err(outcome) => return outcome,
    };
    describe(case, &made);
    // At times next to a copy of the file with one byte of one table changed.
    let mut all = vec![made];
    if src.chance(1, 2) {
        let twin = twin(&all[0], src);
        all.extend(twin);
    }
    let givens: Vec<Given> = all.iter().map(given).collect();
    let mut tapes: Vec<Tape> = all.iter().map(|made| Tape::new(&made.image)).collect();
    let mut files: Vec<(File, usize)> = vec![];
    for which in 0..tapes.len() {
        match open(&mut tapes[which]) {
            Err(panic) => return Outcome::Fail(format!("opening: panicked: {panic}")),
            Ok(Err(error)) => return Outcome::Fail(format!("opening: refused: {error}")),
            Ok(Ok(file)) => files.push((file, which)),
        }
    }
    let steps = if src.chance(1, 24) { 40 + src.below(60) } else { 3 + src.below(14) };
    let mut done = vec![];
    let mut operations: Vec<&'static str> = vec![];
    if all.len() > 1 {
        case.class("with a twin");
    }
    let listed: Vec<&Slot> = SLOTS.iter().filter(|slot| all[0].find(slot.tag).is_some()).collect();
    for step in 0..steps {
        let slot = if !listed.is_empty() && src.chance(3, 4) {
            listed[src.below(listed.len() as u64) as usize]
        } else {
            src.pick(&SLOTS)
        };
        let which = src.below(files.len() as u64) as usize;
        let twin = files[which].1;
        let (made, given, tape) = (&all[twin], &givens[twin], &mut tapes[twin]);
        if twin == 1 {
            done.push("twin:".into());
        }
        let result: Result<(), String>;
        match src.below(16) {
            0 => {
                done.push(format!("exists {}", name(slot)));
                operations.push("exists");
                let expected = Expected::Unclear;
                result = probe(made, slot, &files[which].0.fonts[0], tape, given, &expected, 0);
            }
            1 | 2 => {
                done.push(format!("position {}", name(slot)));
                operations.push("position");
                let expected = Expected::Unclear;
                result = probe(made, slot, &files[which].0.fonts[0], tape, given, &expected, 1);
            }
            3 | 4 => {
                let to = match src.below(3) {
                    0 => src.below(made.image.len + 1),
                    1 => made.image.len + src.below(1 << 20),
                    _ => src.below(1 << 40),
                };
                done.push(format!("seek {to}"));
                operations.push("seek");
                tape.pos = to;
                result = Ok(());
            }
            5 => {
                tape.pos = 0;
                done.push("reopen".into());
                operations.push("reopen");
                result = match open(tape) {
                    Err(panic) => Err(format!("panicked: {panic}")),
                    Ok(Err(error)) => Err(format!("refused: {error}")),
                    Ok(Ok(file)) => {
                        files.push((file, twin));
                        Ok(())
                    }
                };
            }
            6 | 7 => {
                // Fail somewhere; where exactly is of no importance.
                let expected = expected(made, slot, given);
                if expected == Expected::Endless {
                    continue;
                }
                let at = tape.ops + src.below(60);
                done.push(format!("take {} with a failure ahead", name(slot)));
                operations.push("failing take");
                tape.fail = Some((at, std::io::ErrorKind::Other, src.chance(1, 2)));
                tape.failed = false;
                let found = guard(|| (slot.take)(&files[which].0.fonts[0], tape, given));
                let failed = tape.failed;
                tape.fail = None;
                result = match (expected, failed, found) {
                    (Expected::Unclear, _, _) => Ok(()),
                    (_, true, Ok(Err(_))) => Ok(()),
                    (_, true, Ok(Ok(_))) => Err("succeeded in spite of a failure".into()),
                    (_, _, Err(panic)) => Err(format!("panicked: {panic}")),
                    (expected, false, found) => agree(&expected, found, "taking"),
                };
            }
            8 => {
                // A failure while opening leaves nothing behind.
                tape.pos = 0;
                tape.fail = Some((tape.ops + src.below(20), std::io::ErrorKind::Other, false));
                done.push("reopen with a failure ahead".into());
                operations.push("failing reopen");
                let found = open(tape);
                tape.fail = None;
                result = match found {
                    Err(panic) => Err(format!("panicked: {panic}")),
                    _ => Ok(()),
                };
            }
            _ => {
                done.push(format!("take {}", name(slot)));
                operations.push("take");
                let expected = expected(made, slot, given);
                result = probe(made, slot, &files[which].0.fonts[0], tape, given, &expected, 2);
            }
        }
        case.count("operations", 1);
        if let Err(message) = result {
            return Outcome::Fail(format!("step {step} of [{}]: {message}", done.join("; ")));
        }
    }
    for pair in operations.windows(2) {
        case.class(format!("{} then {}", pair[0], pair[1]));
    }
    case.nontrivial = operations.iter().filter(|operation| operation.contains("take")).count() >= 2;
    for step in &done {
        case.hash = crate::engine::hash_bytes(case.hash, step.as_bytes());
    }
    case.sample = format!("{}: {}", case.sample, done.join("; "));
    Outcome::Pass
}
