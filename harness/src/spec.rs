//! The formats, transcribed from the OpenType specification over the abstract codec.

use crate::codec::{key, offsets, Codec, Lack, Null, Num, Off, R};
use crate::value::{some, tag, V};

const C16: Null = Null::Never;

fn n(value: u64) -> V {
    V::N(value as i64)
}

// Shared blocks.

pub fn coverage<C: Codec>(c: &mut C) -> R<V> {
    let format = c.fixed(2, &[1, 2], "coverage format")?;
    if format == 1 {
        c.note("coverage/1");
        let count = c.count(0, 2, true)?;
        let glyphs = c.nums(Num::U16, count)?;
        Ok(tag("coverage1", rec! { format: n(format), count: n(count), glyphs: glyphs }))
    } else {
        c.note("coverage/2");
        let count = c.count(0, 6, true)?;
        let ranges = ranges(c, count)?;
        Ok(tag("coverage2", rec! { format: n(format), count: n(count), ranges: ranges }))
    }
}

/// Ranges of glyphs with a number each, flattened.
fn ranges<C: Codec>(c: &mut C, count: u64) -> R<V> {
    if count > 24 {
        return c.nums(Num::U16, 3 * count);
    }
    let mut values = vec![];
    // Ranges that continue each other are likely.
    let (mut next, mut last) = (0, 0);
    for _ in 0..count {
        let start = c.hint(Num::U16, next)? as u64;
        let end = c.soft(2, start.min(65535), 65535)?;
        let index = c.hint(Num::U16, last)?;
        next = end.wrapping_add(1) & 0xFFFF;
        last = (index as u64).wrapping_add(end).wrapping_sub(start).wrapping_add(1) & 0xFFFF;
        values.extend([start as i64, end as i64, index]);
    }
    Ok(V::A(values))
}

pub fn class<C: Codec>(c: &mut C) -> R<V> {
    let format = c.fixed(2, &[1, 2], "class format")?;
    if format == 1 {
        c.note("class/1");
        let start = c.n16()?;
        let count = c.count(0, 2, true)?;
        let indices = c.nums(Num::U16, count)?;
        Ok(tag("class1", rec! { format: n(format), start: start, count: n(count), indices: indices }))
    } else {
        c.note("class/2");
        let count = c.count(0, 6, true)?;
        let ranges = ranges(c, count)?;
        Ok(tag("class2", rec! { format: n(format), count: n(count), ranges: ranges }))
    }
}

fn device_rest<C: Codec>(c: &mut C, start: u64, end: u64, format: u64) -> R<V> {
    let per_word = match format {
        1 => 8,
        2 => 4,
        _ => 2,
    };
    let count = end - start + 1;
    let words = (count + per_word - 1) / per_word;
    let deltas = c.nums(Num::U16, words)?;
    Ok(rec! { start_size: n(start), end_size: n(end), format: n(format), deltas: deltas })
}

pub fn device<C: Codec>(c: &mut C) -> R<V> {
    let (start, end) = c.sizes()?;
    let format = c.fixed(2, &[1, 2, 3], "device format")?;
    c.note(["device/1", "device/2", "device/3"][format as usize - 1]);
    device_rest(c, start, end, format)
}

pub fn correction<C: Codec>(c: &mut C) -> R<V> {
    let format = c.foresee(4, &[1, 2, 3, 0x8000], "correction format")?;
    if format == 0x8000 {
        c.note("variation index");
        let outer = c.n16()?;
        let inner = c.n16()?;
        let format = c.foreseen()?;
        return Ok(tag("variation", rec! { outer: outer, inner: inner, format: n(format) }));
    }
    c.note(["device/1", "device/2", "device/3"][format as usize - 1]);
    let (start, end) = c.sizes()?;
    c.foreseen()?;
    Ok(tag("device", device_rest(c, start, end, format)?))
}

pub fn correction_key() -> u64 {
    key("correction", 0)
}

pub fn coverage_key() -> u64 {
    key("coverage", 0)
}

pub fn class_key() -> u64 {
    key("class", 0)
}

/// Pairs of numbers, flattened.
fn actions<C: Codec>(c: &mut C, count: u64) -> R<V> {
    c.nums(Num::U16, 2 * count)
}

fn rule<C: Codec>(c: &mut C) -> R<V> {
    let glyph_count = c.count(1, 2, true)?;
    let action_count = c.count(0, 4, true)?;
    let input = c.nums(Num::U16, glyph_count - 1)?;
    let actions = actions(c, action_count)?;
    Ok(rec! { glyph_count: n(glyph_count), action_count: n(action_count), input: input, actions: actions })
}

fn chained_rule<C: Codec>(c: &mut C) -> R<V> {
    let backward_count = c.count(0, 2, true)?;
    let backward = c.nums(Num::U16, backward_count)?;
    let glyph_count = c.count(1, 2, true)?;
    let input = c.nums(Num::U16, glyph_count - 1)?;
    let forward_count = c.count(0, 2, true)?;
    let forward = c.nums(Num::U16, forward_count)?;
    let action_count = c.count(0, 4, true)?;
    let actions = actions(c, action_count)?;
    Ok(rec! {
        backward_count: n(backward_count),
        backward: backward,
        glyph_count: n(glyph_count),
        input: input,
        forward_count: n(forward_count),
        forward: forward,
        action_count: n(action_count),
        actions: actions,
    })
}

pub fn rules<C: Codec>(c: &mut C) -> R<V> {
    let count = c.count(0, 2, false)?;
    let offs = c.offs(2, count, C16)?;
    let records = c.children(&offs, key("rule", 0), &mut rule)?;
    Ok(rec! { count: n(count), offsets: offsets(&offs), records: records })
}

pub fn chained_rules<C: Codec>(c: &mut C) -> R<V> {
    let count = c.count(0, 2, false)?;
    let offs = c.offs(2, count, C16)?;
    let records = c.children(&offs, key("chained rule", 0), &mut chained_rule)?;
    Ok(rec! { count: n(count), offsets: offsets(&offs), records: records })
}

/// The rule set that an absent one amounts to.
fn no_rules() -> V {
    rec! { count: V::N(0), offsets: V::A(vec![]), records: V::L(vec![]) }
}

fn sets_or_empty<C: Codec>(
    c: &mut C,
    offs: &[Off],
    key: u64,
    body: &mut dyn FnMut(&mut C) -> R<V>,
) -> R<V> {
    let mut values = vec![];
    for off in offs {
        c.charge(96)?;
        if off.null() {
            c.note("null rule set");
            values.push(no_rules());
        } else {
            values.push(c.child(*off, key, body)?);
        }
    }
    Ok(V::L(values))
}

pub fn context<C: Codec>(c: &mut C) -> R<V> {
    let format = c.fixed(2, &[1, 2, 3], "context format")?;
    match format {
        1 => {
            c.note("context/1");
            let coverage_off = c.off(2, C16)?;
            let count = c.count(0, 2, false)?;
            let offs = c.offs(2, count, Null::Maybe)?;
            let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
            let records = sets_or_empty(c, &offs, key("rules", 0), &mut rules)?;
            Ok(tag("context1", rec! {
                format: n(format),
                coverage_offset: coverage_off.v(),
                count: n(count),
                offsets: offsets(&offs),
                coverage: coverage,
                records: records,
            }))
        }
        2 => {
            c.note("context/2");
            let coverage_off = c.off(2, C16)?;
            let class_off = c.off(2, C16)?;
            let count = c.count(0, 2, false)?;
            let offs = c.offs(2, count, Null::Maybe)?;
            let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
            let class = c.child(class_off, class_key(), &mut class)?;
            let records = c.maybes(&offs, key("rules", 0), &mut rules)?;
            Ok(tag("context2", rec! {
                format: n(format),
                coverage_offset: coverage_off.v(),
                class_offset: class_off.v(),
                count: n(count),
                offsets: offsets(&offs),
                coverage: coverage,
                class: class,
                records: records,
            }))
        }
        _ => {
            c.note("context/3");
            let glyph_count = c.count(0, 2, false)?;
            let action_count = c.count(0, 4, false)?;
            let offs = c.offs(2, glyph_count, C16)?;
            let actions = actions(c, action_count)?;
            let coverages = c.children(&offs, coverage_key(), &mut coverage)?;
            Ok(tag("context3", rec! {
                format: n(format),
                glyph_count: n(glyph_count),
                action_count: n(action_count),
                offsets: offsets(&offs),
                actions: actions,
                coverages: coverages,
            }))
        }
    }
}

pub fn chained_context<C: Codec>(c: &mut C) -> R<V> {
    let format = c.fixed(2, &[1, 2, 3], "chained context format")?;
    match format {
        1 => {
            c.note("chained context/1");
            let coverage_off = c.off(2, C16)?;
            let count = c.count(0, 2, false)?;
            let offs = c.offs(2, count, Null::Maybe)?;
            let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
            let records = sets_or_empty(c, &offs, key("chained rules", 0), &mut chained_rules)?;
            Ok(tag("chained1", rec! {
                format: n(format),
                coverage_offset: coverage_off.v(),
                count: n(count),
                offsets: offsets(&offs),
                coverage: coverage,
                records: records,
            }))
        }
        2 => {
            c.note("chained context/2");
            let coverage_off = c.off(2, C16)?;
            let backward_off = c.off(2, C16)?;
            let class_off = c.off(2, C16)?;
            let forward_off = c.off(2, C16)?;
            let count = c.count(0, 2, false)?;
            let offs = c.offs(2, count, Null::Maybe)?;
            let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
            let backward = c.child(backward_off, class_key(), &mut class)?;
            let input = c.child(class_off, class_key(), &mut class)?;
            let forward = c.child(forward_off, class_key(), &mut class)?;
            let records = c.maybes(&offs, key("chained rules", 0), &mut chained_rules)?;
            Ok(tag("chained2", rec! {
                format: n(format),
                coverage_offset: coverage_off.v(),
                backward_offset: backward_off.v(),
                class_offset: class_off.v(),
                forward_offset: forward_off.v(),
                count: n(count),
                offsets: offsets(&offs),
                coverage: coverage,
                backward: backward,
                class: input,
                forward: forward,
                records: records,
            }))
        }
        _ => {
            c.note("chained context/3");
            let backward_count = c.count(0, 2, false)?;
            let backward_offs = c.offs(2, backward_count, C16)?;
            let glyph_count = c.count(0, 2, false)?;
            let offs = c.offs(2, glyph_count, C16)?;
            let forward_count = c.count(0, 2, false)?;
            let forward_offs = c.offs(2, forward_count, C16)?;
            let action_count = c.count(0, 4, false)?;
            let actions = actions(c, action_count)?;
            let backward = c.children(&backward_offs, coverage_key(), &mut coverage)?;
            let input = c.children(&offs, coverage_key(), &mut coverage)?;
            let forward = c.children(&forward_offs, coverage_key(), &mut coverage)?;
            Ok(tag("chained3", rec! {
                format: n(format),
                backward_count: n(backward_count),
                backward_offsets: offsets(&backward_offs),
                glyph_count: n(glyph_count),
                offsets: offsets(&offs),
                forward_count: n(forward_count),
                forward_offsets: offsets(&forward_offs),
                action_count: n(action_count),
                actions: actions,
                backward: backward,
                coverages: input,
                forward: forward,
            }))
        }
    }
}

// Directories.

pub fn language<C: Codec>(c: &mut C) -> R<V> {
    let order = c.fixed(2, &[0], "reserved lookup order")?;
    let required = c.n16()?;
    let count = c.count(0, 2, true)?;
    let indices = c.nums(Num::U16, count)?;
    Ok(rec! { order: n(order), required: required, count: n(count), indices: indices })
}

fn headers<C: Codec>(c: &mut C, count: u64) -> R<(Vec<i64>, Vec<Off>)> {
    let mut tags = vec![];
    let mut offs = vec![];
    for _ in 0..count {
        c.charge(16)?;
        tags.push(c.tag()?);
        offs.push(c.off(2, C16)?);
    }
    Ok((tags, offs))
}

pub fn script<C: Codec>(c: &mut C) -> R<V> {
    let default_off = c.off(2, Null::Maybe)?;
    let count = c.count(0, 6, false)?;
    let (tags, offs) = headers(c, count)?;
    let default = c.maybe(default_off, key("language", 0), &mut language)?;
    let records = c.children(&offs, key("language", 0), &mut language)?;
    Ok(rec! {
        default_offset: default_off.v(),
        count: n(count),
        tags: V::A(tags),
        offsets: offsets(&offs),
        default: default,
        records: records,
    })
}

pub fn scripts<C: Codec>(c: &mut C) -> R<V> {
    let count = c.count(0, 6, false)?;
    let (tags, offs) = headers(c, count)?;
    let records = c.children(&offs, key("script", 0), &mut script)?;
    Ok(rec! { count: n(count), tags: V::A(tags), offsets: offsets(&offs), records: records })
}

pub fn feature<C: Codec>(c: &mut C) -> R<V> {
    let parameter_off = c.off(2, Null::Maybe)?;
    let count = c.count(0, 2, parameter_off.null())?;
    let indices = c.nums(Num::U16, count)?;
    // The size of the parameters depends on the feature; only their presence is reported.
    let parameters = c.maybe(parameter_off, key("parameters", 0), &mut |c| {
        c.slack(1 + count % 7);
        Ok(V::N(0))
    })?;
    Ok(rec! {
        parameter_offset: parameter_off.v(),
        count: n(count),
        indices: indices,
        parameters: parameters,
    })
}

pub fn features<C: Codec>(c: &mut C) -> R<V> {
    let count = c.count(0, 6, false)?;
    let (tags, offs) = headers(c, count)?;
    let records = c.children(&offs, key("feature", 0), &mut feature)?;
    Ok(rec! { count: n(count), tags: V::A(tags), offsets: offsets(&offs), records: records })
}

/// What decodes a lookup subtable of a type.
type Subtable<C> = fn(&mut C, u64) -> R<V>;

fn lookup<C: Codec>(c: &mut C, known: u64, subtable: Subtable<C>) -> R<V> {
    let kind = c.kind(known)?;
    let flags = c.masked(0x00E0, "reserved lookup flag")?;
    let count = c.count(0, 2, false)?;
    let offs = c.offs(2, count, C16)?;
    let set = if flags & 0x10 != 0 {
        c.note("mark filtering set");
        some(c.n16()?)
    } else {
        V::None
    };
    let tables = c.children(&offs, key("subtable", known * 256 + kind % 256), &mut |c| {
        let kept = c.reserve(2);
        let result = subtable(c, kind);
        c.release(kept);
        result
    })?;
    Ok(rec! { kind: n(kind), flags: n(flags), count: n(count), offsets: offsets(&offs), set: set, tables: tables })
}

pub fn lookups<C: Codec>(c: &mut C, known: u64, subtable: Subtable<C>) -> R<V> {
    let count = c.count(0, 2, false)?;
    let offs = c.offs(2, count, C16)?;
    let records = c.children(&offs, key("lookup", known), &mut |c| lookup(c, known, subtable))?;
    Ok(rec! { count: n(count), offsets: offsets(&offs), records: records })
}

pub fn feature_variations<C: Codec>(c: &mut C) -> R<V> {
    let major = c.fixed(2, &[1], "feature-variation version")?;
    let minor = c.fixed(2, &[0], "feature-variation version")?;
    let count = c.n32()?;
    Ok(rec! { major: n(major), minor: n(minor), count: count })
}

fn directory<C: Codec>(c: &mut C, known: u64, subtable: Subtable<C>) -> R<V> {
    let version = c.fixed(4, &[0x10000, 0x10001], "directory version")?;
    let lacking = Null::Lacking(Lack::Dirs);
    let script_off = c.off(2, lacking)?;
    let feature_off = c.off(2, lacking)?;
    let lookup_off = c.off(2, lacking)?;
    let variation_off = if version == 0x10001 {
        c.note("directory/1.1");
        Some(c.off(4, Null::Maybe)?)
    } else {
        None
    };
    let tagged = || rec! {
        count: V::N(0), tags: V::A(vec![]), offsets: V::A(vec![]), records: V::L(vec![])
    };
    let kept = c.reserve(4);
    let scripts = if script_off.null() { tagged() } else { c.child(script_off, key("scripts", 0), &mut scripts)? };
    c.release(kept);
    let kept = c.reserve(4);
    let features =
        if feature_off.null() { tagged() } else { c.child(feature_off, key("features", 0), &mut features)? };
    c.release(kept);
    let lookups = if lookup_off.null() {
        no_rules()
    } else {
        c.child(lookup_off, key("lookups", known), &mut |c| lookups(c, known, subtable))?
    };
    let variations = match variation_off {
        Some(off) => c.maybe(off, key("feature variations", 0), &mut feature_variations)?,
        None => V::None,
    };
    Ok(rec! {
        major: n(version >> 16),
        minor: n(version & 0xFFFF),
        script_offset: script_off.v(),
        feature_offset: feature_off.v(),
        lookup_offset: lookup_off.v(),
        variation_offset: variation_off.map_or(V::N(0), |off| off.v()),
        scripts: scripts,
        features: features,
        lookups: lookups,
        variations: variations,
    })
}

// Glyph substitution.

pub fn gsub<C: Codec>(c: &mut C) -> R<V> {
    directory(c, 8, substitution)
}

pub fn gsub_lookups<C: Codec>(c: &mut C) -> R<V> {
    lookups(c, 8, substitution)
}

pub fn substitution<C: Codec>(c: &mut C, kind: u64) -> R<V> {
    Ok(match kind {
        1 => tag("single", single_substitution(c)?),
        2 => tag("multiple", listed_substitution(c, "multiple", sequence)?),
        3 => tag("alternate", listed_substitution(c, "alternate", sequence)?),
        4 => tag("ligature", listed_substitution(c, "ligature", ligature_set)?),
        5 => tag("contextual", context(c)?),
        6 => tag("chained", chained_context(c)?),
        7 => tag("extension", extension(c, "extension substitution")?),
        8 => tag("reverse", reverse_chained(c)?),
        _ => return Err(crate::codec::E::Bad("lookup type")),
    })
}

fn single_substitution<C: Codec>(c: &mut C) -> R<V> {
    let format = c.fixed(2, &[1, 2], "single substitution format")?;
    let coverage_off = c.off(2, C16)?;
    if format == 1 {
        c.note("single substitution/1");
        let delta = c.s16()?;
        let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
        Ok(tag("single1", rec! {
            format: n(format),
            coverage_offset: coverage_off.v(),
            delta: delta,
            coverage: coverage,
        }))
    } else {
        c.note("single substitution/2");
        let count = c.count(0, 2, false)?;
        let glyphs = c.nums(Num::U16, count)?;
        let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
        Ok(tag("single2", rec! {
            format: n(format),
            coverage_offset: coverage_off.v(),
            count: n(count),
            glyphs: glyphs,
            coverage: coverage,
        }))
    }
}

fn sequence<C: Codec>(c: &mut C) -> R<V> {
    let count = c.count(0, 2, true)?;
    let glyphs = c.nums(Num::U16, count)?;
    Ok(rec! { count: n(count), glyphs: glyphs })
}

fn ligature<C: Codec>(c: &mut C) -> R<V> {
    let glyph = c.n16()?;
    let count = c.count(1, 2, true)?;
    let glyphs = c.nums(Num::U16, count - 1)?;
    Ok(rec! { glyph: glyph, count: n(count), glyphs: glyphs })
}

fn ligature_set<C: Codec>(c: &mut C) -> R<V> {
    let count = c.count(0, 2, false)?;
    let offs = c.offs(2, count, C16)?;
    let records = c.children(&offs, key("ligature", 0), &mut ligature)?;
    Ok(rec! { count: n(count), offsets: offsets(&offs), records: records })
}

fn listed_substitution<C: Codec>(c: &mut C, name: &'static str, body: fn(&mut C) -> R<V>) -> R<V> {
    c.note(match name {
        "multiple" => "multiple substitution",
        "alternate" => "alternate substitution",
        _ => "ligature substitution",
    });
    let format = c.fixed(2, &[1], "substitution format")?;
    let coverage_off = c.off(2, C16)?;
    let count = c.count(0, 2, false)?;
    let offs = c.offs(2, count, C16)?;
    let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
    let name = if name == "ligature" { "ligature set" } else { "sequence" };
    let mut body = body;
    let records = c.children(&offs, key(name, 0), &mut body)?;
    Ok(rec! {
        format: n(format),
        coverage_offset: coverage_off.v(),
        count: n(count),
        offsets: offsets(&offs),
        coverage: coverage,
        records: records,
    })
}

fn extension<C: Codec>(c: &mut C, name: &'static str) -> R<V> {
    c.note(name);
    let format = c.fixed(2, &[1], "extension format")?;
    let kind = c.n16()?;
    let offset = c.n32()?;
    Ok(rec! { format: n(format), kind: kind, offset: offset })
}

fn reverse_chained<C: Codec>(c: &mut C) -> R<V> {
    c.note("reverse chained substitution");
    let format = c.fixed(2, &[1], "reverse chained format")?;
    let coverage_off = c.off(2, C16)?;
    let backward_count = c.count(0, 2, false)?;
    let backward_offs = c.offs(2, backward_count, C16)?;
    let forward_count = c.count(0, 2, false)?;
    let forward_offs = c.offs(2, forward_count, C16)?;
    let count = c.count(0, 2, false)?;
    let glyphs = c.nums(Num::U16, count)?;
    let input = c.child(coverage_off, coverage_key(), &mut coverage)?;
    let backward = c.children(&backward_offs, coverage_key(), &mut coverage)?;
    let forward = c.children(&forward_offs, coverage_key(), &mut coverage)?;
    Ok(rec! {
        format: n(format),
        coverage_offset: coverage_off.v(),
        backward_count: n(backward_count),
        backward_offsets: offsets(&backward_offs),
        forward_count: n(forward_count),
        forward_offsets: offsets(&forward_offs),
        count: n(count),
        glyphs: glyphs,
        coverage: input,
        backward: backward,
        forward: forward,
    })
}

// Glyph positioning.

pub fn gpos<C: Codec>(c: &mut C) -> R<V> {
    directory(c, 9, positioning)
}

pub fn gpos_lookups<C: Codec>(c: &mut C) -> R<V> {
    lookups(c, 9, positioning)
}

pub fn positioning<C: Codec>(c: &mut C, kind: u64) -> R<V> {
    Ok(match kind {
        1 => tag("single", single_adjustment(c)?),
        2 => tag("pair", pair_adjustment(c)?),
        3 => tag("cursive", cursive(c)?),
        4 => tag("base", mark_to(c, "base")?),
        5 => tag("ligature", mark_to(c, "ligature")?),
        6 => tag("mark", mark_to(c, "mark")?),
        7 => tag("contextual", context(c)?),
        8 => tag("chained", chained_context(c)?),
        9 => tag("extension", extension(c, "extension positioning")?),
        _ => return Err(crate::codec::E::Bad("lookup type")),
    })
}

fn value_format<C: Codec>(c: &mut C) -> R<u64> {
    c.masked(0xFF00, "reserved value format")
}

fn value<C: Codec>(c: &mut C, flags: u64) -> R<V> {
    let mut scalars = vec![];
    for bit in 0..4 {
        scalars.push(if flags >> bit & 1 == 1 { some(c.s16()?) } else { V::None });
    }
    let mut offs = vec![];
    for bit in 4..8 {
        offs.push(if flags >> bit & 1 == 1 { Some(c.off(2, Null::Maybe)?) } else { None });
    }
    let mut corrections = vec![];
    for off in &offs {
        corrections.push(match off {
            Some(off) => {
                if !off.null() {
                    c.note("value correction");
                }
                c.maybe(*off, correction_key(), &mut correction)?
            }
            None => V::None,
        });
    }
    let offs = offs.into_iter().map(|off| off.map_or(V::None, |off| some(off.v()))).collect();
    Ok(rec! { scalars: V::L(scalars), offsets: V::L(offs), corrections: V::L(corrections) })
}

fn value_cost(flags: u64) -> u64 {
    if flags == 0 {
        0
    } else {
        340
    }
}

fn single_adjustment<C: Codec>(c: &mut C) -> R<V> {
    let format = c.fixed(2, &[1, 2], "single adjustment format")?;
    let coverage_off = c.off(2, C16)?;
    let flags = value_format(c)?;
    if format == 1 {
        c.note("single adjustment/1");
        let value = value(c, flags)?;
        let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
        Ok(tag("single1", rec! {
            format: n(format),
            coverage_offset: coverage_off.v(),
            flags: n(flags),
            value: value,
            coverage: coverage,
        }))
    } else {
        c.note("single adjustment/2");
        let count = c.count(0, 2 * crate::codec::bits(flags).max(1), flags == 0)?;
        let values = c.many(count, 340, &mut |c| value(c, flags))?;
        let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
        Ok(tag("single2", rec! {
            format: n(format),
            coverage_offset: coverage_off.v(),
            flags: n(flags),
            count: n(count),
            values: values,
            coverage: coverage,
        }))
    }
}

fn optional_value<C: Codec>(c: &mut C, flags: u64) -> R<V> {
    if flags == 0 {
        Ok(V::None)
    } else {
        Ok(some(value(c, flags)?))
    }
}

fn pair_set<C: Codec>(c: &mut C, flags1: u64, flags2: u64) -> R<V> {
    let unit = 2 + 2 * crate::codec::bits(flags1) + 2 * crate::codec::bits(flags2);
    let count = c.count(0, unit, (flags1 | flags2) & 0xF0 == 0 && unit < 10)?;
    let records = c.many(count, 700, &mut |c| {
        let glyph = c.n16()?;
        let value1 = optional_value(c, flags1)?;
        let value2 = optional_value(c, flags2)?;
        Ok(rec! { glyph: glyph, value1: value1, value2: value2 })
    })?;
    Ok(rec! { count: n(count), records: records })
}

fn pair_adjustment<C: Codec>(c: &mut C) -> R<V> {
    let format = c.fixed(2, &[1, 2], "pair adjustment format")?;
    let coverage_off = c.off(2, C16)?;
    let flags1 = value_format(c)?;
    let flags2 = value_format(c)?;
    if format == 1 {
        c.note("pair adjustment/1");
        let count = c.count(0, 2, false)?;
        let offs = c.offs(2, count, C16)?;
        let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
        let records = c.children(&offs, key("pair set", flags1 << 16 | flags2), &mut |c| {
            pair_set(c, flags1, flags2)
        })?;
        Ok(tag("pair1", rec! {
            format: n(format),
            coverage_offset: coverage_off.v(),
            flags1: n(flags1),
            flags2: n(flags2),
            count: n(count),
            offsets: offsets(&offs),
            coverage: coverage,
            records: records,
        }))
    } else {
        c.note("pair adjustment/2");
        let class1_off = c.off(2, C16)?;
        let class2_off = c.off(2, C16)?;
        let (count1, count2) = c.grid(2 * (crate::codec::bits(flags1) + crate::codec::bits(flags2)))?;
        let records = c.many(count1, 64, &mut |c| {
            c.many(count2, 680 + value_cost(flags1) + value_cost(flags2), &mut |c| {
                let value1 = optional_value(c, flags1)?;
                let value2 = optional_value(c, flags2)?;
                Ok(rec! { value1: value1, value2: value2 })
            })
        })?;
        let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
        let class1 = c.child(class1_off, class_key(), &mut class)?;
        let class2 = c.child(class2_off, class_key(), &mut class)?;
        Ok(tag("pair2", rec! {
            format: n(format),
            coverage_offset: coverage_off.v(),
            flags1: n(flags1),
            flags2: n(flags2),
            class1_offset: class1_off.v(),
            class2_offset: class2_off.v(),
            count1: n(count1),
            count2: n(count2),
            records: records,
            coverage: coverage,
            class1: class1,
            class2: class2,
        }))
    }
}

pub fn anchor<C: Codec>(c: &mut C) -> R<V> {
    let format = c.fixed(2, &[1, 2, 3], "anchor format")?;
    let x = c.s16()?;
    let y = c.s16()?;
    match format {
        1 => {
            c.note("anchor/1");
            Ok(tag("anchor1", rec! { format: n(format), x: x, y: y }))
        }
        2 => {
            c.note("anchor/2");
            let index = c.n16()?;
            Ok(tag("anchor2", rec! { format: n(format), x: x, y: y, index: index }))
        }
        _ => {
            c.note("anchor/3");
            let x_off = c.off(2, Null::Maybe)?;
            let y_off = c.off(2, Null::Maybe)?;
            let x_correction = c.maybe(x_off, correction_key(), &mut correction)?;
            let y_correction = c.maybe(y_off, correction_key(), &mut correction)?;
            Ok(tag("anchor3", rec! {
                format: n(format),
                x: x,
                y: y,
                x_offset: x_off.v(),
                y_offset: y_off.v(),
                x_correction: x_correction,
                y_correction: y_correction,
            }))
        }
    }
}

fn anchor_key() -> u64 {
    key("anchor", 0)
}

fn default_anchor() -> V {
    tag("anchor1", rec! { format: V::N(0), x: V::N(0), y: V::N(0) })
}

fn cursive<C: Codec>(c: &mut C) -> R<V> {
    c.note("cursive attachment");
    let format = c.fixed(2, &[1], "cursive format")?;
    let coverage_off = c.off(2, C16)?;
    let count = c.count(0, 4, false)?;
    let records = c.many(count, 240, &mut |c| {
        let start_off = c.off(2, Null::Maybe)?;
        let end_off = c.off(2, Null::Maybe)?;
        let start = c.maybe(start_off, anchor_key(), &mut anchor)?;
        let end = c.maybe(end_off, anchor_key(), &mut anchor)?;
        Ok(rec! { start_offset: start_off.v(), end_offset: end_off.v(), start: start, end: end })
    })?;
    let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
    Ok(rec! {
        format: n(format),
        coverage_offset: coverage_off.v(),
        count: n(count),
        records: records,
        coverage: coverage,
    })
}

pub fn marks1<C: Codec>(c: &mut C) -> R<V> {
    let count = c.count(0, 4, false)?;
    let records = c.many(count, 140, &mut |c| {
        let class_id = c.n16()?;
        let off = c.off(2, Null::Lacking(Lack::Marks))?;
        let anchor =
            if off.null() { default_anchor() } else { c.child(off, anchor_key(), &mut anchor)? };
        Ok(rec! { class_id: class_id, offset: off.v(), anchor: anchor })
    })?;
    Ok(rec! { count: n(count), records: records })
}

/// An array of records of anchors, one per class of marks.
fn anchors<C: Codec>(c: &mut C, classes: u64) -> R<V> {
    let count = c.rows(classes)?;
    let records = c.many(count, 96, &mut |c| {
        let offs = c.offs(2, classes, Null::Maybe)?;
        let anchors = c.maybes(&offs, anchor_key(), &mut anchor)?;
        Ok(rec! { offsets: offsets(&offs), anchors: anchors })
    })?;
    Ok(rec! { count: n(count), records: records })
}

fn ligatures<C: Codec>(c: &mut C, classes: u64) -> R<V> {
    let count = c.blocks(classes)?;
    let offs = c.offs(2, count, C16)?;
    let records = c.children(&offs, key("anchors", classes), &mut |c| anchors(c, classes))?;
    Ok(rec! { count: n(count), offsets: offsets(&offs), records: records })
}

fn mark_to<C: Codec>(c: &mut C, target: &'static str) -> R<V> {
    c.note(match target {
        "base" => "mark-to-base attachment",
        "ligature" => "mark-to-ligature attachment",
        _ => "mark-to-mark attachment",
    });
    let format = c.fixed(2, &[1], "mark attachment format")?;
    let coverage_off = c.off(2, C16)?;
    let target_coverage_off = c.off(2, C16)?;
    let classes = c.columns()?;
    let marks_off = c.off(2, C16)?;
    let targets_off = c.off(2, C16)?;
    let mark_coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
    let target_coverage = c.child(target_coverage_off, coverage_key(), &mut coverage)?;
    let kept = c.reserve(2);
    let marks = c.child(marks_off, key("marks", 0), &mut marks1)?;
    c.release(kept);
    let targets = if target == "ligature" {
        c.child(targets_off, key("ligatures", classes), &mut |c| ligatures(c, classes))?
    } else {
        c.child(targets_off, key("anchors", classes), &mut |c| anchors(c, classes))?
    };
    Ok(rec! {
        format: n(format),
        coverage_offset: coverage_off.v(),
        target_coverage_offset: target_coverage_off.v(),
        classes: n(classes),
        marks_offset: marks_off.v(),
        targets_offset: targets_off.v(),
        coverage: mark_coverage,
        target_coverage: target_coverage,
        marks: marks,
        targets: targets,
    })
}

// Glyph definition.

fn attachment<C: Codec>(c: &mut C) -> R<V> {
    let count = c.count(0, 2, true)?;
    let indices = c.nums(Num::U16, count)?;
    Ok(rec! { count: n(count), indices: indices })
}

pub fn caret<C: Codec>(c: &mut C) -> R<V> {
    let format = c.fixed(2, &[1, 2, 3], "caret format")?;
    match format {
        1 => {
            c.note("caret/1");
            let coordinate = c.s16()?;
            Ok(tag("caret1", rec! { format: n(format), coordinate: coordinate }))
        }
        2 => {
            c.note("caret/2");
            let index = c.n16()?;
            Ok(tag("caret2", rec! { format: n(format), index: index }))
        }
        _ => {
            c.note("caret/3");
            let coordinate = c.s16()?;
            let off = c.off(2, C16)?;
            let correction = c.child(off, correction_key(), &mut correction)?;
            Ok(tag("caret3", rec! {
                format: n(format),
                coordinate: coordinate,
                offset: off.v(),
                correction: correction,
            }))
        }
    }
}

fn caret_list<C: Codec>(c: &mut C) -> R<V> {
    let count = c.count(0, 2, false)?;
    let offs = c.offs(2, count, C16)?;
    let carets = c.children(&offs, key("caret", 0), &mut caret)?;
    Ok(rec! { count: n(count), offsets: offsets(&offs), records: carets })
}

fn covered<C: Codec>(c: &mut C, name: &str, body: fn(&mut C) -> R<V>) -> R<V> {
    let coverage_off = c.off(2, C16)?;
    let count = c.count(0, 2, false)?;
    let offs = c.offs(2, count, C16)?;
    let coverage = c.child(coverage_off, coverage_key(), &mut coverage)?;
    let mut body = body;
    let records = c.children(&offs, key(name, 0), &mut body)?;
    Ok(rec! {
        coverage_offset: coverage_off.v(),
        count: n(count),
        offsets: offsets(&offs),
        coverage: coverage,
        records: records,
    })
}

pub fn attachments<C: Codec>(c: &mut C) -> R<V> {
    c.note("attachments");
    covered(c, "attachment", attachment)
}

pub fn ligature_carets<C: Codec>(c: &mut C) -> R<V> {
    c.note("ligature carets");
    covered(c, "caret list", caret_list)
}

pub fn mark_sets<C: Codec>(c: &mut C) -> R<V> {
    c.note("mark sets");
    let format = c.fixed(2, &[1], "mark set format")?;
    let count = c.count_far(4)?;
    let offs = c.offs(4, count, C16)?;
    let coverages = c.children(&offs, coverage_key(), &mut coverage)?;
    Ok(rec! { format: n(format), count: n(count), offsets: offsets(&offs), coverages: coverages })
}

pub fn gdef<C: Codec>(c: &mut C) -> R<V> {
    let version = c.fixed(4, &[0x10000, 0x10002, 0x10003], "glyph definition version")?;
    c.note(match version {
        0x10000 => "glyph definition/1.0",
        0x10002 => "glyph definition/1.2",
        _ => "glyph definition/1.3",
    });
    let class_off = c.off(2, Null::Maybe)?;
    let attachment_off = c.off(2, Null::Maybe)?;
    let ligature_off = c.off(2, Null::Maybe)?;
    let mark_class_off = c.off(2, Null::Maybe)?;
    let mark_off = if version >= 0x10002 { Some(c.off(2, Null::Maybe)?) } else { None };
    let variation_off = if version >= 0x10003 { Some(c.off(4, Null::Maybe)?) } else { None };
    let glyph_class = c.maybe(class_off, class_key(), &mut class)?;
    let attachments = c.maybe(attachment_off, key("attachments", 0), &mut attachments)?;
    let ligatures = c.maybe(ligature_off, key("ligature carets", 0), &mut ligature_carets)?;
    let mark_class = c.maybe(mark_class_off, class_key(), &mut class)?;
    let marks = match mark_off {
        Some(off) => c.maybe(off, key("mark sets", 0), &mut mark_sets)?,
        None => V::None,
    };
    let variations = match variation_off {
        Some(off) => c.maybe(off, key("store", 0), &mut store)?,
        None => V::None,
    };
    let or_none = |off: Option<Off>| off.map_or(V::None, |off| some(off.v()));
    Ok(rec! {
        major: n(version >> 16),
        minor: n(version & 0xFFFF),
        class_offset: class_off.v(),
        attachment_offset: attachment_off.v(),
        ligature_offset: ligature_off.v(),
        mark_class_offset: mark_class_off.v(),
        mark_offset: or_none(mark_off),
        variation_offset: or_none(variation_off),
        glyph_class: glyph_class,
        attachments: attachments,
        ligatures: ligatures,
        mark_class: mark_class,
        marks: marks,
        variations: variations,
    })
}

// Variations.

pub fn store<C: Codec>(c: &mut C) -> R<V> {
    c.note("item variation store");
    let format = c.fixed(2, &[1], "store format")?;
    let region_offset = c.n32()?;
    let count = c.count_far(4)?;
    let offs = c.offs(4, count, C16)?;
    let records = c.children(&offs, key("variation data", 0), &mut variation_data)?;
    Ok(rec! {
        format: n(format),
        region_offset: region_offset,
        count: n(count),
        offsets: offsets(&offs),
        records: records,
    })
}

pub fn variation_data<C: Codec>(c: &mut C) -> R<V> {
    let (items, short, regions) = c.shape()?;
    let indices = c.nums(Num::U16, regions)?;
    if short == regions && regions > 0 {
        c.note("all deltas short");
    } else if short > 0 {
        c.note("some deltas short");
    }
    let deltas = c.bytes(items * (short + regions))?;
    Ok(rec! { items: n(items), short: n(short), regions: n(regions), indices: indices, deltas: deltas })
}

// Font variations.

pub fn fvar<C: Codec>(c: &mut C) -> R<V> {
    let major = c.fixed(2, &[1], "font variations version")?;
    let minor = c.soft(2, 0, 0)?;
    let axis_offset = c.stride(16)?;
    let reserved = c.fixed(2, &[2], "font variations reserved")?;
    let axis_count = c.strided(20)?;
    let axis_size = c.stride(20)?;
    // More axes than an instance can have coordinates of.
    let possible = 4 + 4 * axis_count <= 65535 - 12;
    let instance_count = if possible { c.strided(4 + 4 * axis_count)? } else { c.soft(2, 0, 0)? };
    // The longest without the name, the shortest with it, and longer ones.
    let instance_size = if possible { c.stride(4 + 4 * axis_count)? } else { c.soft(2, 0, 65535)? };
    let named = instance_size >= 6 + 4 * axis_count;
    if instance_count > 0 {
        c.note(if named { "named instances" } else { "nameless instances" });
    }
    let mut axes = vec![];
    for i in 0..axis_count {
        c.charge(300)?;
        c.seek(axis_offset + i * axis_size)?;
        axes.push(axis(c)?);
    }
    let start = axis_offset + axis_count * axis_size;
    let mut instances = vec![];
    for i in 0..instance_count {
        c.charge(300)?;
        c.seek(start + i * instance_size)?;
        let name = c.n16()?;
        let flags = c.masked(0xFFFF, "reserved instance flag")?;
        let coordinates = c.nums(Num::I32, axis_count)?;
        let ps = if named { c.n16()? } else { V::N(0xFFFF) };
        instances.push(rec! { name: name, flags: n(flags), coordinates: coordinates, ps: ps });
    }
    Ok(rec! {
        major: n(major),
        minor: n(minor),
        axis_offset: n(axis_offset),
        reserved: n(reserved),
        axis_count: n(axis_count),
        axis_size: n(axis_size),
        instance_count: n(instance_count),
        instance_size: n(instance_size),
        axes: V::L(axes),
        instances: V::L(instances),
    })
}

fn axis<C: Codec>(c: &mut C) -> R<V> {
    let tag = V::N(c.tag()?);
    let min = c.s32()?;
    let default = c.s32()?;
    let max = c.s32()?;
    let flags = c.masked(0xFFFE, "reserved axis flag")?;
    let name = c.n16()?;
    Ok(rec! { tag: tag, min: min, default: default, max: max, flags: n(flags), name: name })
}

// Color palettes.

pub fn cpal<C: Codec>(c: &mut C) -> R<V> {
    let version = c.fixed(2, &[0, 1], "palette version")?;
    c.note(if version == 0 { "palettes/0" } else { "palettes/1" });
    let (entries, palettes, colors) = c.palettes()?;
    let color_off = c.off(4, C16)?;
    let mut indices = vec![];
    for _ in 0..palettes {
        indices.push(if entries == 0 {
            c.u16()?
        } else {
            if entries > colors {
                return Err(crate::codec::E::Bad("palette out of bounds"));
            }
            c.bounded(0, colors - entries, "palette out of bounds")? as i64
        });
    }
    if version == 1 {
        c.slack(12);
    }
    let body = c.child(color_off, key("colors", colors), &mut |c| c.nums(Num::U8, 4 * colors))?;
    // What iteration yields.
    let mut iterated = vec![];
    if let V::A(body) = &body {
        for index in &indices {
            c.charge(32 + 32 * entries)?;
            let from = 4 * *index as usize;
            iterated.push(if entries == 0 || body.is_empty() {
                V::A(vec![])
            } else {
                V::A(body.get(from..from + 4 * entries as usize).unwrap_or_default().to_vec())
            });
        }
    }
    Ok(tag(if version == 0 { "palettes0" } else { "palettes1" }, rec! {
        version: n(version),
        entry_count: n(entries),
        palette_count: n(palettes),
        color_count: n(colors),
        color_offset: color_off.v(),
        indices: V::A(indices),
        colors: body,
        iterated: V::L(iterated),
    }))
}
