//! Values of the code under test as neutral value trees, by access to public fields only.

use opentype::layout::{class, context, correction, coverage, feature, language, lookup, script};
use opentype::layout::{ChainedContext, Class, Context, Correction, Coverage, Directory, Features, Lookups, Scripts};
use opentype::tables::{color_palettes, font_variations, glyph_definition, glyph_positioning, glyph_substitution};
use opentype::tables::{ColorPalettes, FontVariations, GlyphDefinition};
use opentype::truetype::tables::names::NameID;
use opentype::truetype::{q32, Tag};
use opentype::variations::item;

use crate::value::{some, tag, V};

pub trait Proj: Sized {
    fn v(&self) -> V;
    fn list(items: &[Self]) -> V {
        V::L(items.iter().map(Self::v).collect())
    }
}

macro_rules! numbers {
    ($($type:ty => |$this:ident| $value:expr,)*) => {$(
        impl Proj for $type {
            fn v(&self) -> V {
                let $this = self;
                V::N($value)
            }
            fn list(items: &[Self]) -> V {
                V::A(items.iter().map(|$this| $value).collect())
            }
        }
    )*};
}

numbers! {
    u16 => |x| *x as i64,
    i16 => |x| *x as i64,
    u32 => |x| *x as i64,
    q32 => |x| x.0 as i64,
    Tag => |x| u32::from_be_bytes(x.0) as i64,
    NameID => |x| u16::from(*x) as i64,
    lookup::Flags => |x| x.0 as i64,
    glyph_positioning::Flags => |x| x.0 as i64,
    font_variations::AxisFlags => |x| x.0 as i64,
    font_variations::InstanceFlags => |x| x.0 as i64,
}

impl Proj for u8 {
    fn v(&self) -> V {
        V::N(*self as i64)
    }
    fn list(items: &[Self]) -> V {
        V::B(items.to_vec())
    }
}

impl<T: Proj> Proj for Vec<T> {
    fn v(&self) -> V {
        T::list(self)
    }
}

impl<T: Proj> Proj for Option<T> {
    fn v(&self) -> V {
        match self {
            Some(value) => some(value.v()),
            None => V::None,
        }
    }
}

macro_rules! flat {
    ($($type:ty { $($field:ident),* })*) => {$(
        impl Proj for $type {
            fn v(&self) -> V {
                V::A(vec![$(self.$field as i64),*])
            }
            fn list(items: &[Self]) -> V {
                let mut values = Vec::with_capacity(items.len() * 4);
                for item in items {
                    values.extend([$(item.$field as i64),*]);
                }
                V::A(values)
            }
        }
    )*};
}

flat! {
    coverage::Record { start_glyph_id, end_glyph_id, index }
    class::Record { start_glyph_id, end_glyph_id, index }
    context::Action { position_index, lookup_index }
    color_palettes::Color { blue, green, red, alpha }
}

/// Plain structures: the name in the tree and the field.
macro_rules! structs {
    ($($type:ty { $($name:ident : $($field:ident).+),* $(,)? })*) => {$(
        impl Proj for $type {
            fn v(&self) -> V {
                rec! { $($name: self.$($field).+.v()),* }
            }
        }
    )*};
}

macro_rules! enums {
    ($($type:ty { $($variant:ident => $name:literal),* $(,)? })*) => {$(
        impl Proj for $type {
            fn v(&self) -> V {
                match self {
                    $(Self::$variant(value) => tag($name, value.v()),)*
                }
            }
        }
    )*};
}

structs! {
    coverage::Coverage1 { format: format, count: glyph_count, glyphs: glyph_ids }
    coverage::Coverage2 { format: format, count: record_count, ranges: records }
    class::Class1 { format: format, start: start_glyph_id, count: glyph_count, indices: indices }
    class::Class2 { format: format, count: record_count, ranges: records }
    correction::Device { start_size: start_size, end_size: end_size, format: format, deltas: deltas }
    correction::Variation { outer: outer_index, inner: inner_index, format: format }

    context::Context1 {
        format: format, coverage_offset: coverage_offset, count: record_count,
        offsets: record_offsets, coverage: coverage, records: records,
    }
    context::Context2 {
        format: format, coverage_offset: coverage_offset, class_offset: class_offset, count: record_count,
        offsets: record_offsets, coverage: coverage, class: class, records: records,
    }
    context::Context3 {
        format: format, glyph_count: glyph_count, action_count: action_count,
        offsets: coverage_offsets, actions: actions, coverages: coverages,
    }
    context::ChainedContext1 {
        format: format, coverage_offset: coverage_offset, count: record_count,
        offsets: record_offsets, coverage: coverage, records: records,
    }
    context::ChainedContext2 {
        format: format, coverage_offset: coverage_offset, backward_offset: backward_class_offset,
        class_offset: class_offset, forward_offset: forward_class_offset, count: record_count,
        offsets: record_offsets, coverage: coverage, backward: backward_class, class: class,
        forward: forward_class, records: records,
    }
    context::ChainedContext3 {
        format: format,
        backward_count: backward_glyph_count, backward_offsets: backward_coverage_offsets,
        glyph_count: glyph_count, offsets: coverage_offsets,
        forward_count: forward_glyph_count, forward_offsets: forward_coverage_offsets,
        action_count: action_count, actions: actions,
        backward: backward_coverages, coverages: coverages, forward: forward_coverages,
    }
    context::Record { glyph_count: glyph_count, action_count: action_count, input: glyph_ids, actions: actions }
    context::ClassRecord { glyph_count: glyph_count, action_count: action_count, input: indices, actions: actions }
    context::Records { count: count, offsets: offsets, records: records }
    context::ClassRecords { count: count, offsets: offsets, records: records }
    context::ChainedRecord {
        backward_count: backward_glyph_count, backward: backward_glyph_ids,
        glyph_count: glyph_count, input: glyph_ids,
        forward_count: forward_glyph_count, forward: forward_glyph_ids,
        action_count: action_count, actions: actions,
    }
    context::ChainedClassRecord {
        backward_count: backward_glyph_count, backward: backward_indices,
        glyph_count: glyph_count, input: indices,
        forward_count: forward_glyph_count, forward: forward_indices,
        action_count: action_count, actions: actions,
    }
    context::ChainedRecords { count: count, offsets: offsets, records: records }
    context::ChainedClassRecords { count: count, offsets: offsets, records: records }

    language::Record {
        order: lookup_order_offset, required: required_feature_index,
        count: feature_index_count, indices: feature_indices,
    }
    feature::Variations { major: major_version, minor: minor_version, count: count }

    glyph_substitution::SingleSubstitution1 {
        format: format, coverage_offset: coverage_offset, delta: delta_glyph_id, coverage: coverage,
    }
    glyph_substitution::SingleSubstitution2 {
        format: format, coverage_offset: coverage_offset, count: glyph_count, glyphs: glyph_ids, coverage: coverage,
    }
    glyph_substitution::MultipleSubstitution {
        format: format, coverage_offset: coverage_offset, count: record_count,
        offsets: record_offsets, coverage: coverage, records: records,
    }
    glyph_substitution::AlternateSubstitution {
        format: format, coverage_offset: coverage_offset, count: record_count,
        offsets: record_offsets, coverage: coverage, records: records,
    }
    glyph_substitution::LigatureSubstitution {
        format: format, coverage_offset: coverage_offset, count: record_count,
        offsets: record_offsets, coverage: coverage, records: records,
    }
    glyph_substitution::ExtensionSubstitution { format: format, kind: r#type, offset: offset }
    glyph_substitution::ReverseChainedContextualSubstibution {
        format: format, coverage_offset: coverage_offset,
        backward_count: backward_glyph_count, backward_offsets: backward_coverage_offsets,
        forward_count: forward_glyph_count, forward_offsets: forward_coverage_offsets,
        count: glyph_count, glyphs: glyph_ids,
        coverage: coverage, backward: backward_coverages, forward: forward_coverages,
    }
    glyph_substitution::Sequence { count: glyph_count, glyphs: glyph_ids }
    glyph_substitution::Alternates { count: glyph_count, glyphs: glyph_ids }
    glyph_substitution::Ligature { glyph: glyph_id, count: glyph_count, glyphs: glyph_ids }
    glyph_substitution::Ligatures { count: count, offsets: offsets, records: records }

    glyph_positioning::SingleAdjustment1 {
        format: format, coverage_offset: coverage_offset, flags: value_flags, value: value, coverage: coverage,
    }
    glyph_positioning::SingleAdjustment2 {
        format: format, coverage_offset: coverage_offset, flags: value_flags, count: value_count,
        values: values, coverage: coverage,
    }
    glyph_positioning::PairAdjustment1 {
        format: format, coverage_offset: coverage_offset, flags1: value1_flags, flags2: value2_flags,
        count: record_count, offsets: record_offsets, coverage: coverage, records: records,
    }
    glyph_positioning::PairAdjustment2 {
        format: format, coverage_offset: coverage_offset, flags1: value1_flags, flags2: value2_flags,
        class1_offset: class1_offset, class2_offset: class2_offset,
        count1: class1_count, count2: class2_count,
        records: records, coverage: coverage, class1: class1, class2: class2,
    }
    glyph_positioning::CursiveAttachment {
        format: format, coverage_offset: coverage_offset, count: connection_count,
        records: connections, coverage: coverage,
    }
    glyph_positioning::MarkToBaseAttachment {
        format: format, coverage_offset: mark_coverage_offset, target_coverage_offset: base_coverage_offset,
        classes: mark_class_count, marks_offset: marks_offset, targets_offset: bases_offset,
        coverage: mark_coverage, target_coverage: base_coverage, marks: marks, targets: bases,
    }
    glyph_positioning::MarkToLigatureAttachment {
        format: format, coverage_offset: mark_coverage_offset, target_coverage_offset: ligature_coverage_offset,
        classes: mark_class_count, marks_offset: marks_offset, targets_offset: ligatures_offset,
        coverage: mark_coverage, target_coverage: ligature_coverage, marks: marks, targets: ligatures,
    }
    glyph_positioning::MarkToMarkAttachment {
        format: format, coverage_offset: mark1_coverage_offset, target_coverage_offset: mark2_coverage_offset,
        classes: mark_class_count, marks_offset: mark1s_offset, targets_offset: mark2s_offset,
        coverage: mark1_coverage, target_coverage: mark2_coverage, marks: mark1s, targets: mark2s,
    }
    glyph_positioning::ExtensionPositioning { format: format, kind: r#type, offset: offset }
    glyph_positioning::Anchor1 { format: format, x: x, y: y }
    glyph_positioning::Anchor2 { format: format, x: x, y: y, index: index }
    glyph_positioning::Anchor3 {
        format: format, x: x, y: y, x_offset: x_correction_offset, y_offset: y_correction_offset,
        x_correction: x_correction, y_correction: y_correction,
    }
    glyph_positioning::Base { offsets: anchor_offsets, anchors: anchors }
    glyph_positioning::Bases { count: count, records: records }
    glyph_positioning::Component { offsets: anchor_offsets, anchors: anchors }
    glyph_positioning::Ligature { count: count, records: components }
    glyph_positioning::Ligatures { count: count, offsets: offsets, records: records }
    glyph_positioning::Connection {
        start_offset: start_anchor_offset, end_offset: end_anchor_offset, start: start_anchor, end: end_anchor,
    }
    glyph_positioning::Mark1 { class_id: class_id, offset: anchor_offset, anchor: anchor }
    glyph_positioning::Mark1s { count: count, records: records }
    glyph_positioning::Mark2 { offsets: anchor_offsets, anchors: anchors }
    glyph_positioning::Mark2s { count: count, records: records }
    glyph_positioning::Pair1 { glyph: glyph2_id, value1: value1, value2: value2 }
    glyph_positioning::Pair1s { count: count, records: records }
    glyph_positioning::Pair2 { value1: value1, value2: value2 }

    glyph_definition::Attachment { count: index_count, indices: indices }
    glyph_definition::Attachments {
        coverage_offset: coverage_offset, count: count, offsets: offsets, coverage: coverage, records: records,
    }
    glyph_definition::Caret1 { format: format, coordinate: coordinate }
    glyph_definition::Caret2 { format: format, index: index }
    glyph_definition::Caret3 {
        format: format, coordinate: coordinate, offset: correction_offset, correction: correction,
    }
    glyph_definition::Ligature { count: caret_count, offsets: caret_offsets, records: carets }
    glyph_definition::Ligatures {
        coverage_offset: coverage_offset, count: count, offsets: offsets, coverage: coverage, records: records,
    }
    glyph_definition::Marks { format: format, count: count, offsets: coverage_offsets, coverages: coverages }

    item::Store { format: format, region_offset: region_offset, count: count, offsets: offsets, records: records }
    item::Record {
        items: item_count, short: short_delta_count, regions: region_count,
        indices: region_indices, deltas: deltas,
    }

    font_variations::AxisRecord {
        tag: tag, min: min_value, default: default_value, max: max_value, flags: flags, name: name_id,
    }
    font_variations::InstanceRecord {
        name: subfamily_name_id, flags: flags, coordinates: coordinates, ps: postscript_name_id,
    }
    FontVariations {
        major: header.major_version, minor: header.minor_version, axis_offset: header.axis_offset,
        reserved: header.reserved, axis_count: header.axis_count, axis_size: header.axis_size,
        instance_count: header.instance_count, instance_size: header.instance_size,
        axes: axis_records, instances: instance_records,
    }
}

enums! {
    Coverage { Format1 => "coverage1", Format2 => "coverage2" }
    Class { Format1 => "class1", Format2 => "class2" }
    Correction { Device => "device", Variation => "variation" }
    Context { Format1 => "context1", Format2 => "context2", Format3 => "context3" }
    ChainedContext { Format1 => "chained1", Format2 => "chained2", Format3 => "chained3" }
    glyph_substitution::SingleSubstitution { Format1 => "single1", Format2 => "single2" }
    glyph_substitution::Type {
        SingleSubstitution => "single", MultipleSubstitution => "multiple",
        AlternateSubstitution => "alternate", LigatureSubstitution => "ligature",
        ContextualSubstitution => "contextual", ChainedContextualSubstitution => "chained",
        ExtensionSubstitution => "extension", ReverseChainedContextualSubstibution => "reverse",
    }
    glyph_positioning::SingleAdjustment { Format1 => "single1", Format2 => "single2" }
    glyph_positioning::PairAdjustment { Format1 => "pair1", Format2 => "pair2" }
    glyph_positioning::Type {
        SingleAdjustment => "single", PairAdjustment => "pair", CursiveAttachment => "cursive",
        MarkToBaseAttachment => "base", MarkToLigatureAttachment => "ligature", MarkToMarkAttachment => "mark",
        ContextualPositioning => "contextual", ChainedContextualPositioning => "chained",
        ExtensionPositioning => "extension",
    }
    glyph_positioning::Anchor { Format1 => "anchor1", Format2 => "anchor2", Format3 => "anchor3" }
    glyph_definition::Caret { Format1 => "caret1", Format2 => "caret2", Format3 => "caret3" }
}

impl Proj for glyph_positioning::Pair2s {
    fn v(&self) -> V {
        self.records.v()
    }
}

impl Proj for glyph_positioning::Single {
    fn v(&self) -> V {
        rec! {
            scalars: V::L(vec![self.x_placement.v(), self.y_placement.v(), self.x_advance.v(), self.y_advance.v()]),
            offsets: V::L(vec![
                self.x_placement_correction_offset.v(),
                self.y_placement_correction_offset.v(),
                self.x_advance_correction_offset.v(),
                self.y_advance_correction_offset.v(),
            ]),
            corrections: V::L(vec![
                self.x_placement_correction.v(),
                self.y_placement_correction.v(),
                self.x_advance_correction.v(),
                self.y_advance_correction.v(),
            ]),
        }
    }
}

impl Proj for script::Record {
    fn v(&self) -> V {
        rec! {
            default_offset: self.default_language_offset.v(),
            count: self.language_count.v(),
            tags: V::A(self.language_headers.iter().map(|h| u32::from_be_bytes(h.tag.0) as i64).collect()),
            offsets: V::A(self.language_headers.iter().map(|h| h.offset as i64).collect()),
            default: self.default_language.v(),
            records: self.language_records.v(),
        }
    }
}

impl Proj for Scripts {
    fn v(&self) -> V {
        rec! {
            count: self.count.v(),
            tags: V::A(self.headers.iter().map(|h| u32::from_be_bytes(h.tag.0) as i64).collect()),
            offsets: V::A(self.headers.iter().map(|h| h.offset as i64).collect()),
            records: self.records.v(),
        }
    }
}

impl Proj for feature::Record {
    fn v(&self) -> V {
        rec! {
            parameter_offset: self.parameter_offset.v(),
            count: self.lookup_index_count.v(),
            indices: self.lookup_indices.v(),
            parameters: match self.parameters {
                Some(_) => some(V::N(0)),
                None => V::None,
            },
        }
    }
}

impl Proj for Features {
    fn v(&self) -> V {
        rec! {
            count: self.count.v(),
            tags: V::A(self.headers.iter().map(|h| u32::from_be_bytes(h.tag.0) as i64).collect()),
            offsets: V::A(self.headers.iter().map(|h| h.offset as i64).collect()),
            records: self.records.v(),
        }
    }
}

impl<T: Proj> Proj for lookup::Record<T> {
    fn v(&self) -> V {
        rec! {
            kind: self.r#type.v(),
            flags: self.flags.v(),
            count: self.table_count.v(),
            offsets: self.table_offsets.v(),
            set: self.mark_filtering_set.v(),
            tables: self.tables.v(),
        }
    }
}

impl<T: Proj> Proj for Lookups<T> {
    fn v(&self) -> V {
        rec! { count: self.count.v(), offsets: self.offsets.v(), records: self.records.v() }
    }
}

impl<T: Proj> Proj for Directory<T> {
    fn v(&self) -> V {
        rec! {
            major: self.major_version.v(),
            minor: self.minor_version.v(),
            script_offset: self.script_offset.v(),
            feature_offset: self.feature_offset.v(),
            lookup_offset: self.lookup_offset.v(),
            variation_offset: self.variation_offset.v(),
            scripts: self.scripts.v(),
            features: self.features.v(),
            lookups: self.lookups.v(),
            variations: self.variations.v(),
        }
    }
}

impl Proj for GlyphDefinition {
    fn v(&self) -> V {
        use glyph_definition::Header::*;
        macro_rules! common(
            ($h:ident) => ((
                $h.major_version, $h.minor_version, $h.glyph_class_offset, $h.attachment_offset,
                $h.ligature_offset, $h.mark_class_offset,
            ));
        );
        let (common, mark_offset, variation_offset) = match &self.header {
            Version1(h) => (common!(h), None, None),
            Version12(h) => (common!(h), Some(h.mark_offset), None),
            Version13(h) => (common!(h), Some(h.mark_offset), Some(h.variation_offset)),
        };
        rec! {
            major: common.0.v(),
            minor: common.1.v(),
            class_offset: common.2.v(),
            attachment_offset: common.3.v(),
            ligature_offset: common.4.v(),
            mark_class_offset: common.5.v(),
            mark_offset: mark_offset.v(),
            variation_offset: variation_offset.v(),
            glyph_class: self.glyph_class.v(),
            attachments: self.attachments.v(),
            ligatures: self.ligatures.v(),
            mark_class: self.mark_class.v(),
            marks: self.marks.v(),
            variations: self.variations.v(),
        }
    }
}

/// The palettes as iterated, in order and again in another order.
fn iterated(palettes: &ColorPalettes) -> V {
    fn channels(color: &color_palettes::Color) -> [i64; 4] {
        [color.blue, color.green, color.red, color.alpha].map(|x| x as i64)
    }
    let mut all = vec![];
    for palette in palettes.iter() {
        let mut values = vec![];
        for color in palette {
            values.extend(channels(color));
        }
        all.push(values);
    }
    // All palettes at once, the last one first.
    let together: Vec<_> = palettes.iter().collect();
    let mut again: Vec<Vec<i64>> = together
        .into_iter()
        .rev()
        .map(|palette| palette.flat_map(channels).collect())
        .collect();
    again.reverse();
    if again != all || palettes.iter().count() != all.len() {
        return V::N(-1);
    }
    // One palette and one color at a time.
    let step = 1 + all.len() / 5;
    for i in (0..all.len() + 1).step_by(step) {
        let palette = palettes.iter().nth(i);
        if palette.is_some() != (i < all.len()) {
            return V::N(-1);
        }
        if let Some(mut palette) = palette {
            let middle = all[i].len() / 8;
            let color = palette.nth(middle).map(channels);
            if color.as_ref().map(|color| &color[..]) != all[i].get(4 * middle..4 * middle + 4) {
                return V::N(-1);
            }
            let left = (all[i].len() / 4).saturating_sub(middle + 1);
            let (least, most) = palette.size_hint();
            if least > left || most.is_some_and(|most| most < left) || palette.count() != left {
                return V::N(-1);
            }
        }
        // Beyond the end there is nothing, and nothing after that.
        if let Some(mut palette) = palettes.iter().nth(i) {
            let first = palette.next().is_some();
            let beyond = all[i].len() / 4 + i % 3;
            if first == all[i].is_empty() || palette.nth(beyond).is_some() || palette.next().is_some() {
                return V::N(-1);
            }
        }
        // What is left, the last one, and every so many.
        let mut palettes = palettes.iter();
        let skipped = palettes.by_ref().take(i).count();
        let left = all.len() - skipped;
        let (least, most) = palettes.size_hint();
        if skipped != i.min(all.len()) || least > left || most.is_some_and(|most| most < left) {
            return V::N(-1);
        }
        match palettes.last() {
            None if left == 0 => {}
            Some(palette) if left > 0 => {
                let expected = &all[all.len() - 1];
                let every = 1 + expected.len() / 12;
                let found: Vec<_> = palette.step_by(every).map(channels).collect();
                if !found.iter().map(|color| &color[..]).eq(expected.chunks(4).step_by(every)) {
                    return V::N(-1);
                }
            }
            _ => return V::N(-1),
        }
    }
    V::L(all.into_iter().map(V::A).collect())
}

impl Proj for ColorPalettes {
    fn v(&self) -> V {
        macro_rules! project(
            ($h:ident) => (rec! {
                version: $h.version.v(),
                entry_count: $h.entry_count.v(),
                palette_count: $h.palette_count.v(),
                color_count: $h.color_count.v(),
                color_offset: $h.color_offset.v(),
                indices: $h.color_indices.v(),
                colors: self.colors.v(),
                iterated: iterated(self),
            });
        );
        match &self.header {
            color_palettes::Header::Version0(h) => tag("palettes0", project!(h)),
            color_palettes::Header::Version1(h) => tag("palettes1", project!(h)),
        }
    }
}
