//! What can be read: the specification and the reader of each kind of table.

use std::fmt::{Debug, Write};

use opentype::layout::{
    class, context, correction, coverage, feature, language, script, ChainedContext, Class, Context, Correction,
    Coverage, Features, Lookups, Scripts,
};
use opentype::tables::{
    glyph_definition, glyph_positioning, glyph_substitution, ColorPalettes, FontVariations, GlyphDefinition,
    GlyphPositioning, GlyphSubstitution,
};
use opentype::truetype::Tag;
use opentype::variations::item;

use crate::codec::{Dec, Gen, R};
use crate::proj::Proj;
use crate::spec;
use crate::tape::Tape;
use crate::value::V;

pub type Reader = fn(&mut Tape, bool) -> std::io::Result<V>;

pub struct Kind {
    pub name: &'static str,
    pub gen: fn(&mut Gen) -> R<V>,
    pub dec: fn(&mut Dec) -> R<V>,
    pub read: Reader,
    /// Read and drop at once.
    pub pass: fn(&mut Tape) -> std::io::Result<()>,
    /// Read for the use of several threads.
    #[cfg(feature = "share")]
    pub keep: fn(&mut Tape) -> std::io::Result<Box<dyn Kept>>,
}

/// A value that several threads can use.
#[cfg(feature = "share")]
pub trait Kept: Send + Sync {
    fn project(&self) -> V;
    fn use_up(&self);
    fn again(&self) -> Option<Box<dyn Kept>>;
}

#[cfg(feature = "share")]
impl<T: Proj + Exercise + Send + Sync + 'static> Kept for T {
    fn project(&self) -> V {
        self.v()
    }
    fn use_up(&self) {
        self.exercise()
    }
    fn again(&self) -> Option<Box<dyn Kept>> {
        self.copy().map(|copy| Box::new(copy) as Box<dyn Kept>)
    }
}

struct Sink(usize);

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        if self.0 > 1 << 16 {
            Err(std::fmt::Error)
        } else {
            Ok(())
        }
    }
}

/// Everything one can do with a value, apart from looking at it.
pub trait Exercise: Sized {
    fn exercise(&self);
    /// A clone, if there is such a thing.
    fn copy(&self) -> Option<Self> {
        None
    }
}

fn generic<T: Clone + Debug>(value: &T) {
    let copy = value.clone();
    let _ = write!(Sink(0), "{copy:?}");
    let _ = write!(Sink(0), "{copy:#?}");
}

macro_rules! exercise {
    ($($type:ty),* $(,)?) => {$(
        impl Exercise for $type {
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }

            fn exercise(&self) {
                generic(self);
            }
        }
    )*};
}

exercise! {
    GlyphDefinition, FontVariations, Coverage, Class, Correction, correction::Device, Context, ChainedContext,
    item::Store, item::Record, feature::Record, feature::Variations, language::Record,
    glyph_definition::Attachments, glyph_definition::Ligatures, glyph_definition::Caret, glyph_definition::Marks,
    glyph_substitution::Type, glyph_positioning::Type, glyph_positioning::Anchor, glyph_positioning::Mark1s,
    Lookups<glyph_substitution::Type>, Lookups<glyph_positioning::Type>,
    coverage::Coverage1, coverage::Coverage2, class::Class1, class::Class2, correction::Variation,
    context::Context1, context::Context2, context::Context3,
    context::ChainedContext1, context::ChainedContext2, context::ChainedContext3,
}

impl Exercise for Scripts {
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }

    fn exercise(&self) {
        generic(self);
        for header in self.headers.iter().take(200) {
            if let Some(record) = self.get(header.tag) {
                record.exercise();
            }
            let script = opentype::layout::Script::from_tag(&header.tag);
            let _ = (script.name(), Tag::from(script), self.get(script).is_some());
            generic(&script);
        }
        let _ = self.get(Tag(*b"zzzz"));
    }
}

impl Exercise for script::Record {
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }

    fn exercise(&self) {
        generic(self);
        for header in self.language_headers.iter().take(200) {
            let language = opentype::layout::Language::from_tag(&header.tag);
            let _ = (self.get(header.tag), language.name(), language.codes().count(), self.get(language));
            generic(&language);
        }
    }
}

impl Exercise for Features {
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }

    fn exercise(&self) {
        generic(self);
        for header in self.headers.iter().take(200) {
            let feature = opentype::layout::Feature::from_tag(&header.tag);
            let _ = (self.get(header.tag), feature.name(), self.get(feature));
            generic(&feature);
        }
    }
}

impl<T: Clone + Debug> Exercise for opentype::layout::Directory<T> {
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }

    fn exercise(&self) {
        generic(self);
        self.scripts.exercise();
        self.features.exercise();
    }
}

impl Exercise for ColorPalettes {
    fn exercise(&self) {
        let mut seen = 0;
        for palette in self.iter().take(1000) {
            seen += palette.take(70000).count();
            if seen > 1 << 22 {
                break;
            }
        }
    }
}

/// A value or, depending on where it has been read, a clone of it.
fn project<T: Exercise + Proj>(value: T, tape: &Tape) -> V {
    if tape.pos % 4 == 3 {
        if let Some(copy) = value.copy() {
            drop(value);
            return copy.v();
        }
    }
    value.v()
}

fn read<T: opentype::value::Read + Proj + Exercise>(tape: &mut Tape, exercise: bool) -> std::io::Result<V> {
    let value: T = opentype::value::Read::read(tape)?;
    if exercise {
        value.exercise();
    }
    Ok(project(value, tape))
}

fn read_given<T>(tape: &mut Tape, exercise: bool, parameter: u16) -> std::io::Result<V>
where
    T: opentype::walue::Read<'static, Parameter = u16> + Proj + Exercise,
{
    let value: T = opentype::walue::Read::read(tape, parameter)?;
    if exercise {
        value.exercise();
    }
    Ok(project(value, tape))
}

#[cfg(feature = "share")]
fn keep<T>(tape: &mut Tape) -> std::io::Result<Box<dyn Kept>>
where
    T: opentype::value::Read + Proj + Exercise + Send + Sync + 'static,
{
    let value: T = opentype::value::Read::read(tape)?;
    Ok(Box::new(value))
}

macro_rules! kinds {
    ($($name:literal => $spec:path => $type:ty,)*) => {
        &[$(Kind { name: $name, gen: |c| $spec(c), dec: |c| $spec(c), read: read::<$type>, pass: |tape| <$type as opentype::value::Read>::read(tape).map(drop), #[cfg(feature = "share")] keep: keep::<$type> }),*]
    };
}

macro_rules! given {
    ($($name:literal => $spec:path => $type:ty => $parameter:literal,)*) => {
        &[$(Kind {
            name: $name,
            gen: |c| $spec(c, $parameter),
            dec: |c| $spec(c, $parameter),
            read: |tape, exercise| read_given::<$type>(tape, exercise, $parameter),
            pass: |tape| <$type as opentype::walue::Read>::read(tape, $parameter).map(drop),
            #[cfg(feature = "share")]
            keep: |tape| {
                let value: $type = opentype::walue::Read::read(tape, $parameter)?;
                Ok(Box::new(value))
            },
        }),*]
    };
}

static PLAIN: &[Kind] = kinds! {
    "gsub" => spec::gsub => GlyphSubstitution,
    "gpos" => spec::gpos => GlyphPositioning,
    "gdef" => spec::gdef => GlyphDefinition,
    "fvar" => spec::fvar => FontVariations,
    "cpal" => spec::cpal => ColorPalettes,
    "coverage" => spec::coverage => Coverage,
    "class" => spec::class => Class,
    "correction" => spec::correction => Correction,
    "device" => spec::device => correction::Device,
    "context" => spec::context => Context,
    "chained" => spec::chained_context => ChainedContext,
    "store" => spec::store => item::Store,
    "variation-data" => spec::variation_data => item::Record,
    "scripts" => spec::scripts => Scripts,
    "features" => spec::features => Features,
    "script" => spec::script => script::Record,
    "feature" => spec::feature => feature::Record,
    "language" => spec::language => language::Record,
    "feature-variations" => spec::feature_variations => feature::Variations,
    "attachments" => spec::attachments => glyph_definition::Attachments,
    "ligature-carets" => spec::ligature_carets => glyph_definition::Ligatures,
    "caret" => spec::caret => glyph_definition::Caret,
    "mark-sets" => spec::mark_sets => glyph_definition::Marks,
    "anchor" => spec::anchor => glyph_positioning::Anchor,
    "marks" => spec::marks1 => glyph_positioning::Mark1s,
    "gsub-lookups" => spec::gsub_lookups => Lookups<glyph_substitution::Type>,
    "gpos-lookups" => spec::gpos_lookups => Lookups<glyph_positioning::Type>,
};

static GIVEN: &[Kind] = given! {
    "gsub-1" => spec::substitution => glyph_substitution::Type => 1,
    "gsub-2" => spec::substitution => glyph_substitution::Type => 2,
    "gsub-3" => spec::substitution => glyph_substitution::Type => 3,
    "gsub-4" => spec::substitution => glyph_substitution::Type => 4,
    "gsub-5" => spec::substitution => glyph_substitution::Type => 5,
    "gsub-6" => spec::substitution => glyph_substitution::Type => 6,
    "gsub-7" => spec::substitution => glyph_substitution::Type => 7,
    "gsub-8" => spec::substitution => glyph_substitution::Type => 8,
    "gpos-1" => spec::positioning => glyph_positioning::Type => 1,
    "gpos-2" => spec::positioning => glyph_positioning::Type => 2,
    "gpos-3" => spec::positioning => glyph_positioning::Type => 3,
    "gpos-4" => spec::positioning => glyph_positioning::Type => 4,
    "gpos-5" => spec::positioning => glyph_positioning::Type => 5,
    "gpos-6" => spec::positioning => glyph_positioning::Type => 6,
    "gpos-7" => spec::positioning => glyph_positioning::Type => 7,
    "gpos-8" => spec::positioning => glyph_positioning::Type => 8,
    "gpos-9" => spec::positioning => glyph_positioning::Type => 9,
};

pub fn all() -> impl Iterator<Item = &'static Kind> {
    PLAIN.iter().chain(GIVEN.iter())
}

pub fn find(name: &str) -> &'static Kind {
    all().find(|kind| kind.name == name).unwrap_or_else(|| panic!("HARNESS: no kind {name}"))
}

pub const ALL: &[&str] = &[
    "gsub", "gpos", "gdef", "fvar", "cpal", "coverage", "class", "correction", "device", "context", "chained",
    "store", "variation-data", "scripts", "features", "script", "feature", "language", "feature-variations",
    "attachments", "ligature-carets", "caret", "mark-sets", "anchor", "marks", "gsub-lookups", "gpos-lookups",
    "gsub-1", "gsub-2", "gsub-3", "gsub-4", "gsub-5", "gsub-6", "gsub-7", "gsub-8", "gpos-1", "gpos-2", "gpos-3",
    "gpos-4", "gpos-5", "gpos-6", "gpos-7", "gpos-8", "gpos-9",
];

pub const GSUB: &[&str] = &[
    "gsub", "gsub-1", "gsub-2", "gsub-3", "gsub-4", "gsub-5", "gsub-6", "gsub-7", "gsub-8", "gsub-lookups", "gsub",
    "gsub", "gsub-lookups",
];

pub const GPOS: &[&str] = &[
    "gpos", "gpos-1", "gpos-2", "gpos-3", "gpos-4", "gpos-5", "gpos-6", "gpos-7", "gpos-8", "gpos-9", "gpos-lookups",
    "anchor", "marks", "gpos", "gpos", "gpos-lookups", "gpos-2", "gpos-5",
];

pub const GDEF: &[&str] = &["gdef", "gdef", "gdef", "attachments", "ligature-carets", "caret", "mark-sets"];

pub const SHARED: &[&str] =
    &["coverage", "class", "correction", "device", "context", "chained", "correction", "context", "chained"];

pub const DIRECTORY: &[&str] = &["scripts", "features", "script", "feature", "language", "gsub", "gpos"];
