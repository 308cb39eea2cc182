//! The abstract codec the formats are written against, with its two interpretations:
//! generation of tables and reference decoding.

use std::collections::HashMap;

use crate::engine::{hash_bytes, mix, Source};
use crate::image::Image;
use crate::registry::{FEATURES, LANGUAGES, SCRIPTS};
use crate::value::{some, V};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum E {
    Eof,
    Bad(&'static str),
    Budget,
    Discard(&'static str),
}

pub type R<T> = Result<T, E>;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Cfg {
    pub dirs: bool,
    pub marks: bool,
}

impl Cfg {
    /// The configuration this harness has been built with.
    pub fn built() -> Self {
        Cfg { dirs: cfg!(feature = "dirs"), marks: cfg!(feature = "marks") }
    }
    fn tolerates(&self, lack: Lack) -> bool {
        match lack {
            Lack::Dirs => self.dirs,
            Lack::Marks => self.marks,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lack {
    Dirs,
    Marks,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Null {
    /// Not meaningful; a reader follows the offset whatever it is.
    Never,
    /// Null stands for an absent part.
    Maybe,
    /// Null is a defect, which a switch may tolerate.
    Lacking(Lack),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num {
    U8,
    U16,
    I16,
    U32,
    I32,
}

impl Num {
    pub fn width(self) -> u64 {
        match self {
            Num::U8 => 1,
            Num::U16 | Num::I16 => 2,
            Num::U32 | Num::I32 => 4,
        }
    }
    fn interpret(self, raw: u64) -> i64 {
        match self {
            Num::I16 => raw as u16 as i16 as i64,
            Num::I32 => raw as u32 as i32 as i64,
            _ => raw as i64,
        }
    }
}

/// An offset: its value (when decoding) and its location (when generating).
#[derive(Clone, Copy, Debug)]
pub struct Off {
    pub value: u64,
    buf: usize,
    at: usize,
    width: u8,
}

impl Off {
    pub fn v(&self) -> V {
        V::N(self.value as i64)
    }
    pub fn null(&self) -> bool {
        self.value == 0
    }
}

pub type Body<'f, C> = &'f mut dyn FnMut(&mut C) -> R<V>;

pub trait Codec: Sized {
    fn num(&mut self, num: Num) -> R<i64>;
    /// A value that is generated within bounds but read whatever it is.
    fn soft(&mut self, width: u64, low: u64, high: u64) -> R<u64>;
    /// Any value, where one makes for a relation to what comes before.
    fn hint(&mut self, num: Num, hint: u64) -> R<i64>;
    /// A tag out of a small pool, so that repetitions happen.
    fn tag(&mut self) -> R<i64>;
    /// A value that has to be one of the listed ones.
    fn fixed(&mut self, width: u64, allowed: &[u64], what: &'static str) -> R<u64>;
    /// Choose an alternative by a 16-bit word further ahead, `ahead` bytes from here.
    fn foresee(&mut self, ahead: u64, allowed: &[u64], what: &'static str) -> R<u64>;
    /// The word that has been foreseen.
    fn foreseen(&mut self) -> R<u64>;
    /// A flag word without reserved bits.
    fn masked(&mut self, reserved: u16, what: &'static str) -> R<u64>;
    /// A 16-bit value with bounds a reader has to enforce.
    fn bounded(&mut self, low: u64, high: u64, what: &'static str) -> R<u64>;
    /// A number of elements of `unit` bytes, at least `least`, which a reader has to enforce.
    fn count(&mut self, least: u64, unit: u64, leaf: bool) -> R<u64>;
    /// A number of subtables whose offsets reach far.
    fn count_far(&mut self, unit: u64) -> R<u64> {
        self.count(0, unit, false)
    }
    /// A number of columns of a table of offsets that may all be null.
    fn columns(&mut self) -> R<u64>;
    /// A number of tables of rows of so many columns.
    fn blocks(&mut self, columns: u64) -> R<u64>;
    /// A number of rows of so many columns.
    fn rows(&mut self, columns: u64) -> R<u64>;
    /// A number of rows and one of columns of records of so many bytes.
    fn grid(&mut self, unit: u64) -> R<(u64, u64)>;
    /// A distance or a size of records, at least so many bytes.
    fn stride(&mut self, least: u64) -> R<u64>;
    /// A number of records at a stride.
    fn strided(&mut self, unit: u64) -> R<u64>;
    /// A lookup type, which has to be known if there is anything of that type.
    fn kind(&mut self, known: u64) -> R<u64>;
    fn nums(&mut self, num: Num, count: u64) -> R<V>;
    fn bytes(&mut self, count: u64) -> R<V>;
    fn off(&mut self, width: u64, null: Null) -> R<Off>;
    /// A subtable at an offset from the start of the current one.
    fn child(&mut self, off: Off, key: u64, body: Body<Self>) -> R<V>;
    /// Continue at a distance from the start of the current table.
    fn seek(&mut self, to: u64) -> R<()>;
    /// Bytes that belong to the table but are not decoded.
    fn slack(&mut self, count: u64);
    fn charge(&mut self, cost: u64) -> R<()>;
    /// The item, short-delta and region counts of item variation data.
    fn shape(&mut self) -> R<(u64, u64, u64)>;
    /// The entry, palette and color counts of palettes.
    fn palettes(&mut self) -> R<(u64, u64, u64)>;
    /// A size range, the order of which a reader has to enforce.
    fn sizes(&mut self) -> R<(u64, u64)>;
    fn note(&mut self, what: &'static str);
    /// Limit what follows to a share of what is left, until released.
    fn reserve(&mut self, part: i64) -> i64;
    fn release(&mut self, kept: i64);

    fn u16(&mut self) -> R<i64> {
        self.num(Num::U16)
    }
    fn n16(&mut self) -> R<V> {
        self.num(Num::U16).map(V::N)
    }
    fn s16(&mut self) -> R<V> {
        self.num(Num::I16).map(V::N)
    }
    fn n32(&mut self) -> R<V> {
        self.num(Num::U32).map(V::N)
    }
    fn s32(&mut self) -> R<V> {
        self.num(Num::I32).map(V::N)
    }
    fn offs(&mut self, width: u64, count: u64, null: Null) -> R<Vec<Off>> {
        let mut offs = Vec::with_capacity(count.min(65536) as usize);
        for _ in 0..count {
            offs.push(self.off(width, null)?);
        }
        Ok(offs)
    }
    /// A part that is absent if its offset is null.
    fn maybe(&mut self, off: Off, key: u64, body: Body<Self>) -> R<V> {
        if off.null() {
            return Ok(V::None);
        }
        Ok(some(self.child(off, key, body)?))
    }
    fn maybes(&mut self, offs: &[Off], key: u64, body: Body<Self>) -> R<V> {
        let mut values = Vec::with_capacity(offs.len());
        for off in offs {
            self.charge(24)?;
            values.push(self.maybe(*off, key, body)?);
        }
        Ok(V::L(values))
    }
    fn children(&mut self, offs: &[Off], key: u64, body: Body<Self>) -> R<V> {
        let mut values = Vec::with_capacity(offs.len());
        for off in offs {
            values.push(self.child(*off, key, body)?);
        }
        Ok(V::L(values))
    }
    fn many(&mut self, count: u64, cost: u64, body: Body<Self>) -> R<V> {
        let mut values = Vec::with_capacity(count.min(4096) as usize);
        for _ in 0..count {
            self.charge(cost)?;
            values.push(body(self)?);
        }
        Ok(V::L(values))
    }
}

pub fn key(name: &str, parameter: u64) -> u64 {
    mix(hash_bytes(parameter, name.as_bytes()))
}

pub fn offsets(offs: &[Off]) -> V {
    V::A(offs.iter().map(|off| off.value as i64).collect())
}

// ---------------------------------------------------------------------------------------------

/// The reference decoder.
pub struct Dec<'a> {
    image: &'a Image,
    base: u64,
    pos: u64,
    cfg: Cfg,
    pub extent: u64,
    /// How many bytes have been taken, and how many subtables been visited.
    pub taken: u64,
    pub charged: u64,
    pub left: i64,
    pub reads: u64,
    pub furthest: u64,
    pub notes: Vec<&'static str>,
    /// The first reason to refuse a subtable.
    deferred: Option<E>,
}

impl<'a> Dec<'a> {
    pub fn new(image: &'a Image, cfg: Cfg) -> Self {
        Dec {
            image,
            base: 0,
            pos: 0,
            cfg,
            extent: 0,
            taken: 0,
            charged: 0,
            left: 48 << 20,
            reads: 0,
            furthest: 0,
            notes: vec![],
            deferred: None,
        }
    }
    /// Conclude. What is refused is explored to the end nevertheless, so that the work counted, and with it whether a case
    /// is given up, does not depend on the order in which the subtables are read.
    pub fn conclude(&mut self, result: R<V>) -> R<V> {
        match self.deferred.take() {
            Some(error) if result != Err(E::Budget) => Err(error),
            _ => result,
        }
    }
    pub fn limited(image: &'a Image, cfg: Cfg, left: i64) -> Self {
        Dec { left, ..Dec::new(image, cfg) }
    }
    /// Decode what starts at a position.
    pub fn starting(image: &'a Image, cfg: Cfg, left: i64, at: u64) -> Self {
        Dec { base: at, pos: at, ..Dec::limited(image, cfg, left) }
    }
    fn need(&mut self, count: u64) -> R<()> {
        if count == 0 {
            return Ok(());
        }
        if self.pos.saturating_add(count) > self.image.len {
            return Err(E::Eof);
        }
        self.taken += count;
        self.charge(count)
    }
    fn raw(&mut self, width: u64) -> R<u64> {
        self.need(width)?;
        let mut buffer = [0; 8];
        self.image.get(self.pos, &mut buffer[..width as usize]);
        self.pos += width;
        self.extent = self.extent.max(self.pos);
        self.reads += 1;
        let mut value = 0;
        for b in &buffer[..width as usize] {
            value = value << 8 | *b as u64;
        }
        Ok(value)
    }
}

impl Codec for Dec<'_> {
    fn num(&mut self, num: Num) -> R<i64> {
        Ok(num.interpret(self.raw(num.width())?))
    }
    fn soft(&mut self, width: u64, _: u64, _: u64) -> R<u64> {
        self.raw(width)
    }
    fn hint(&mut self, num: Num, _: u64) -> R<i64> {
        self.num(num)
    }
    fn tag(&mut self) -> R<i64> {
        Ok(self.raw(4)? as i64)
    }
    fn fixed(&mut self, width: u64, allowed: &[u64], what: &'static str) -> R<u64> {
        let value = self.raw(width)?;
        if !allowed.contains(&value) {
            return Err(E::Bad(what));
        }
        Ok(value)
    }
    fn foresee(&mut self, ahead: u64, allowed: &[u64], what: &'static str) -> R<u64> {
        let pos = self.pos;
        self.pos += ahead;
        let value = self.raw(2)?;
        self.pos = pos;
        if !allowed.contains(&value) {
            return Err(E::Bad(what));
        }
        Ok(value)
    }
    fn foreseen(&mut self) -> R<u64> {
        self.raw(2)
    }
    fn masked(&mut self, reserved: u16, what: &'static str) -> R<u64> {
        let value = self.raw(2)?;
        if value & reserved as u64 != 0 {
            return Err(E::Bad(what));
        }
        Ok(value)
    }
    fn bounded(&mut self, low: u64, high: u64, what: &'static str) -> R<u64> {
        let value = self.raw(2)?;
        if value < low || value > high {
            return Err(E::Bad(what));
        }
        Ok(value)
    }
    fn count(&mut self, least: u64, _: u64, _: bool) -> R<u64> {
        let value = self.raw(2)?;
        if value < least {
            return Err(E::Bad("zero count"));
        }
        Ok(value)
    }
    fn columns(&mut self) -> R<u64> {
        self.raw(2)
    }
    fn blocks(&mut self, _: u64) -> R<u64> {
        self.raw(2)
    }
    fn rows(&mut self, _: u64) -> R<u64> {
        self.raw(2)
    }
    fn grid(&mut self, _: u64) -> R<(u64, u64)> {
        Ok((self.raw(2)?, self.raw(2)?))
    }
    fn stride(&mut self, _: u64) -> R<u64> {
        self.raw(2)
    }
    fn strided(&mut self, _: u64) -> R<u64> {
        self.raw(2)
    }
    fn kind(&mut self, _: u64) -> R<u64> {
        self.raw(2)
    }
    fn nums(&mut self, num: Num, count: u64) -> R<V> {
        let width = num.width();
        self.need(count * width)?;
        let mut buffer = vec![0; (count * width) as usize];
        self.image.get(self.pos, &mut buffer);
        self.pos += count * width;
        if count > 0 {
            self.extent = self.extent.max(self.pos);
        }
        self.reads += count;
        Ok(V::A(
            buffer
                .chunks(width as usize)
                .map(|chunk| num.interpret(chunk.iter().fold(0, |value, b| value << 8 | *b as u64)))
                .collect(),
        ))
    }
    fn bytes(&mut self, count: u64) -> R<V> {
        self.need(count)?;
        let mut buffer = vec![0; count as usize];
        self.image.get(self.pos, &mut buffer);
        self.pos += count;
        if count > 0 {
            self.extent = self.extent.max(self.pos);
        }
        Ok(V::B(buffer))
    }
    fn off(&mut self, width: u64, null: Null) -> R<Off> {
        let value = self.raw(width)?;
        if let Null::Lacking(lack) = null {
            if value == 0 && !self.cfg.tolerates(lack) {
                return Err(E::Bad(match lack {
                    Lack::Dirs => "missing list",
                    Lack::Marks => "missing mark anchor",
                }));
            }
        }
        Ok(Off { value, buf: 0, at: 0, width: 0 })
    }
    fn child(&mut self, off: Off, _: u64, body: Body<Self>) -> R<V> {
        self.charge(96)?;
        let (base, pos) = (self.base, self.pos);
        self.base += off.value;
        self.pos = self.base;
        self.furthest = self.furthest.max(off.value);
        let result = body(self);
        self.base = base;
        self.pos = pos;
        match result {
            Err(error) if error != E::Budget => {
                if self.deferred.is_none() {
                    self.deferred = Some(error);
                    self.left = self.left.min(2 << 20);
                }
                Ok(V::N(0))
            }
            result => result,
        }
    }
    fn seek(&mut self, to: u64) -> R<()> {
        self.pos = self.base + to;
        Ok(())
    }
    fn slack(&mut self, _: u64) {}
    fn charge(&mut self, cost: u64) -> R<()> {
        self.charged += cost;
        self.left = self.left.saturating_sub(cost.min(i64::MAX as u64) as i64);
        if self.left < 0 {
            return Err(E::Budget);
        }
        Ok(())
    }
    fn shape(&mut self) -> R<(u64, u64, u64)> {
        Ok((self.raw(2)?, self.raw(2)?, self.raw(2)?))
    }
    fn palettes(&mut self) -> R<(u64, u64, u64)> {
        Ok((self.raw(2)?, self.raw(2)?, self.raw(2)?))
    }
    fn sizes(&mut self) -> R<(u64, u64)> {
        let (start, end) = (self.raw(2)?, self.raw(2)?);
        if start > end {
            return Err(E::Bad("inverted size range"));
        }
        Ok((start, end))
    }
    fn note(&mut self, what: &'static str) {
        if !self.notes.contains(&what) {
            self.notes.push(what);
        }
    }
    fn reserve(&mut self, _: i64) -> i64 {
        0
    }
    fn release(&mut self, _: i64) {}
}

// ---------------------------------------------------------------------------------------------

#[derive(Default)]
struct Buf {
    data: Vec<u8>,
    /// Where in the data something is skipped, and how much.
    skips: Vec<(usize, u64)>,
    skipped: u64,
    cluster: usize,
    big: bool,
}

impl Buf {
    fn span(&self) -> u64 {
        self.data.len() as u64 + self.skipped
    }
}

/// How a table is to be generated.
#[derive(Clone, Debug)]
pub struct Plan {
    pub cfg: Cfg,
    /// The approximate size in bytes.
    pub size: i64,
    /// Out of 8, how often a subtable is shared.
    pub share: u64,
    /// The ordinal of the array that is to be big, if any.
    pub big: Option<u64>,
    /// The ordinal of the list of subtables that is to be long, if any.
    pub wide: Option<u64>,
    /// The ordinal of the list of which each subtable is to be the same and has a count such that their sum is large.
    pub total: Option<u64>,
    /// Whether products of dimensions are to be around the limits of integers.
    pub cells: bool,
    /// Whether records may be far apart.
    pub far: bool,
    /// Whether tolerated defects may occur.
    pub lacking: bool,
    /// The ordinal of the constraint to be violated and the choice of how.
    pub violate: Option<(usize, u64)>,
    /// Whether constraints other than those on flags are left alone.
    pub flags: bool,
    /// Random order of subtables.
    pub shuffle: u64,
    /// 0 for none, 1 for small gaps, 2 for one far gap, 3 for both.
    pub gaps: u64,
    /// The logarithm of what most subtables are placed at multiples of, but for the remainder.
    pub step: u64,
    pub remainder: u64,
    /// Gaps of up to gigabytes where offsets have 32 bits.
    pub huge: bool,
    pub fill: u64,
}

impl Plan {
    pub fn small() -> Self {
        Plan {
            cfg: Cfg::built(),
            size: 300,
            share: 1,
            big: None,
            wide: None,
            total: None,
            cells: false,
            far: false,
            lacking: false,
            violate: None,
            flags: false,
            shuffle: 0,
            gaps: 0,
            step: 0,
            remainder: 0,
            huge: false,
            fill: 0,
        }
    }
    /// Draw a plan.
    pub fn draw(src: &mut Source, big: bool) -> Self {
        let mut plan = Plan::small();
        plan.size = match src.below(16) {
            0..=7 => 300,
            8..=12 => 1500,
            13..=14 => 6000,
            _ => 30000,
        };
        if !big {
            plan.size = plan.size.min(1500);
        }
        plan.share = *src.pick(&[1, 0, 3, 6]);
        plan.big = if big && src.chance(1, 24) { Some(src.below(12)) } else { None };
        plan.arrange(src);
        if big && src.chance(1, 6) {
            plan.huge = true;
        }
        if big {
            match src.below(48) {
                47 => plan.cells = true,
                45 | 46 => plan.far = true,
                43 | 44 => plan.wide = Some(src.below(8)),
                41 | 42 => plan.total = Some(src.below(5)),
                _ => {}
            }
        }
        if plan.cells || plan.wide.is_some() || plan.total.is_some() {
            plan.big = None;
            plan.size = plan.size.min(1500);
        }
        plan
    }
    pub fn arrange(&mut self, src: &mut Source) {
        self.shuffle = if src.chance(2, 3) { 1 + src.below(1 << 32) } else { 0 };
        self.gaps = *src.pick(&[0, 1, 2, 3]);
        self.step = if src.chance(1, 8) { src.within(5, 13) } else { 0 };
        self.remainder = if self.step > 0 { src.below(1 << self.step) } else { 0 };
        self.fill = 1 + src.below(1 << 32);
    }
}

pub struct Gen<'a> {
    src: &'a mut Source,
    plan: Plan,
    bufs: Vec<Buf>,
    stack: Vec<usize>,
    patches: Vec<(usize, usize, u8, usize)>,
    pools: HashMap<(u64, usize), Vec<usize>>,
    left: i64,
    arrays: u64,
    lists: u64,
    big_used: bool,
    /// The number of columns of which there are to be many cells.
    sparse: Option<u64>,
    /// The table of which all offsets are null, and what was left before.
    barren: Option<(usize, i64)>,
    /// How deep the list of equal subtables is, and how many there are.
    multiple: Option<(usize, u64)>,
    pending: u64,
    force: bool,
    clusters: usize,
    recent: [u64; 8],
    seen: usize,
    /// The most recent short array and the most recent flags.
    array: Vec<u64>,
    masked: u64,
    pub sites: usize,
    pub site: &'static str,
    pub lacked: bool,
}

/// What generation has produced.
pub struct Made {
    pub image: Image,
    pub sites: usize,
    pub site: &'static str,
    pub lacked: bool,
    pub subtables: usize,
    pub shared: bool,
    pub big: bool,
}

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Source, plan: Plan) -> Self {
        let left = plan.size;
        Gen {
            src,
            plan,
            bufs: vec![Buf::default()],
            stack: vec![0],
            patches: vec![],
            pools: HashMap::new(),
            left,
            arrays: 0,
            lists: 0,
            sparse: None,
            barren: None,
            multiple: None,
            big_used: false,
            recent: [0; 8],
            seen: 0,
            array: vec![],
            masked: 0,
            pending: 0,
            force: false,
            clusters: 1,
            sites: 0,
            site: "",
            lacked: false,
        }
    }

    fn buf(&mut self) -> &mut Buf {
        let at = *self.stack.last().unwrap();
        &mut self.bufs[at]
    }

    fn put(&mut self, width: u64, value: u64) {
        self.left -= width as i64;
        let bytes = value.to_be_bytes();
        self.buf().data.extend_from_slice(&bytes[8 - width as usize..]);
    }

    /// Whether the constraint at hand is the one to be violated.
    fn violating(&mut self, what: &'static str) -> Option<u64> {
        if self.plan.flags && !FLAGS.contains(&what) {
            return None;
        }
        let site = self.sites;
        self.sites += 1;
        match self.plan.violate {
            Some((index, how)) if index == site => {
                self.site = what;
                Some(how)
            }
            _ => None,
        }
    }

    /// Any number, at times one that has been there lately or is next to such one.
    fn any(&mut self, num: Num) -> u64 {
        let bits = num.width() as u32 * 8;
        let value = if self.seen > 0 && self.src.chance(1, 10) {
            let value = self.recent[self.src.below(self.seen.min(8) as u64) as usize];
            match self.src.below(4) {
                0 | 1 => value,
                2 => value.wrapping_add(1),
                _ => value.wrapping_sub(1),
            }
        } else {
            self.src.int(bits)
        };
        let value = value & ((1u64 << bits) - 1);
        self.recent[self.seen % 8] = value;
        self.seen += 1;
        value
    }

    pub fn finish(mut self) -> R<Made> {
        let image = self.layout()?;
        let mut targets = HashMap::new();
        let mut shared = false;
        for (_, _, _, target) in &self.patches {
            let n: &mut u64 = targets.entry(*target).or_default();
            *n += 1;
            shared |= *n > 1;
        }
        Ok(Made {
            image,
            sites: self.sites,
            site: self.site,
            lacked: self.lacked,
            subtables: self.bufs.len(),
            shared,
            big: self.big_used,
        })
    }

    fn layout(&mut self) -> R<Image> {
        let count = self.bufs.len();
        let mut rng = crate::engine::Rng(self.plan.shuffle);
        let mut pos = vec![0u64; count];
        let mut members = vec![vec![]; self.clusters];
        for (i, buf) in self.bufs.iter().enumerate() {
            members[buf.cluster].push(i);
        }
        let mut degree = vec![0usize; count];
        let mut out = vec![vec![]; count];
        for (from, _, width, to) in &self.patches {
            if *width == 2 {
                degree[*to] += 1;
                out[*from].push(*to);
            }
        }
        let mut at = 0u64;
        let mut huge_left = 3u64 << 30;
        for (cluster, members) in members.iter().enumerate() {
            // A topological order: offsets point forwards only.
            let mut ready: Vec<usize> = members.iter().copied().filter(|i| degree[*i] == 0).collect();
            let mut order = vec![];
            while !ready.is_empty() {
                let candidates: Vec<usize> =
                    (0..ready.len()).filter(|i| !self.bufs[ready[*i]].big).collect();
                let chosen = if candidates.is_empty() {
                    0
                } else if self.plan.shuffle == 0 {
                    candidates[0]
                } else {
                    candidates[rng.below(candidates.len() as u64) as usize]
                };
                let i = ready.remove(chosen);
                order.push(i);
                for to in out[i].clone() {
                    degree[to] -= 1;
                    if degree[to] == 0 {
                        ready.push(to);
                    }
                }
            }
            assert_eq!(order.len(), members.len(), "HARNESS: a cycle");
            if cluster > 0 {
                if self.plan.huge && huge_left > 0 && rng.below(2) == 0 {
                    let bits = 8 + rng.below(24);
                    let gap = rng.below((1u64 << bits).min(huge_left));
                    huge_left -= gap;
                    at += gap;
                } else if self.plan.gaps > 0 {
                    at += rng.below(9);
                }
                if self.plan.step > 0 {
                    let unit = 1 << if self.plan.huge && rng.below(2) == 0 { 16 } else { self.plan.step };
                    at = at.next_multiple_of(unit) + self.plan.remainder;
                }
            }
            let small = self.plan.gaps & 1 == 1;
            let mut step = self.plan.step;
            let remainder = self.plan.remainder;
            let place = |at0: u64, gap_at: usize, gap: u64, step: u64, pos: &mut Vec<u64>, seed: u64| {
                let mut rng = crate::engine::Rng(seed);
                let mut at = at0;
                for (k, i) in order.iter().enumerate() {
                    if k > 0 {
                        if small {
                            at += rng.below(4);
                        }
                        if k == gap_at {
                            at += gap;
                        }
                        if step > 0 && rng.below(8) > 0 {
                            at = (at - at0).next_multiple_of(1 << step) + remainder + at0;
                        }
                    }
                    pos[*i] = at;
                    at += self.bufs[*i].span();
                }
                at
            };
            let seed = rng.next();
            let mut end = place(at, 0, 0, step, &mut pos, seed);
            let measure = |pos: &[u64]| {
                self.patches
                    .iter()
                    .filter(|p| p.2 == 2 && self.bufs[p.0].cluster == cluster)
                    .map(|p| pos[p.3] - pos[p.0])
                    .max()
                    .unwrap_or(0)
            };
            let mut furthest = measure(&pos);
            if furthest > 65535 && step > 0 {
                step = 0;
                end = place(at, 0, 0, step, &mut pos, seed);
                furthest = measure(&pos);
            }
            if furthest > 65535 {
                return Err(E::Discard("offsets overflow"));
            }
            if self.plan.gaps & 2 == 2 && order.len() > 1 {
                let slack = (65535 - furthest) >> step << step;
                let gap = if rng.below(2) == 0 { slack } else { rng.below(slack + 1) };
                let gap_at = 1 + rng.below(order.len() as u64 - 1) as usize;
                let gap = gap >> step << step;
                end = place(at, gap_at, gap, step, &mut pos, seed);
            }
            at = end;
        }
        for (from, slot, width, to) in &self.patches {
            let offset = pos[*to] - pos[*from];
            if *width == 4 && offset > u32::MAX as u64 {
                return Err(E::Discard("offsets overflow"));
            }
            assert!(offset > 0, "HARNESS: a null offset");
            let bytes = offset.to_be_bytes();
            self.bufs[*from].data[*slot..*slot + *width as usize]
                .copy_from_slice(&bytes[8 - *width as usize..]);
        }
        let mut image = Image { segs: vec![], len: at, fill: self.plan.fill };
        let mut sorted: Vec<usize> = (0..count).collect();
        sorted.sort_by_key(|i| (pos[*i], self.bufs[*i].span()));
        for i in sorted {
            let buf = &mut self.bufs[i];
            let mut from = 0;
            let mut at = pos[i];
            for (start, skip) in &buf.skips {
                if *start > from {
                    image.segs.push((at, buf.data[from..*start].to_vec()));
                }
                at += (*start - from) as u64 + skip;
                from = *start;
            }
            if from == 0 && !buf.data.is_empty() {
                image.segs.push((at, std::mem::take(&mut buf.data)));
            } else if from < buf.data.len() {
                image.segs.push((at, buf.data[from..].to_vec()));
            }
        }
        Ok(image)
    }
}

/// The constraints on flags.
const FLAGS: [&str; 4] =
    ["reserved lookup flag", "reserved value format", "reserved axis flag", "reserved instance flag"];

const TAGS: [&[u8; 4]; 16] = [
    b"DFLT", b"latn", b"cyrl", b"grek", b"kana", b"arab", b"TRK ", b"ROM ", b"MOL ", b"kern", b"liga", b"mark",
    b"mkmk", b"ss01", b"size", b"dflt",
];

impl Codec for Gen<'_> {
    fn num(&mut self, num: Num) -> R<i64> {
        let raw = self.any(num);
        self.put(num.width(), raw);
        Ok(num.interpret(raw))
    }
    fn soft(&mut self, width: u64, low: u64, high: u64) -> R<u64> {
        let value = match self.src.below(4) {
            0 => low,
            1 => self.src.within(low, high.min(low + 8)),
            2 => self.src.within(low, high),
            _ => high - self.src.below(3).min(high - low),
        };
        self.put(width, value);
        Ok(value)
    }
    fn hint(&mut self, num: Num, hint: u64) -> R<i64> {
        let raw = if self.src.chance(1, 2) { hint & ((1u64 << (8 * num.width())) - 1) } else { self.any(num) };
        self.put(num.width(), raw);
        Ok(num.interpret(raw))
    }
    fn tag(&mut self) -> R<i64> {
        let value = match self.src.below(10) {
            0..=5 => u32::from_be_bytes(**self.src.pick(&TAGS)) as u64,
            6 | 7 => {
                let tag = match self.src.below(3) {
                    0 => SCRIPTS[self.src.below(SCRIPTS.len() as u64) as usize].0,
                    1 => FEATURES[self.src.below(FEATURES.len() as u64) as usize].0,
                    _ => LANGUAGES[self.src.below(LANGUAGES.len() as u64) as usize].0,
                };
                u32::from_be_bytes(*tag) as u64
            }
            8 => {
                let tag = **self.src.pick(&TAGS);
                let bit = self.src.below(32) as u32;
                (u32::from_be_bytes(tag) ^ (1 << bit)) as u64
            }
            _ => self.src.below(1 << 32),
        };
        self.put(4, value);
        Ok(value as i64)
    }
    fn fixed(&mut self, width: u64, allowed: &[u64], what: &'static str) -> R<u64> {
        let value = *self.src.pick(allowed);
        let mut emitted = value;
        if let Some(how) = self.violating(what) {
            emitted = unlike(how, width, allowed);
        }
        self.put(width, emitted);
        Ok(value)
    }
    fn foresee(&mut self, _: u64, allowed: &[u64], what: &'static str) -> R<u64> {
        let value = *self.src.pick(allowed);
        self.pending = value;
        if let Some(how) = self.violating(what) {
            self.pending = unlike(how, 2, allowed);
        }
        Ok(value)
    }
    fn foreseen(&mut self) -> R<u64> {
        let value = self.pending;
        self.put(2, value);
        Ok(value)
    }
    fn masked(&mut self, reserved: u16, what: &'static str) -> R<u64> {
        let value = match self.src.below(10) {
            0 | 1 => 0,
            2..=4 => 1 << self.src.below(16),
            5..=7 => self.src.below(1 << 16),
            8 => self.masked,
            _ => 0xFFFF,
        } & !reserved as u64;
        self.masked = value;
        let mut emitted = value;
        if let Some(how) = self.violating(what) {
            let bits: Vec<u32> = (0..16).filter(|bit| reserved >> bit & 1 == 1).collect();
            emitted |= 1 << bits[how as usize % bits.len()];
            if how >> 32 & 3 == 0 {
                emitted |= mix(how) & reserved as u64;
            }
        }
        self.put(2, emitted);
        Ok(value)
    }
    fn bounded(&mut self, low: u64, high: u64, what: &'static str) -> R<u64> {
        if low > high {
            return Err(E::Discard("empty bounds"));
        }
        let value = match self.src.below(4) {
            0 => low,
            1 => high,
            2 => self.src.within(low, high.min(low + 8)),
            _ => self.src.within(low, high),
        };
        let mut emitted = value;
        if low > 0 || high < 65535 {
            if let Some(how) = self.violating(what) {
                let outside = low + (65535 - high);
                let mut pick = match how >> 32 & 3 {
                    // Just outside.
                    0 if high < 65535 => low,
                    1 if low > 0 => low - 1,
                    _ => how % outside,
                };
                if pick >= low {
                    pick = pick - low + high + 1;
                }
                emitted = pick;
            }
        }
        self.put(2, emitted);
        Ok(value)
    }
    fn count(&mut self, least: u64, unit: u64, leaf: bool) -> R<u64> {
        let force = std::mem::take(&mut self.force);
        let bottom = if force { least.max(1) } else { least };
        let mut value = None;
        match self.multiple {
            Some((depth, times)) if self.stack.len() > depth => {
                self.multiple = None;
                let sum = match self.src.below(4) {
                    0 => 32768,
                    1 => 131072,
                    _ => 65536,
                };
                let mut most = 65535;
                if !leaf {
                    most = 65000u64.saturating_sub(self.buf().span()) / unit.max(1);
                }
                let extra = self.src.below(3);
                value = Some(((sum / times).saturating_sub(1) + extra).min(most).max(bottom));
                self.buf().big = true;
            }
            None if !leaf && self.plan.total == Some(self.lists) => {
                let times = match self.src.below(5) {
                    0 => 2 + self.src.below(3),
                    1 => 8 << self.src.below(3),
                    2 => 255 + self.src.below(3),
                    _ => self.src.within(2, 700),
                };
                self.multiple = Some((self.stack.len(), times));
                self.plan.share = 8;
                value = Some(times.max(bottom));
            }
            _ => {}
        }
        if value.is_none() && leaf && self.big_turn() {
            value = Some(match self.src.below(6) {
                0 => 65535,
                1 => 65535 - self.src.below(4),
                2 => 32766 + self.src.below(4),
                3 => 16383 + self.src.below(4),
                _ => 256 + self.src.below(65536 - 256),
            });
        }
        if !leaf {
            let turn = self.plan.wide == Some(self.lists);
            self.lists += 1;
            if turn && value.is_none() {
                // As many as leave what follows within reach.
                let room = 65000u64.saturating_sub(self.buf().span()) / unit.max(1);
                let room = room.saturating_sub(60).min(65535);
                value = Some(match self.src.below(4) {
                    0 => self.src.within(room / 2, room),
                    1 => self.src.within(room - room / 8, room),
                    2 => room,
                    _ => self.src.within(256.min(room), room),
                }.max(bottom));
            }
        }
        let value = match value {
            Some(value) => value,
            None => {
                let cap = (self.left.max(0) as u64 / unit.max(1)).min(65535).max(bottom);
                let n = match self.src.below(16) {
                    0..=10 => self.src.below(4),
                    11..=13 => self.src.below(12),
                    14 => self.src.below(70),
                    _ if leaf => self.src.below(cap.min(2000) + 1),
                    _ => self.src.below(40),
                };
                n.min(cap).max(bottom)
            }
        };
        let mut emitted = value;
        let mut value = value;
        if least > 0 && self.violating("zero count").is_some() {
            emitted = 0;
            value = least;
        }
        self.put(2, emitted);
        Ok(value)
    }
    fn count_far(&mut self, unit: u64) -> R<u64> {
        if self.plan.wide == Some(self.lists) && self.src.chance(1, 2) {
            self.lists += 1;
            let value = match self.src.below(4) {
                0 => 65535 - self.src.below(3),
                1 => 32766 + self.src.below(4),
                _ => self.src.within(16_000, 65535),
            };
            self.put(2, value);
            return Ok(value);
        }
        self.count(0, unit, false)
    }
    fn columns(&mut self) -> R<u64> {
        if !self.plan.cells || self.sparse.is_some() || self.barren.is_some() {
            return self.count(0, 4, false);
        }
        let value = match self.src.below(6) {
            0 => self.src.within(1, 4),
            1 => 128,
            2 => 256 + self.src.below(3),
            3 => 32767 + self.src.below(4),
            4 => 65535 - self.src.below(2),
            _ => self.src.within(1, 65535),
        };
        self.put(2, value);
        self.sparse = Some(value);
        Ok(value)
    }
    fn blocks(&mut self, columns: u64) -> R<u64> {
        if self.sparse.is_none_or(|other| other != columns) || self.barren.is_some() {
            return self.count(0, 2, false);
        }
        let value = 1 + self.src.below(3);
        self.put(2, value);
        Ok(value)
    }
    fn rows(&mut self, columns: u64) -> R<u64> {
        let turn = self.sparse.is_some_and(|other| other == columns) && self.barren.is_none();
        if !turn {
            return self.count(0, 2 * columns.max(1), false);
        }
        // Once.
        self.sparse = None;
        self.plan.cells = false;
        self.barren = Some((*self.stack.last().unwrap(), self.left));
        self.buf().big = true;
        let target = match self.src.below(6) {
            0 => 16384,
            1 => 32768,
            2 | 3 => 65536,
            4 => 131072,
            _ => 65536 + self.src.below(100000),
        };
        let value = (target / columns).saturating_sub(1) + self.src.below(3);
        let value = value.clamp(1, 65535.min(1.max(250_000 / columns)));
        self.put(2, value);
        Ok(value)
    }
    fn grid(&mut self, unit: u64) -> R<(u64, u64)> {
        if unit == 0 && self.plan.cells {
            self.plan.cells = false;
            let target: u64 = *self.src.pick(&[65536, 32768, 70000]);
            let one: u64 = *self.src.pick(&[256, 1, 2, 255, 257, 16384, 65535]);
            let other = ((target / one).saturating_sub(1) + self.src.below(3)).min(70000 / one).min(65535);
            let (one, other) = if self.src.chance(1, 2) { (one, other) } else { (other, one) };
            self.put(2, one);
            self.put(2, other);
            return Ok((one, other));
        }
        let unit = unit.max(2);
        let one = self.count(0, 2 * unit, false)?;
        Ok((one, self.count(0, unit * one.max(1), false)?))
    }
    fn stride(&mut self, least: u64) -> R<u64> {
        let high = if self.plan.far && self.src.chance(3, 4) { 65535 } else { least + 12 };
        self.soft(2, least, high)
    }
    fn strided(&mut self, unit: u64) -> R<u64> {
        if self.plan.far && self.src.chance(1, 10) {
            let value: u64 = match self.src.below(6) {
                0 => 65535,
                1 => 65535 - self.src.below(4),
                2 => 32767 + self.src.below(4),
                _ => { let bits = self.src.within(4, 16); self.src.below(1 << bits) },
            }
            .min(1_500_000 / unit);
            self.put(2, value);
            return Ok(value);
        }
        self.count(0, unit, false)
    }
    fn kind(&mut self, known: u64) -> R<u64> {
        let value = 1 + self.src.below(known);
        let mut emitted = value;
        if let Some(how) = self.violating("lookup type") {
            self.force = true;
            emitted = match how % 3 {
                0 => 0,
                1 => known + 1,
                _ => known + 1 + mix(how) % (65535 - known),
            };
        }
        self.put(2, emitted);
        Ok(value)
    }
    fn nums(&mut self, num: Num, count: u64) -> R<V> {
        let width = num.width();
        let mask = (1u64 << (8 * width)) - 1;
        if count <= 24 {
            let style = if count > 1 { self.src.below(16) } else { 0 };
            let mut values: Vec<u64> = Vec::with_capacity(count as usize);
            for i in 0..count as usize {
                let value = match (style, values.last()) {
                    // Going up, going down, all the same, and the same as the array before.
                    (13, Some(last)) => last.wrapping_add(1),
                    (14, Some(last)) => last.wrapping_sub(1),
                    (12, Some(last)) => *last,
                    (15, _) if i < self.array.len() => self.array[i],
                    _ => self.any(num),
                };
                values.push(value & mask);
                self.put(width, value & mask);
            }
            let result = values.iter().map(|value| num.interpret(*value)).collect();
            self.array = values;
            return Ok(V::A(result));
        }
        // Too long for individual choices.
        let seed = self.src.below(1 << 32);
        let style = self.src.below(8);
        let charged = self.left;
        for i in 0..count {
            let word = match style {
                5 => seed,
                6 => seed.wrapping_add(i),
                7 => seed.wrapping_sub(i),
                _ => mix(seed ^ mix(i)),
            };
            let value = if word >> 60 == 0 && style < 5 { 0 } else { word & mask };
            self.put(width, value);
        }
        self.left = if self.buf().big { charged } else { self.left };
        Ok(V::A(vec![]))
    }
    fn bytes(&mut self, count: u64) -> R<V> {
        self.nums(Num::U8, count)?;
        Ok(V::B(vec![]))
    }
    fn off(&mut self, width: u64, null: Null) -> R<Off> {
        let index = *self.stack.last().unwrap();
        let at = self.bufs[index].data.len();
        let barren = self.barren.is_some_and(|(buf, _)| buf == index);
        let mut value = match null {
            Null::Never => 1,
            Null::Maybe if barren => 0,
            Null::Maybe => self.src.below(3).min(1),
            Null::Lacking(lack) => {
                if self.plan.lacking && self.plan.cfg.tolerates(lack) && self.src.chance(1, 3) {
                    self.lacked = true;
                    0
                } else {
                    1
                }
            }
        };
        if let Null::Lacking(lack) = null {
            let what = match lack {
                Lack::Dirs => "missing list",
                Lack::Marks => "missing mark anchor",
            };
            if !self.plan.cfg.tolerates(lack) && self.violating(what).is_some() {
                value = 0;
            }
        }
        self.put(width, 0);
        Ok(Off { value, buf: index, at, width: width as u8 })
    }
    fn child(&mut self, off: Off, key: u64, body: Body<Self>) -> R<V> {
        // A violated constraint may have nullified the offset.
        if off.value == 0 {
            return Ok(V::None);
        }
        let parent = *self.stack.last().unwrap();
        let domain = if off.width == 2 { self.bufs[parent].cluster } else { (1 << 32) + parent };
        let pooled = self.pools.get(&(key, domain)).map_or(0, |pool| pool.len());
        if pooled > 0 {
            let short = self.left < 40;
            if short || self.src.chance(self.plan.share, 8) {
                let pick = self.src.below(pooled as u64) as usize;
                let target = self.pools[&(key, domain)][pick];
                // The root of a cluster of its own is out of reach of 16 bits from elsewhere.
                self.patches.push((off.buf, off.at, off.width, target));
                return Ok(V::None);
            }
        }
        let cluster = if off.width == 2 {
            self.bufs[parent].cluster
        } else {
            self.clusters += 1;
            self.clusters - 1
        };
        let index = self.bufs.len();
        if index > 6000 {
            return Err(E::Discard("too many subtables"));
        }
        self.bufs.push(Buf { cluster, ..Buf::default() });
        self.stack.push(index);
        let result = body(self);
        self.stack.pop();
        result?;
        if let Some((_, left)) = self.barren.take_if(|(buf, _)| *buf == index) {
            self.left = left;
        }
        self.patches.push((off.buf, off.at, off.width, index));
        self.pools.entry((key, domain)).or_default().push(index);
        Ok(V::None)
    }
    fn seek(&mut self, to: u64) -> R<()> {
        let far = self.plan.far;
        let buf = self.buf();
        let from = buf.span();
        if to < from {
            panic!("HARNESS: seeking backwards");
        }
        if to > from {
            buf.skips.push((buf.data.len(), to - from));
            buf.skipped += to - from;
        }
        if !far {
            self.left -= (to - from) as i64 / 4;
        }
        Ok(())
    }
    fn slack(&mut self, count: u64) {
        let at = self.buf().span();
        let _ = self.seek(at + count);
    }
    fn charge(&mut self, _: u64) -> R<()> {
        Ok(())
    }
    fn shape(&mut self) -> R<(u64, u64, u64)> {
        if self.big_turn() {
            // Extreme shapes, among them the ones with a short count plus a region count over 16 bits.
            let (items, short, regions) = match self.src.below(8) {
                // More bytes than fit into 24 bits.
                6 if self.src.chance(1, 16) => {
                    let (short, regions) = (self.src.below(0x8000), 0x8000 + self.src.below(0x8000));
                    ((17 << 20) / (short + regions) + self.src.below(200), short, regions)
                }
                7 if self.src.chance(1, 16) => {
                    let items = 65535 - self.src.below(20000);
                    let unit = (17 << 20) / items + self.src.below(100);
                    let short = self.src.below(unit / 2);
                    (items, short, unit - short)
                }
                0 => (self.src.below(4), 0x7FFF, 0x7FFF),
                1 => (self.src.below(3), 0x7FFF, 65535),
                2 => (self.src.below(3), 1 + self.src.below(0x7FFF), 65535 - self.src.below(3)),
                3 => (65535, self.src.below(3), 2 + self.src.below(4)),
                4 => (65535 - self.src.below(40000), 0, self.src.below(3)),
                _ => {
                    let regions = self.src.below(1200);
                    (self.src.below(300), self.src.within(0, regions), regions)
                }
            };
            for value in [items, short, regions] {
                self.put(2, value);
            }
            return Ok((items, short, regions));
        }
        let cap = |left: i64, unit: u64| left.max(0) as u64 / unit;
        let regions = self.src.below(5).min(cap(self.left, 4));
        let regions = if self.src.chance(1, 8) { self.src.below(40).min(cap(self.left, 8)) } else { regions };
        let short = match self.src.below(3) {
            0 => self.src.below(regions + 1),
            1 => 0,
            _ => regions,
        };
        let items = match self.src.below(8) {
            0..=5 => self.src.below(5),
            6 => self.src.below(40),
            _ => self.src.below(600),
        }
        .min(cap(self.left, short + regions + 1));
        for value in [items, short, regions] {
            self.put(2, value);
        }
        Ok((items, short, regions))
    }
    fn palettes(&mut self) -> R<(u64, u64, u64)> {
        let (mut entries, palettes, colors);
        if self.big_turn() {
            colors = 65535 - self.src.below(3) * self.src.below(30000);
            entries = match self.src.below(3) {
                0 => colors,
                1 => self.src.within(0, colors),
                _ => self.src.below(20),
            };
            palettes = if self.src.chance(1, 4) {
                entries = entries.min(self.src.below(12));
                match self.src.below(3) {
                    0 => 65535 - self.src.below(3),
                    1 => 32766 + self.src.below(4),
                    _ => self.src.below(65536),
                }
            } else {
                self.src.below(6)
            };
        } else {
            palettes = self.src.below(5).min((self.left.max(0) / 2) as u64);
            entries = match self.src.below(8) {
                0..=5 => self.src.below(5),
                6 => self.src.below(300),
                _ if palettes == 0 => self.src.below(65536),
                _ => 0,
            };
            let least = if palettes > 0 { entries } else { 0 };
            colors = least + match self.src.below(4) {
                0 => 0,
                1 | 2 => self.src.below(6),
                _ => self.src.below(400),
            };
        }
        for value in [entries, palettes, colors] {
            self.put(2, value);
        }
        Ok((entries, palettes, colors))
    }
    fn sizes(&mut self) -> R<(u64, u64)> {
        let start = match self.src.below(4) {
            0 => self.src.below(30),
            1 => 0,
            2 => 65535 - self.src.below(40),
            _ => self.src.below(65536),
        };
        let span = match self.src.below(8) {
            0..=2 => self.src.below(9),
            3..=5 => self.src.below(36),
            6 => 8 * (1 + self.src.below(20)) - 1,
            _ if self.left > 2000 => self.src.below((self.left as u64 * 4).min(65536)),
            _ => self.src.below(120),
        };
        let end = (start + span).min(65535);
        let mut emitted = (start, end);
        if let Some(how) = self.violating("inverted size range") {
            if start < end && how % 2 == 0 {
                emitted = (end, start);
            } else if start > 0 {
                emitted.1 = if how % 3 == 0 { start - 1 } else { mix(how) % start };
            } else if end < 65535 {
                emitted.0 = end + 1;
            } else {
                emitted = (65535, 65534);
            }
        }
        self.put(2, emitted.0);
        self.put(2, emitted.1);
        Ok((start, end))
    }
    fn note(&mut self, _: &'static str) {}
    fn reserve(&mut self, part: i64) -> i64 {
        let kept = self.left.max(0) - self.left.max(0) / part;
        self.left -= kept;
        kept
    }
    fn release(&mut self, kept: i64) {
        self.left += kept;
    }
}

impl Gen<'_> {
    /// Whether the array at hand is the one that is to be big.
    fn big_turn(&mut self) -> bool {
        let turn = self.plan.big == Some(self.arrays) && !self.big_used;
        self.arrays += 1;
        if turn {
            self.big_used = true;
            self.buf().big = true;
        }
        turn
    }
}

fn unlike(how: u64, width: u64, allowed: &[u64]) -> u64 {
    let mask = if width >= 8 { u64::MAX } else { (1 << (8 * width)) - 1 };
    let mut value = match how % 5 {
        0 => allowed.iter().max().unwrap() + 1,
        1 => 0,
        2 => mix(how) % 16,
        3 => allowed[0] ^ (1 << (mix(how) % (8 * width))),
        _ => mix(how),
    } & mask;
    while allowed.contains(&value) {
        value = (value + 1) & mask;
    }
    value
}

/// A count of raw bits set.
pub fn bits(value: u64) -> u64 {
    value.count_ones() as u64
}
