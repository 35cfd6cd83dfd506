//! TextSize / TextRange, same surface as biome_text_size.
use serde::{Deserialize, Serialize};
use std::fmt;
use std::ops::{Add, AddAssign, Bound, Index, IndexMut, Range, RangeBounds, Sub, SubAssign};

#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(transparent)]
pub struct TextSize {
    pub(crate) raw: u32,
}
impl fmt::Debug for TextSize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.raw)
    }
}
impl TextSize {
    pub fn of<T: AsRef<str>>(text: T) -> TextSize {
        TextSize { raw: text.as_ref().len() as u32 }
    }
    pub const fn new(raw: u32) -> TextSize {
        TextSize { raw }
    }
    pub fn checked_add(self, rhs: TextSize) -> Option<TextSize> {
        self.raw.checked_add(rhs.raw).map(|raw| TextSize { raw })
    }
    pub fn checked_sub(self, rhs: TextSize) -> Option<TextSize> {
        self.raw.checked_sub(rhs.raw).map(|raw| TextSize { raw })
    }
}
impl From<u32> for TextSize {
    fn from(raw: u32) -> Self {
        TextSize { raw }
    }
}
impl From<TextSize> for u32 {
    fn from(v: TextSize) -> Self {
        v.raw
    }
}
impl TryFrom<usize> for TextSize {
    type Error = std::num::TryFromIntError;
    fn try_from(v: usize) -> Result<Self, Self::Error> {
        Ok(u32::try_from(v)?.into())
    }
}
impl From<TextSize> for usize {
    fn from(v: TextSize) -> Self {
        v.raw as usize
    }
}
macro_rules! ops {
    ($($tr:ident $f:ident $op:tt),*) => {$(
        impl $tr<TextSize> for TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { TextSize { raw: self.raw $op o.raw } } }
        impl $tr<&TextSize> for TextSize { type Output = TextSize; fn $f(self, o: &TextSize) -> TextSize { TextSize { raw: self.raw $op o.raw } } }
        impl $tr<TextSize> for &TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { TextSize { raw: self.raw $op o.raw } } }
        impl $tr<TextSize> for TextRange { type Output = TextRange; fn $f(self, o: TextSize) -> TextRange { TextRange { start: self.start $op o, end: self.end $op o } } }
    )*};
}
ops!(Add add +, Sub sub -);
impl AddAssign for TextSize {
    fn add_assign(&mut self, o: TextSize) {
        *self = *self + o
    }
}
impl SubAssign for TextSize {
    fn sub_assign(&mut self, o: TextSize) {
        *self = *self - o
    }
}
impl std::iter::Sum for TextSize {
    fn sum<I: Iterator<Item = TextSize>>(it: I) -> TextSize {
        it.fold(0.into(), |a, b| a + b)
    }
}

#[derive(Default, Copy, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
#[serde(into = "(TextSize, TextSize)", from = "(TextSize, TextSize)")]
pub struct TextRange {
    start: TextSize,
    end: TextSize,
}
impl From<TextRange> for (TextSize, TextSize) {
    fn from(r: TextRange) -> Self {
        (r.start, r.end)
    }
}
impl From<(TextSize, TextSize)> for TextRange {
    fn from(r: (TextSize, TextSize)) -> Self {
        TextRange { start: r.0, end: r.1 }
    }
}
impl PartialOrd for TextRange {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TextRange {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.start.cmp(&o.start).then(self.end.cmp(&o.end))
    }
}
impl fmt::Debug for TextRange {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}..{}", self.start.raw, self.end.raw)
    }
}
impl TextRange {
    #[track_caller]
    pub fn new(start: TextSize, end: TextSize) -> TextRange {
        assert!(start <= end);
        TextRange { start, end }
    }
    pub fn at(offset: TextSize, len: TextSize) -> TextRange {
        TextRange::new(offset, offset + len)
    }
    pub fn empty(offset: TextSize) -> TextRange {
        TextRange { start: offset, end: offset }
    }
    pub fn up_to(end: TextSize) -> TextRange {
        TextRange { start: 0.into(), end }
    }
    pub const fn start(self) -> TextSize {
        self.start
    }
    pub const fn end(self) -> TextSize {
        self.end
    }
    pub const fn len(self) -> TextSize {
        TextSize { raw: self.end.raw - self.start.raw }
    }
    pub const fn is_empty(self) -> bool {
        self.start.raw == self.end.raw
    }
    pub fn contains(self, o: TextSize) -> bool {
        self.start <= o && o < self.end
    }
    pub fn contains_inclusive(self, o: TextSize) -> bool {
        self.start <= o && o <= self.end
    }
    pub fn contains_range(self, o: TextRange) -> bool {
        self.start <= o.start && o.end <= self.end
    }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> {
        let start = self.start.max(o.start);
        let end = self.end.min(o.end);
        (start <= end).then_some(TextRange { start, end })
    }
    pub fn cover(self, o: TextRange) -> TextRange {
        TextRange { start: self.start.min(o.start), end: self.end.max(o.end) }
    }
    pub fn cover_offset(self, o: TextSize) -> TextRange {
        self.cover(TextRange::empty(o))
    }
    pub fn add_start(&self, o: TextSize) -> TextRange {
        TextRange { start: self.start + o, end: self.end }
    }
    pub fn add_end(&self, o: TextSize) -> TextRange {
        TextRange { start: self.start, end: self.end + o }
    }
    pub fn sub_start(&self, o: TextSize) -> TextRange {
        TextRange { start: self.start - o, end: self.end }
    }
    pub fn sub_end(&self, o: TextSize) -> TextRange {
        TextRange { start: self.start, end: self.end - o }
    }
    pub fn checked_add(self, o: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_add(o)?, end: self.end.checked_add(o)? })
    }
    pub fn checked_sub(self, o: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_sub(o)?, end: self.end.checked_sub(o)? })
    }
    pub fn ordering(self, o: TextRange) -> std::cmp::Ordering {
        use std::cmp::Ordering;
        if self.end <= o.start {
            Ordering::Less
        } else if o.end <= self.start {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    }
}
impl From<TextRange> for Range<usize> {
    fn from(r: TextRange) -> Self {
        r.start.into()..r.end.into()
    }
}
impl From<TextRange> for Range<u32> {
    fn from(r: TextRange) -> Self {
        r.start.into()..r.end.into()
    }
}
impl RangeBounds<TextSize> for TextRange {
    fn start_bound(&self) -> Bound<&TextSize> {
        Bound::Included(&self.start)
    }
    fn end_bound(&self) -> Bound<&TextSize> {
        Bound::Excluded(&self.end)
    }
}
impl Index<TextRange> for str {
    type Output = str;
    fn index(&self, r: TextRange) -> &str {
        &self[Range::<usize>::from(r)]
    }
}
impl Index<TextRange> for String {
    type Output = str;
    fn index(&self, r: TextRange) -> &str {
        &self[Range::<usize>::from(r)]
    }
}
impl IndexMut<TextRange> for String {
    fn index_mut(&mut self, r: TextRange) -> &mut str {
        &mut self[Range::<usize>::from(r)]
    }
}
