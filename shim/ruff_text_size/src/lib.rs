//! Stand-in for ruff_text_size: offsets and ranges.
use std::ops::{Add, Sub};

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TextSize(u32);

impl TextSize {
    pub const fn new(raw: u32) -> Self {
        Self(raw)
    }
    pub const fn to_u32(self) -> u32 {
        self.0
    }
    pub const fn to_usize(self) -> usize {
        self.0 as usize
    }
}

impl From<u32> for TextSize {
    fn from(raw: u32) -> Self {
        Self(raw)
    }
}

impl From<TextSize> for u32 {
    fn from(size: TextSize) -> Self {
        size.0
    }
}

impl From<TextSize> for usize {
    fn from(size: TextSize) -> Self {
        size.0 as usize
    }
}

impl TryFrom<usize> for TextSize {
    type Error = std::num::TryFromIntError;
    fn try_from(raw: usize) -> Result<Self, Self::Error> {
        Ok(Self(u32::try_from(raw)?))
    }
}

impl Add for TextSize {
    type Output = Self;
    fn add(self, other: Self) -> Self {
        Self(self.0 + other.0)
    }
}

impl Sub for TextSize {
    type Output = Self;
    fn sub(self, other: Self) -> Self {
        Self(self.0 - other.0)
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash)]
pub struct TextRange {
    start: TextSize,
    end: TextSize,
}

impl TextRange {
    pub const fn new(start: TextSize, end: TextSize) -> Self {
        Self { start, end }
    }
    pub const fn start(self) -> TextSize {
        self.start
    }
    pub const fn end(self) -> TextSize {
        self.end
    }
    pub const fn len(self) -> TextSize {
        TextSize(self.end.0 - self.start.0)
    }
    pub const fn is_empty(self) -> bool {
        self.start.0 == self.end.0
    }
    pub fn contains(self, offset: TextSize) -> bool {
        self.start <= offset && offset < self.end
    }
}

impl From<TextRange> for std::ops::Range<usize> {
    fn from(range: TextRange) -> Self {
        range.start.to_usize()..range.end.to_usize()
    }
}

impl std::ops::Index<TextRange> for str {
    type Output = str;
    fn index(&self, range: TextRange) -> &str {
        &self[std::ops::Range::<usize>::from(range)]
    }
}

pub trait Ranged {
    fn range(&self) -> TextRange;
    fn start(&self) -> TextSize {
        self.range().start()
    }
    fn end(&self) -> TextSize {
        self.range().end()
    }
}

impl Ranged for TextRange {
    fn range(&self) -> TextRange {
        *self
    }
}

impl<T: Ranged> Ranged for &T {
    fn range(&self) -> TextRange {
        T::range(self)
    }
}
