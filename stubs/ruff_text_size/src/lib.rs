//! Signature stub of `ruff_text_size` (types only): it lets the compiler type-check rtest's modules when the
//! ruff submodule is absent. Nothing in here is ever executed.
use std::ops::{Add, Sub};
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TextSize { raw: u32 }
impl TextSize {
    pub const fn new(raw: u32) -> Self { Self { raw } }
    pub const fn to_u32(self) -> u32 { self.raw }
    pub const fn to_usize(self) -> usize { self.raw as usize }
}
impl From<u32> for TextSize { fn from(raw: u32) -> Self { Self { raw } } }
impl From<TextSize> for u32 { fn from(v: TextSize) -> u32 { v.raw } }
impl From<TextSize> for usize { fn from(v: TextSize) -> usize { v.raw as usize } }
impl Add for TextSize { type Output = Self; fn add(self, o: Self) -> Self { Self { raw: self.raw + o.raw } } }
impl Sub for TextSize { type Output = Self; fn sub(self, o: Self) -> Self { Self { raw: self.raw - o.raw } } }
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct TextRange { start: TextSize, end: TextSize }
impl TextRange {
    pub const fn new(start: TextSize, end: TextSize) -> Self { Self { start, end } }
    pub const fn start(self) -> TextSize { self.start }
    pub const fn end(self) -> TextSize { self.end }
    pub fn len(self) -> TextSize { self.end - self.start }
    pub fn is_empty(self) -> bool { self.start == self.end }
    pub fn contains(self, o: TextSize) -> bool { self.start <= o && o < self.end }
}
pub trait Ranged {
    fn range(&self) -> TextRange;
    fn start(&self) -> TextSize { self.range().start() }
    fn end(&self) -> TextSize { self.range().end() }
}
impl Ranged for TextRange { fn range(&self) -> TextRange { *self } }
impl<T: Ranged> Ranged for &T { fn range(&self) -> TextRange { (**self).range() } }
impl<T: Ranged> Ranged for Box<T> { fn range(&self) -> TextRange { (**self).range() } }
