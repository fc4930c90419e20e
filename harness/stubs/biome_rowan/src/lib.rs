//! biome's TextSize and TextRange, as far as the code under test uses them
#![allow(dead_code)]
use serde::{Deserialize, Serialize};
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct TextSize(pub u32);
impl From<u32> for TextSize { fn from(x: u32) -> Self { TextSize(x) } }
impl From<TextSize> for u32 { fn from(x: TextSize) -> u32 { x.0 } }
impl From<TextSize> for usize { fn from(x: TextSize) -> usize { x.0 as usize } }
impl TryFrom<usize> for TextSize { type Error = std::num::TryFromIntError; fn try_from(x: usize) -> Result<Self, Self::Error> { Ok(TextSize(u32::try_from(x)?)) } }
impl std::ops::Add for TextSize { type Output = TextSize; fn add(self, o: TextSize) -> TextSize { TextSize(self.0 + o.0) } }
impl std::ops::Sub for TextSize { type Output = TextSize; fn sub(self, o: TextSize) -> TextSize { TextSize(self.0 - o.0) } }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct TextRange { s: TextSize, e: TextSize }
impl TextRange {
    pub fn new(s: TextSize, e: TextSize) -> Self { assert!(s <= e); TextRange { s, e } }
    pub fn at(s: TextSize, len: TextSize) -> Self { TextRange::new(s, s + len) }
    pub fn empty(s: TextSize) -> Self { TextRange { s, e: s } }
    pub fn up_to(e: TextSize) -> Self { TextRange { s: TextSize(0), e } }
    pub fn start(self) -> TextSize { self.s }
    pub fn end(self) -> TextSize { self.e }
    pub fn len(self) -> TextSize { self.e - self.s }
    pub fn is_empty(self) -> bool { self.s == self.e }
    pub fn contains(self, o: TextSize) -> bool { self.s <= o && o < self.e }
    pub fn contains_inclusive(self, o: TextSize) -> bool { self.s <= o && o <= self.e }
    pub fn contains_range(self, o: TextRange) -> bool { self.s <= o.s && o.e <= self.e }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> { let s = self.s.max(o.s); let e = self.e.min(o.e); if e < s { None } else { Some(TextRange { s, e }) } }
    pub fn cover(self, o: TextRange) -> TextRange { TextRange { s: self.s.min(o.s), e: self.e.max(o.e) } }
    pub fn ordering(self, o: TextRange) -> std::cmp::Ordering { if self.e <= o.s { std::cmp::Ordering::Less } else if o.e <= self.s { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal } }
    pub fn checked_add(self, o: TextSize) -> Option<TextRange> { Some(TextRange { s: TextSize(self.s.0.checked_add(o.0)?), e: TextSize(self.e.0.checked_add(o.0)?) }) }
    pub fn checked_sub(self, o: TextSize) -> Option<TextRange> { Some(TextRange { s: TextSize(self.s.0.checked_sub(o.0)?), e: TextSize(self.e.0.checked_sub(o.0)?) }) }
}
impl std::ops::Add<TextSize> for TextRange { type Output = TextRange; fn add(self, o: TextSize) -> TextRange { TextRange { s: self.s + o, e: self.e + o } } }
impl std::ops::Sub<TextSize> for TextRange { type Output = TextRange; fn sub(self, o: TextSize) -> TextRange { TextRange { s: self.s - o, e: self.e - o } } }
