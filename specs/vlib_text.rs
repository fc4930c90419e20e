// biome's text_size (TRUSTED stubs: a size is a u32 byte count, a range is a pair start <= end)
#[derive(Clone, Copy)]
pub struct TextSize { pub raw: u32 }
impl TextSize {
    pub fn vx_into(self) -> (r: usize) ensures r == self.raw { self.raw as usize }
    pub fn from(raw: u32) -> (r: TextSize) ensures r.raw == raw { TextSize { raw } }
}
#[derive(Clone, Copy)]
pub struct TextRange { pub s: u32, pub e: u32 }
impl TextRange {
    pub open spec fn wf(&self) -> bool { self.s <= self.e }
    pub fn start(self) -> (r: TextSize) ensures r.raw == self.s { TextSize { raw: self.s } }
    pub fn end(self) -> (r: TextSize) ensures r.raw == self.e { TextSize { raw: self.e } }
    /// panics unless start <= end
    pub fn new(start: TextSize, end: TextSize) -> (r: TextRange)
        requires start.raw <= end.raw
        ensures r.s == start.raw, r.e == end.raw
    { TextRange { s: start.raw, e: end.raw } }
    /// the smallest range that holds both
    pub fn cover(self, o: TextRange) -> (r: TextRange) ensures r.s == (if self.s <= o.s { self.s } else { o.s }), r.e == (if self.e >= o.e { self.e } else { o.e }) { TextRange { s: if self.s <= o.s { self.s } else { o.s }, e: if self.e >= o.e { self.e } else { o.e } } }
    pub fn contains(self, o: TextSize) -> (r: bool) ensures r == (self.s <= o.raw < self.e) { self.s <= o.raw && o.raw < self.e }
    pub fn contains_range(self, o: TextRange) -> (r: bool) ensures r == (self.s <= o.s && o.e <= self.e) { self.s <= o.s && o.e <= self.e }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for TextSize {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TextSize) -> bool { self.raw == o.raw }
}
impl PartialEq for TextSize {
    fn eq(&self, o: &TextSize) -> (r: bool) { self.raw == o.raw }
}
impl Eq for TextSize { }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TextRange {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TextRange) -> bool { self.s == o.s && self.e == o.e }
}
impl PartialEq for TextRange {
    fn eq(&self, o: &TextRange) -> (r: bool) { self.s == o.s && self.e == o.e }
}
impl Eq for TextRange { }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for TextSize {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &TextSize) -> Option<core::cmp::Ordering> {
        Some(if self.raw < o.raw { core::cmp::Ordering::Less } else if self.raw == o.raw { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
impl PartialOrd for TextSize {
    fn partial_cmp(&self, o: &TextSize) -> (r: Option<core::cmp::Ordering>) {
        if self.raw < o.raw { Some(core::cmp::Ordering::Less) } else if self.raw == o.raw { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
