// ---- stub of lsp_types::Position (two public u32 fields, plain constructor) ----
#[derive(Clone, Copy)]
pub struct Position { pub line: u32, pub character: u32 }
impl Position {
    pub fn new(line: u32, character: u32) -> (p: Position) ensures p.line == line, p.character == character
    { Position { line, character } }
}
#[derive(Clone, Copy)]
pub struct Range { pub start: Position, pub end: Position }
impl Range {
    pub fn new(start: Position, end: Position) -> (p: Range) ensures p.start == start, p.end == end
    { Range { start, end } }
}
