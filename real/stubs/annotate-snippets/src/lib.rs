//! stand-in for the crate annotate-snippets (not available here): plain text, annotations of one line
#![allow(clippy::all)]
#[derive(Clone, Debug)]
pub struct Renderer;
impl Renderer { pub const fn styled() -> Self { Renderer } pub const fn plain() -> Self { Renderer } pub fn render<'a>(&self, m: Message<'a>) -> String { m.show() } }
#[derive(Clone, Copy, Debug)]
pub enum Level { Error, Warning, Info, Note, Help }
impl Level {
    fn name(self) -> &'static str { match self { Level::Error => "error", Level::Warning => "warning", Level::Info => "info", Level::Note => "note", Level::Help => "help" } }
    pub fn title(self, t: &str) -> Message<'_> { Message { level: self, title: t, snippets: vec![], footer: vec![] } }
    pub fn span<'a>(self, r: std::ops::Range<usize>) -> Annotation<'a> { Annotation { r, label: None } }
}
pub struct Annotation<'a> { r: std::ops::Range<usize>, label: Option<&'a str> }
impl<'a> Annotation<'a> { pub fn label(mut self, l: &'a str) -> Self { self.label = Some(l); self } }
pub struct Snippet<'a> { source: &'a str, origin: Option<&'a str>, a: Vec<Annotation<'a>> }
impl<'a> Snippet<'a> {
    pub fn source(s: &'a str) -> Self { Snippet { source: s, origin: None, a: vec![] } }
    pub fn origin(mut self, o: &'a str) -> Self { self.origin = Some(o); self }
    pub fn fold(self, _b: bool) -> Self { self }
    pub fn line_start(self, _n: usize) -> Self { self }
    pub fn annotation(mut self, a: Annotation<'a>) -> Self { self.a.push(a); self }
}
pub struct Message<'a> { level: Level, title: &'a str, snippets: Vec<Snippet<'a>>, footer: Vec<Message<'a>> }
impl<'a> Message<'a> {
    pub fn snippet(mut self, s: Snippet<'a>) -> Self { self.snippets.push(s); self }
    pub fn footer(mut self, m: Message<'a>) -> Self { self.footer.push(m); self }
    fn show(&self) -> String {
        let mut o = format!("{}: {}", self.level.name(), self.title);
        let mut pad = String::new();
        for s in &self.snippets {
            for a in &s.a {
                let (st, en) = (a.r.start, a.r.end);
                let l0 = s.source[..st].rfind('\n').map_or(0, |k| k + 1);
                let row = s.source[..st].matches('\n').count() + 1;
                let col = s.source[l0..st].chars().count() + 1;
                let l1 = s.source[st..].find('\n').map_or(s.source.len(), |k| st + k);
                pad = " ".repeat(row.to_string().len());
                o += &format!("\n{pad}--> {}:{row}:{col}\n{pad} |\n", s.origin.unwrap_or(""));
                if en > l1 { o += "<several lines>"; continue; }
                let w = s.source[st..en].chars().count().max(1);
                o += &format!("{row} | {}\n{pad} | {}{} {}\n{pad} |", s.source[l0..l1].trim_end_matches('\r'), " ".repeat(col - 1), "-".repeat(w), a.label.unwrap_or(""));
            }
        }
        for f in &self.footer { o += &format!("\n{pad} = {}: {}", f.level.name(), f.title.replace("\n", &format!("\n{}", " ".repeat(pad.len() + 5 + f.level.name().len())))); }
        o
    }
}
