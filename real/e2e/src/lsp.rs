//! The real language server, run in a thread and spoken to over lsp-server's in-memory connection.
use lsp_server::{Connection, Message, Notification, Request, RequestId};
use serde_json::{Value, json};
use std::path::Path;
use std::time::Duration;

pub struct Lsp { c: Connection, next: i32, pub answer: Value, pub enc: Enc }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc { U8, U16, U32 }
pub fn uri(p: &Path) -> String { format!("file://{}", p.display()) }
/// an LSP position: line and units from its start
pub fn position(text: &str, off: usize, e: Enc) -> (usize, usize) {
    let before = &text[..off];
    let line = before.rsplit('\n').next().unwrap();
    (before.matches('\n').count(), match e { Enc::U8 => line.len(), Enc::U16 => line.encode_utf16().count(), Enc::U32 => line.chars().count() })
}
/// the offset with this position
pub fn offset(text: &str, p: (usize, usize), e: Enc) -> Option<usize> { (0..=text.len()).filter(|i| text.is_char_boundary(*i)).find(|i| position(text, *i, e) == p) }
pub fn pos(v: &Value) -> Option<(usize, usize)> { Some((v["line"].as_u64()? as usize, v["character"].as_u64()? as usize)) }
pub fn range(v: &Value) -> Option<((usize, usize), (usize, usize))> { Some((pos(&v["start"])?, pos(&v["end"])?)) }
pub fn to_json(r: ((usize, usize), (usize, usize))) -> Value { let p = |p: (usize, usize)| json!({"line": p.0, "character": p.1}); json!({"start": p(r.0), "end": p(r.1)}) }
impl Lsp {
    /// a server for a client that offers these encodings
    pub fn new(offered: Option<&[&str]>) -> Lsp { Lsp::with(match offered { Some(o) => json!({"capabilities": {"general": {"positionEncodings": o}}}), None => json!({"capabilities": {}}) }) }
    pub fn with(params: Value) -> Lsp {
        let (server, c) = Connection::memory();
        std::thread::spawn(move || { let _ = jarl_lsp::Server::new(std::num::NonZeroUsize::new(1).unwrap(), server).unwrap().run(); });
        let mut l = Lsp { c, next: 0, answer: Value::Null, enc: Enc::U16 };
        l.answer = l.request("initialize", params).expect("initialize").0;
        l.enc = match l.answer["capabilities"]["positionEncoding"].as_str() { Some("utf-8") => Enc::U8, Some("utf-32") => Enc::U32, _ => Enc::U16 };
        l.notify("initialized", json!({}));
        l
    }
    pub fn notify(&self, m: &str, params: Value) { let _ = self.c.sender.send(Message::Notification(Notification { method: m.into(), params })); }
    /// the answer, and the notifications that came before it
    pub fn request(&mut self, m: &str, params: Value) -> Result<(Value, Vec<(String, Value)>), String> {
        self.next += 1;
        let id: RequestId = self.next.into();
        self.c.sender.send(Message::Request(Request { id: id.clone(), method: m.into(), params })).map_err(|_| "the server is gone")?;
        let mut told = vec![];
        loop {
            match self.c.receiver.recv_timeout(Duration::from_secs(30)).map_err(|e| format!("no answer to {m}: {e}"))? {
                Message::Notification(n) => told.push((n.method, n.params)),
                Message::Response(r) if r.id == id => return match (r.result, r.error) { (Some(v), None) => Ok((v, told)), (None, None) => Ok((Value::Null, told)), (_, e) => Err(format!("{m}: {e:?}")) },
                _ => {}
            }
        }
    }
    pub fn open(&self, f: &Path, text: &str) { self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri(f), "languageId": "r", "version": 1, "text": text}})); }
    pub fn close(&self, f: &Path) { self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri(f)}})); }
    pub fn actions(&mut self, f: &Path, r: ((usize, usize), (usize, usize))) -> Result<(Vec<Value>, Vec<(String, Value)>), String> {
        let (v, told) = self.request("textDocument/codeAction", json!({"textDocument": {"uri": uri(f)}, "range": to_json(r), "context": {"diagnostics": []}}))?;
        Ok((v.as_array().ok_or("no list of actions")?.clone(), told))
    }
    /// save the document: the diagnostics published for it (None: nothing was published)
    pub fn save(&mut self, f: &Path) -> Result<Option<Vec<Value>>, String> {
        self.notify("textDocument/didSave", json!({"textDocument": {"uri": uri(f)}}));
        // there is one worker: what is asked now is answered when the document is done
        let (_, told) = self.actions(f, ((0, 0), (0, 0)))?;
        let mut got = None;
        for (m, p) in told { if m == "textDocument/publishDiagnostics" && p["uri"] == uri(f) { got = Some(p["diagnostics"].as_array().ok_or("no list of diagnostics")?.clone()); } }
        Ok(got)
    }
}
