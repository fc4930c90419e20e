// oracle for P19, written from the property text: histories of client calls, also from several threads through clones
#[path = "/repo/crates/jarl-lsp/src/client.rs"]
#[allow(dead_code)]
mod client;
use client::{Client, ToLspError};
use lsp_server::{Message, RequestId, ResponseError};
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Request, Answer(i32), Null(i32), Error(i32), Notice(usize), Show, Publish, Log, Got(i32), GotError(i32), Cleanup, Clone }
const OPS: [Op; 14] = [Op::Request, Op::Answer(1), Op::Null(2), Op::Error(1), Op::Error(7), Op::Notice(1), Op::Notice(60), Op::Show, Op::Publish, Op::Log, Op::Got(1), Op::GotError(2), Op::Cleanup, Op::Clone];

fn rid(i: i32) -> RequestId { if i % 3 == 0 { RequestId::from(format!("s{i}")) } else { RequestId::from(i) } }
fn one(c: &mut Client, op: Op) -> anyhow::Result<Option<bool>> {
    match op {
        Op::Request => c.send_request::<lsp_types::request::WorkDoneProgressCreate>(lsp_types::WorkDoneProgressCreateParams { token: lsp_types::NumberOrString::Number(1) }, |_| {})?,
        Op::Answer(i) => c.send_response(rid(i), vec![i, 2])?,
        Op::Null(i) => c.send_response(rid(i), Option::<i32>::None)?,
        Op::Error(i) => c.send_error_response(rid(i), anyhow::anyhow!("bad {i}").to_lsp_error())?,
        Op::Notice(n) => return c.notify_unused_fn_threshold_once(n).map(Some),
        Op::Show => c.show_message("m", lsp_types::MessageType::WARNING)?,
        Op::Publish => c.publish_diagnostics(lsp_types::Url::parse("file:///a.R").unwrap(), vec![], Some(3))?,
        Op::Log => c.log_message("l", lsp_types::MessageType::LOG)?,
        Op::Got(i) => c.handle_response(lsp_server::Response { id: rid(i), result: Some(serde_json::json!(1)), error: None }),
        Op::GotError(i) => c.handle_response(lsp_server::Response { id: rid(i), result: None, error: Some(ResponseError { code: 1, message: "e".into(), data: None }) }),
        Op::Cleanup => c.cleanup_pending_requests(std::time::Duration::from_secs(0)),
        Op::Clone => { let d = c.clone(); *c = d; }
    }
    Ok(None)
}
fn notice(m: &Message) -> bool {
    matches!(m, Message::Notification(n) if n.method == "window/showMessage" && n.params["message"].as_str().is_some_and(|s| s.contains("unused_function")))
}
/// what must have been sent for the responses, in order
fn expected_response(op: Op) -> Option<(RequestId, bool)> {
    match op { Op::Answer(i) | Op::Null(i) => Some((rid(i), true)), Op::Error(i) => Some((rid(i), false)), _ => None }
}
fn judge(msgs: &[Message], ops: Option<&[Op]>) -> Result<(), String> {
    let mut ids = HashSet::new();
    for m in msgs {
        if let Message::Request(q) = m { if !ids.insert(q.id.clone()) { return Err(format!("request id {} used twice", q.id)); } }
        if let Message::Response(r) = m { if r.result.is_some() == r.error.is_some() { return Err(format!("response {} has result {:?} and error {:?}", r.id, r.result, r.error)); } }
    }
    let n = msgs.iter().filter(|m| notice(m)).count();
    if n > 1 { return Err(format!("{n} notices")); }
    if let Some(ops) = ops {
        let want: Vec<(RequestId, bool)> = ops.iter().filter_map(|o| expected_response(*o)).collect();
        let got: Vec<(RequestId, bool)> = msgs.iter().filter_map(|m| if let Message::Response(r) = m { Some((r.id.clone(), r.result.is_some())) } else { None }).collect();
        if got != want { return Err(format!("responses {got:?}, expected {want:?}")); }
        let reqs = ops.iter().filter(|o| **o == Op::Request).count();
        if ids.len() != reqs { return Err(format!("{} requests sent, expected {reqs}", ids.len())); }
        if ops.iter().any(|o| matches!(o, Op::Notice(_))) != (n == 1) { return Err(format!("{n} notices")); }
        let total = ops.iter().filter(|o| matches!(o, Op::Request | Op::Answer(_) | Op::Null(_) | Op::Error(_) | Op::Show | Op::Publish | Op::Log)).count() + n;
        if msgs.len() != total { return Err(format!("{} messages, expected {total}", msgs.len())); }
    }
    Ok(())
}
fn sequential(ops: &[Op]) -> Result<(), String> {
    let (s, r) = crossbeam::channel::unbounded();
    let mut c = Client::new(s);
    let mut trues = 0;
    for o in ops { if one(&mut c, *o).map_err(|e| e.to_string())? == Some(true) { trues += 1; } }
    drop(c);
    let msgs: Vec<Message> = r.try_iter().collect();
    judge(&msgs, Some(ops))?;
    if trues != msgs.iter().filter(|m| notice(m)).count() { return Err(format!("{trues} calls say they sent the notice")); }
    Ok(())
}
fn threads(n: usize, ops: &[Op]) -> Result<(), String> {
    let (s, r) = crossbeam::channel::unbounded();
    let c = Client::new(s);
    let bar = std::sync::Barrier::new(n);
    let trues: usize = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n).map(|_| { let mut c = c.clone(); let bar = &bar; sc.spawn(move || { let mut t = 0; bar.wait(); for o in ops { if let Ok(Some(true)) = one(&mut c, *o) { t += 1; } } t }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).sum()
    });
    drop(c);
    let msgs: Vec<Message> = r.try_iter().collect();
    judge(&msgs, None)?;
    if trues > 1 { return Err(format!("{trues} calls say they sent the notice")); }
    let reqs = n * ops.iter().filter(|o| **o == Op::Request).count();
    let got = msgs.iter().filter(|m| matches!(m, Message::Request(_))).count();
    if got != reqs { return Err(format!("{got} requests sent, expected {reqs}")); }
    Ok(())
}
fn main() {
    hx::run(|cx| {
        cx.rule("All histories of up to 3 (thorough 4) of 14 client calls, then random longer ones and interleavings of 2 to 8 clones on threads. Non-trivial: a request, response or notice is sent.");
        let n = cx.pick_n(3, 4);
        let idx: Vec<String> = (0..OPS.len()).map(|i| ((b'a' + i as u8) as char).to_string()).collect();
        let names: Vec<&str> = idx.iter().map(|s| s.as_str()).collect();
        hx::all_strings(&names, n, &mut |t| { if !cx.stop() {
            let ops: Vec<Op> = t.bytes().map(|b| OPS[(b - b'a') as usize]).collect();
            cx.case(format!("{ops:?}"), !ops.is_empty(), || sequential(&ops));
        } });
        while cx.more() {
            let k = if cx.rng.chance(1, 50) { 3000 } else { cx.rng.below(40) };
            let ops: Vec<Op> = (0..k).map(|_| match cx.rng.below(6) { 0 => Op::Request, 1 => Op::Answer(cx.rng.below(9) as i32), 2 => Op::Error(cx.rng.below(9) as i32), _ => *cx.rng.pick(&OPS) }).collect();
            cx.case(format!("{ops:?}"), true, || sequential(&ops));
            if cx.rng.chance(1, 8) {
                let n = 2 + cx.rng.below(7);
                let ops: Vec<Op> = if cx.rng.chance(1, 2) { vec![Op::Notice(3), Op::Request, Op::Request] } else { ops };
                cx.case(format!("{n} threads {ops:?}"), true, || threads(n, &ops));
            }
        }
    });
}
