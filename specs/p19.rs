// P19: messages of the language server to the editor
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
}
use vx::*;

// ---- message types (TRUSTED stand-ins for lsp_server / lsp_types / serde_json) ----
#[verifier::external_body]
pub struct Value { e: () }
#[verifier::external_body]
pub fn vx_to_value<T>(t: T) -> (r: Result<Value>) { unimplemented!() }
#[verifier::external_body]
pub struct RequestId { e: () }
impl RequestId {
    /// the number, if it is numeric
    pub uninterp spec fn num(&self) -> Option<i32>;
    #[verifier::external_body]
    pub fn vx_of(i: i32) -> (r: RequestId) ensures r.num() == Some(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: RequestId) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct ResponseError { e: () }
pub struct Request { pub id: RequestId, pub method: String, pub params: Value }
pub struct Response { pub id: RequestId, pub result: Option<Value>, pub error: Option<ResponseError> }
pub struct Notification { pub method: String, pub params: Value }
pub enum Message { Request(Request), Response(Response), Notification(Notification) }
#[verifier::external_body]
pub fn vx_method<N>() -> (r: String) { unimplemented!() }
pub trait VxNotification { type Params; }
pub trait VxRequest { type Params; }
#[derive(Clone, Copy)]
pub struct MessageType { pub t: i32 }
impl MessageType { pub exec const INFO: MessageType = MessageType { t: 3 }; }
pub struct ShowMessageParams { pub typ: MessageType, pub message: String }
pub struct ShowMessage;
impl VxNotification for ShowMessage { type Params = ShowMessageParams; }

// ---- what has been sent, and the two shared atomics (TRUSTED) ----
/// ghost: the messages this caller has sent, in order
#[verifier::external_body]
pub tracked struct Sent { e: () }
impl Sent { pub uninterp spec fn view(&self) -> Seq<Message>; }
#[verifier::external_body]
pub struct Sender { e: () }
impl Sender {
    /// a message is sent exactly when Ok is returned
    #[verifier::external_body]
    pub fn vx_send(&self, m: Message, Tracked(log): Tracked<&mut Sent>) -> (r: Result<()>)
        ensures r is Ok ==> final(log)@ == old(log)@.push(m), r is Err ==> final(log)@ == old(log)@ { unimplemented!() }
}
/// ghost: the places, in the modification order of the shared counter, of this caller's increments
#[verifier::external_body]
pub tracked struct Tickets { e: () }
impl Tickets {
    pub uninterp spec fn view(&self) -> Seq<nat>;
    /// different callers (clones) have made different increments
    #[verifier::external_body]
    pub proof fn axiom_disjoint(tracked a: &mut Tickets, tracked b: &mut Tickets, i: int, j: int)
        requires 0 <= i < old(a)@.len(), 0 <= j < old(b)@.len(),
        ensures final(a)@ == old(a)@, final(b)@ == old(b)@, old(a)@[i] != old(b)@[j] { }
}
/// the counter after n increments by one, starting at 1
pub open spec fn nth_id(n: nat) -> i32 {
    let v = (n + 1) % 0x1_0000_0000;
    if v < 0x8000_0000 { v as i32 } else { (v - 0x1_0000_0000) as i32 }
}
#[verifier::external_body]
pub struct Counter { e: () }
impl Counter {
    /// AtomicI32::fetch_add(1, _): the n-th increment of the counter sees the value after n increments; no two are the n-th
    #[verifier::external_body]
    pub fn fetch_add_one(&self, Tracked(ts): Tracked<&mut Tickets>) -> (r: i32)
        ensures exists|n: nat| final(ts)@ == #[trigger] old(ts)@.push(n) && !old(ts)@.contains(n) && r == nth_id(n) { unimplemented!() }
}
/// ghost: how often this caller has turned the shared flag on
#[verifier::external_body]
pub tracked struct TurnedOn { e: () }
impl TurnedOn {
    pub uninterp spec fn view(&self) -> nat;
    /// the flag starts off and is never turned off again, so over all callers it is turned on at most once
    #[verifier::external_body]
    pub proof fn axiom_once(tracked a: &mut TurnedOn, tracked b: &mut TurnedOn)
        ensures final(a)@ == old(a)@, final(b)@ == old(b)@, old(a)@ + old(b)@ <= 1 { }
    #[verifier::external_body]
    pub proof fn axiom_once1(tracked &self)
        ensures self@ <= 1 { }
}
#[verifier::external_body]
pub struct Flag { e: () }
impl Flag {
    /// AtomicBool::swap(true, _) returns the previous value
    #[verifier::external_body]
    pub fn swap_true(&self, Tracked(on): Tracked<&mut TurnedOn>) -> (r: bool)
        ensures final(on)@ == old(on)@ + (if r { 0nat } else { 1nat }) { unimplemented!() }
}
pub struct Client { pub sender: Sender, pub request_id_counter: Counter, pub unused_fn_threshold_notified: Flag }

// ---- the invariant of a caller's history ----
pub open spec fn is_req(m: Message) -> bool { m is Request }
pub open spec fn known_ticket(id: RequestId, ts: Seq<nat>) -> bool { exists|j: int| 0 <= j < ts.len() && id.num() == Some(nth_id(#[trigger] ts[j])) }
pub open spec fn answered_once(m: Message) -> bool { m is Response ==> (m->Response_0.result is Some) != (m->Response_0.error is Some) }
pub open spec fn history_ok(log: Seq<Message>, ts: Seq<nat>) -> bool {
    &&& forall|i: int| 0 <= i < log.len() && is_req(#[trigger] log[i]) ==> known_ticket(log[i]->Request_0.id, ts)
    &&& forall|i: int, k: int| 0 <= i < k < log.len() && is_req(#[trigger] log[i]) && is_req(#[trigger] log[k]) ==> log[i]->Request_0.id.num() != log[k]->Request_0.id.num()
    &&& forall|i: int| 0 <= i < log.len() ==> answered_once(#[trigger] log[i])
}
/// fewer than 2^32 requests in the session
pub open spec fn below_wrap(ts: Seq<nat>) -> bool { forall|j: int| 0 <= j < ts.len() ==> #[trigger] ts[j] < 0xffff_ffff }
pub proof fn lemma_nth_id(a: nat, b: nat)
    requires a < 0xffff_ffff, b < 0xffff_ffff, nth_id(a) == nth_id(b),
    ensures a == b,
{ }
/// also across clones of the client no identifier is used twice
pub proof fn p19_across_clones(tracked a: &mut Tickets, tracked b: &mut Tickets, la: Seq<Message>, lb: Seq<Message>, i: int, k: int)
    requires history_ok(la, old(a)@), history_ok(lb, old(b)@), below_wrap(old(a)@), below_wrap(old(b)@),
        0 <= i < la.len(), 0 <= k < lb.len(), is_req(la[i]), is_req(lb[k]),
    ensures la[i]->Request_0.id.num() != lb[k]->Request_0.id.num(),
{
    let x = choose|x: int| 0 <= x < old(a)@.len() && la[i]->Request_0.id.num() == Some(nth_id(#[trigger] old(a)@[x]));
    let y = choose|y: int| 0 <= y < old(b)@.len() && lb[k]->Request_0.id.num() == Some(nth_id(#[trigger] old(b)@[y]));
    Tickets::axiom_disjoint(a, b, x, y);
    if nth_id(a@[x]) == nth_id(b@[y]) { lemma_nth_id(a@[x], b@[y]); }
}

// the counter and the flag are shared by all clones and used nowhere else than in the functions below and in Client::new
//@require crates/jarl-lsp/src/client.rs `#[derive(Clone)] pub struct Client {`
//@require crates/jarl-lsp/src/client.rs `request_id_counter: Arc<std::sync::atomic::AtomicI32>,`
//@require crates/jarl-lsp/src/client.rs `unused_fn_threshold_notified: Arc<std::sync::atomic::AtomicBool>,`
//@require crates/jarl-lsp/src/client.rs `unused_fn_threshold_notified: Arc::new(std::sync::atomic::AtomicBool::new(false)),`
//@require crates/jarl-lsp/src/client.rs `request_id_counter: Arc::new(std::sync::atomic::AtomicI32::new(1)),`
//@count crates/jarl-lsp/src/client.rs `request_id_counter` 3
//@count crates/jarl-lsp/src/client.rs `unused_fn_threshold_notified` 3
impl Client {
//@fn crates/jarl-lsp/src/client.rs Client::next_request_id
//@subst `(&self)` => `(&self, Tracked(ts): Tracked<&mut Tickets>)`
//@subst `.fetch_add(1, std::sync::atomic::Ordering::SeqCst)` => `.fetch_add_one(Tracked(ts))`
//@subst `RequestId::from(` => `RequestId::vx_of(`
//@ret r
//@contract
    ensures exists|n: nat| final(ts)@ == #[trigger] old(ts)@.push(n) && !old(ts)@.contains(n) && r.num() == Some(nth_id(n)),
//@end

//@fn crates/jarl-lsp/src/client.rs Client::send_notification
//@subst `<N: types::notification::Notification>` => `<N: VxNotification>`
//@subst `&self,` => `&self, Tracked(log): Tracked<&mut Sent>,`
//@subst `where N::Params: Serialize,` => ``
//@subst `N::METHOD.to_string()` => `vx_method::<N>()`
//@subst `serde_json::to_value(` => `vx_to_value(`
//@subst `self.sender.send(Message::Notification(notification))` => `self.sender.vx_send(Message::Notification(notification), Tracked(log))`
//@ret r
//@contract
    ensures r is Ok ==> exists|m: Notification| final(log)@ == #[trigger] old(log)@.push(Message::Notification(m)), r is Err ==> final(log)@ == old(log)@,
//@end

//@fn crates/jarl-lsp/src/client.rs Client::send_request
//@drop `{ let mut pending` .. `let request = Request`
//@subst `<R: types::request::Request>` => `<R: VxRequest>`
//@subst `&self,` => `&self, Tracked(log): Tracked<&mut Sent>, Tracked(ts): Tracked<&mut Tickets>,`
//@subst `_handler: impl FnOnce(R::Result) + Send + 'static,` => ``
//@subst `where R::Params: Serialize, R::Result: serde::de::DeserializeOwned,` => ``
//@subst `R::METHOD.to_string()` => `vx_method::<R>()`
//@subst `self.next_request_id()` => `self.next_request_id(Tracked(ts))`
//@subst `id.clone()` => `id.vx_clone()`
//@subst `serde_json::to_value(` => `vx_to_value(`
//@subst `self.sender.send(Message::Request(request))` => `self.sender.vx_send(Message::Request(request), Tracked(log))`
//@ret r
//@contract
    requires history_ok(old(log)@, old(ts)@),
    ensures below_wrap(final(ts)@) ==> history_ok(final(log)@, final(ts)@),
        r is Ok ==> final(log)@.len() == old(log)@.len() + 1 && is_req(final(log)@.last()), r is Err ==> final(log)@ == old(log)@,
        final(log)@.take(old(log)@.len() as int) =~= old(log)@,
//@at after let id
    proof {
        let n = choose|n: nat| final(ts)@ == #[trigger] old(ts)@.push(n) && !old(ts)@.contains(n) && id.num() == Some(nth_id(n));
        assert(ts@ == old(ts)@.push(n));
        assert(ts@.last() == n && ts@[ts@.len() - 1] == n);
        assert(known_ticket(id, ts@));
        assert forall|i: int| 0 <= i < log@.len() && is_req(#[trigger] log@[i]) implies known_ticket(log@[i]->Request_0.id, ts@) by {
            let j = choose|j: int| 0 <= j < old(ts)@.len() && log@[i]->Request_0.id.num() == Some(nth_id(#[trigger] old(ts)@[j])); assert(ts@[j] == old(ts)@[j]); }
        if below_wrap(ts@) {
            assert forall|i: int| 0 <= i < log@.len() && is_req(#[trigger] log@[i]) implies log@[i]->Request_0.id.num() != id.num() by {
                let j = choose|j: int| 0 <= j < old(ts)@.len() && log@[i]->Request_0.id.num() == Some(nth_id(#[trigger] old(ts)@[j]));
                assert(ts@[j] == old(ts)@[j]); assert(old(ts)@.contains(old(ts)@[j]));
                if nth_id(ts@[j]) == nth_id(n) { lemma_nth_id(ts@[j], n); } }
        }
    }
//@end

//@fn crates/jarl-lsp/src/client.rs Client::send_response
//@subst `&self,` => `&self, Tracked(log): Tracked<&mut Sent>,`
//@subst `result: impl Serialize` => `result: Value`
//@subst `serde_json::to_value(` => `vx_to_value(`
//@subst `self.sender.send(Message::Response(response))` => `self.sender.vx_send(Message::Response(response), Tracked(log))`
//@ret r
//@contract
    ensures r is Err ==> final(log)@ == old(log)@,
        r is Ok ==> exists|m: Response| final(log)@ == #[trigger] old(log)@.push(Message::Response(m)) && m.id == id && m.result is Some && m.error is None,
//@end

//@fn crates/jarl-lsp/src/client.rs Client::send_error_response
//@subst `&self,` => `&self, Tracked(log): Tracked<&mut Sent>,`
//@subst `self.sender.send(Message::Response(response))` => `self.sender.vx_send(Message::Response(response), Tracked(log))`
//@ret r
//@contract
    ensures r is Err ==> final(log)@ == old(log)@,
        r is Ok ==> exists|m: Response| final(log)@ == #[trigger] old(log)@.push(Message::Response(m)) && m.id == id && m.result is None && m.error == Some(error),
//@end

//@fn crates/jarl-lsp/src/client.rs Client::show_message
//@subst `&self,` => `&self, Tracked(log): Tracked<&mut Sent>,`
//@subst `types::MessageType` => `MessageType`
//@subst `types::notification::ShowMessage` => `ShowMessage`
//@subst `types::ShowMessageParams` => `ShowMessageParams`
//@subst `>(ShowMessageParams` => `>(Tracked(log), ShowMessageParams`
//@ret r
//@contract
    ensures r is Ok ==> exists|m: Notification| final(log)@ == #[trigger] old(log)@.push(Message::Notification(m)), r is Err ==> final(log)@ == old(log)@,
//@end

//@fn crates/jarl-lsp/src/client.rs Client::notify_unused_fn_threshold_once
//@subst `&self,` => `&self, Tracked(log): Tracked<&mut Sent>, Tracked(on): Tracked<&mut TurnedOn>,`
//@subst `.swap(true, std::sync::atomic::Ordering::SeqCst)` => `.swap_true(Tracked(on))`
//@subst `self.show_message(` => `self.show_message(Tracked(log), `
//@subst `types::MessageType::INFO` => `MessageType::INFO`
//@ret r
//@contract
    ensures
        // nothing is sent, or one notice is sent and the flag was turned on by this very call
        final(log)@ == old(log)@ || (final(on)@ == old(on)@ + 1 && r == Ok::<bool, Error>(true) && exists|m: Notification| final(log)@ == #[trigger] old(log)@.push(Message::Notification(m))),
        final(on)@ >= old(on)@, r == Ok::<bool, Error>(true) ==> exists|m: Notification| final(log)@ == #[trigger] old(log)@.push(Message::Notification(m)),
//@end
}
/// two calls, also through different clones: at most one notice
pub fn p19_two_notices(a: &Client, b: &Client, Tracked(la): Tracked<&mut Sent>, Tracked(lb): Tracked<&mut Sent>, Tracked(oa): Tracked<&mut TurnedOn>, Tracked(ob): Tracked<&mut TurnedOn>, n: usize, m: usize)
    ensures final(la)@ == old(la)@ || final(lb)@ == old(lb)@,
{
    let r = a.notify_unused_fn_threshold_once(Tracked(la), Tracked(oa), n);
    let s = b.notify_unused_fn_threshold_once(Tracked(lb), Tracked(ob), m);
    proof { TurnedOn::axiom_once(oa, ob); }
}
/// the same caller again: at most one notice
pub fn p19_repeat(a: &Client, Tracked(log): Tracked<&mut Sent>, Tracked(on): Tracked<&mut TurnedOn>, n: usize, m: usize)
    ensures final(log)@ == old(log)@ || exists|x: Notification| final(log)@ == #[trigger] old(log)@.push(Message::Notification(x)),
{
    let r = a.notify_unused_fn_threshold_once(Tracked(log), Tracked(on), n);
    let s = a.notify_unused_fn_threshold_once(Tracked(log), Tracked(on), m);
    proof { on.axiom_once1(); }
}
/// a history stays well-formed when a response is sent
pub fn p19_response(c: &Client, Tracked(log): Tracked<&mut Sent>, Ghost(ts): Ghost<Seq<nat>>, id: RequestId, v: Value, fail: Option<ResponseError>)
    requires history_ok(old(log)@, ts),
    ensures history_ok(final(log)@, ts),
{
    match fail {
        Some(e) => { let _ = c.send_error_response(Tracked(log), id, e); }
        None => { let _ = c.send_response(Tracked(log), id, v); }
    }
}
}
fn main() {}
