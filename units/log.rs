#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include base.inc
// ---- types without a vstd model (opaque; assumed contracts) ----
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct IpAddr { _0: u8 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct OffsetDateTime { _0: u8 }
/// std::sync::mpsc: a queue. The two ends belong to one channel, which the code never splits, so the
/// sending end is modelled by what was sent through it and the receiving end by what is still to be read.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { _0: core::marker::PhantomData<T> }
impl<T> Sender<T> {
    pub uninterp spec fn sent(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn send(&mut self, t: T) -> (r: core::result::Result<(), ()>)
        ensures final(self).sent() == old(self).sent().push(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Sender<T>) ensures r.sent() == self.sent() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { _0: core::marker::PhantomData<T> }
impl<T> Receiver<T> {
    pub uninterp spec fn waiting(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: core::result::Result<T, ()>)
        ensures
            r is Ok == (old(self).waiting().len() > 0),
            r is Ok ==> r->Ok_0 == old(self).waiting()[0] && final(self).waiting() == old(self).waiting().subrange(1, old(self).waiting().len() as int),
            r is Err ==> final(self).waiting() == old(self).waiting(),
    { unimplemented!() }
}
/*@ item log.rs::HtpLogCode
attr: #[derive(Copy, Clone)]
@*/
/*@ item log.rs::HtpLogLevel
attr: #[derive(Copy, Clone)]
@*/
/*@ item log.rs::Message
@*/
/*@ item log.rs::Log
@*/
/*@ item log.rs::Logger
@*/
/*@ item connection.rs::Connection
@*/
/// the order of the levels, least talkative first
pub open spec fn rank(l: HtpLogLevel) -> int {
    match l {
        HtpLogLevel::NONE => 0, HtpLogLevel::ERROR => 1, HtpLogLevel::WARNING => 2, HtpLogLevel::NOTICE => 3,
        HtpLogLevel::INFO => 4, HtpLogLevel::DEBUG => 5, HtpLogLevel::DEBUG2 => 6,
    }
}
/// `a <= b` of the derived PartialOrd of a field-less enum: the order of the discriminants.
pub fn vx_le(a: HtpLogLevel, b: HtpLogLevel) -> (r: bool)
    ensures r == (rank(a) <= rank(b)),
{ (a as u8) <= (b as u8) }
pub open spec fn msg_sp(file: Seq<char>, line: u32, level: HtpLogLevel, code: HtpLogCode, msg: String, r: Message) -> bool {
    r.file@ == file && r.line == line && r.level == level && r.code == code && r.msg == msg
}
/*@ fn log.rs::Message::new
ret: r
spec:
    ensures msg_sp(file@, line, level, code, msg, r),
@*/
/*@ fn log.rs::Logger::new
ret: r
spec:
    ensures r.level == level, r.sender.sent() == sender.sent(),
@*/
/// What one call does: one message more if its level is within the configured one, nothing otherwise.
/*@ fn log.rs::Logger::log
subst: level <= self . level =>> vx_le(level, self.level)
spec:
    ensures
        final(self).level == old(self).level,
        rank(level) > rank(old(self).level) ==> final(self).sender.sent() == old(self).sender.sent(),
        rank(level) <= rank(old(self).level) ==> {
            let a = old(self).sender.sent();
            let b = final(self).sender.sent();
            b.len() == a.len() + 1 && b.subrange(0, a.len() as int) == a && msg_sp(file@, line, level, code, msg, b[a.len() as int])
        },
end: proof { assert(rank(level) <= rank(old(self).level) ==> self.sender.sent().subrange(0, old(self).sender.sent().len() as int) =~= old(self).sender.sent()); }
@*/
/*@ fn log.rs::Log::new
ret: r
spec:
    ensures r.msg == msg, r.client_addr == conn.client_addr, r.client_port == conn.client_port, r.server_addr == conn.server_addr, r.server_port == conn.server_port,
@*/
pub open spec fn log_of(c: Connection, m: Message) -> Log {
    Log { client_addr: c.client_addr, client_port: c.client_port, server_addr: c.server_addr, server_port: c.server_port, msg: m }
}
pub open spec fn same_addr(a: Connection, b: Connection) -> bool {
    a.client_addr == b.client_addr && a.client_port == b.client_port && a.server_addr == b.server_addr && a.server_port == b.server_port
}
/// Everything waiting is handed out, oldest first.
/*@ fn connection.rs::Connection::get_logs
presig: & self =>> & mut self
ret: r
spec:
    ensures
        final(self).log_channel.1.waiting().len() == 0,
        r@.len() == old(self).log_channel.1.waiting().len(),
        forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == log_of(*old(self), old(self).log_channel.1.waiting()[k]),
start: let ghost w = self.log_channel.1.waiting();
loop 0:
    invariant_except_break
        true,
    invariant
        same_addr(*self, *old(self)),
        w == old(self).log_channel.1.waiting(),
        logs@.len() <= w.len(),
        self.log_channel.1.waiting() == w.subrange(logs@.len() as int, w.len() as int),
        forall|k: int| 0 <= k < logs@.len() ==> #[trigger] logs@[k] == log_of(*old(self), w[k]),
    ensures self.log_channel.1.waiting().len() == 0,
    decreases self.log_channel.1.waiting().len(),
loop 0 end: ; proof { assert(self.log_channel.1.waiting() =~= w.subrange(logs@.len() as int, w.len() as int)); }
@*/
/*@ fn connection.rs::Connection::get_next_log
presig: & self =>> & mut self
ret: r
spec:
    ensures ({
        let w = old(self).log_channel.1.waiting();
        if w.len() == 0 { r is None && final(self).log_channel.1.waiting() == w }
        else { r == Some(log_of(*old(self), w[0])) && final(self).log_channel.1.waiting() == w.subrange(1, w.len() as int) }
    }),
closure 0 args: message: Message
closure 0: -> (q: Log) ensures q == log_of(*self, message)
@*/
fn main() {}
}
