#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include base.inc
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
/*@ item hook.rs::Callback
attr: #[derive(Copy, Clone)]
@*/
/*@ item hook.rs::Hook
@*/
// ---- callbacks: the caller's code, so any answer and any effect; what is recorded is that the call was made ----
#[verifier::external_body] #[derive(Copy, Clone)] pub struct TxExternalCallbackFn { _0: u8 }
#[verifier::external_body] #[derive(Copy, Clone)] pub struct TxNativeCallbackFn { _0: u8 }
#[verifier::external_body] #[derive(Copy, Clone)] pub struct DataExternalCallbackFn { _0: u8 }
#[verifier::external_body] #[derive(Copy, Clone)] pub struct DataNativeCallbackFn { _0: u8 }
#[verifier::external_body] #[derive(Copy, Clone)] pub struct LogExternalCallbackFn { _0: u8 }
#[verifier::external_body] #[derive(Copy, Clone)] pub struct LogNativeCallbackFn { _0: u8 }
pub type TxHook = Hook<TxExternalCallbackFn, TxNativeCallbackFn>;
pub type DataHook = Hook<DataExternalCallbackFn, DataNativeCallbackFn>;
pub type LogHook = Hook<LogExternalCallbackFn, LogNativeCallbackFn>;
/// one call: which callback, and what it answered (OK for a native Ok(()))
pub struct Call<E, N> { pub cb: Callback<E, N>, pub answer: Result<()> }
#[verifier::external_body] pub struct Transaction { _0: u8 }
#[verifier::external_body] pub struct Data { _0: u8 }
#[verifier::external_body] pub struct Log { _0: u8 }
#[verifier::external_body] pub struct ConnectionParser { _0: u8 }
#[verifier::external_body] #[derive(Copy, Clone)] pub struct ConnPtr { _0: u8 }
impl Transaction { pub uninterp spec fn calls(&self) -> Seq<Call<TxExternalCallbackFn, TxNativeCallbackFn>>; }
impl Data { pub uninterp spec fn calls(&self) -> Seq<Call<DataExternalCallbackFn, DataNativeCallbackFn>>; }
impl Log { pub uninterp spec fn calls(&self) -> Seq<Call<LogExternalCallbackFn, LogNativeCallbackFn>>; }
pub open spec fn st(s: HtpStatus) -> Result<()> { if s == HtpStatus::OK { Ok(()) } else { Err(s) } }
impl ConnectionParser {
    pub uninterp spec fn txs(&self) -> Map<usize, Transaction>;
    #[verifier::external_body]
    pub fn tx_mut(&mut self, index: usize) -> (r: Option<&mut Transaction>)
        ensures
            r is Some == old(self).txs().contains_key(index),
            r is Some ==> *r->0 == old(self).txs()[index] && final(self).txs() == old(self).txs().insert(index, *final(r->0)),
            r is None ==> final(self).txs() == old(self).txs(),
    { unimplemented!() }
}
#[verifier::external_body] pub fn vx_ptr(c: &mut ConnectionParser) -> (r: ConnPtr) ensures *final(c) == *old(c) { unimplemented!() }
#[verifier::external_body] pub fn vx_tx_ext(f: &TxExternalCallbackFn, c: ConnPtr, t: &mut Transaction) -> (r: HtpStatus)
    ensures final(t).calls() == old(t).calls().push(Call { cb: Callback::External(*f), answer: st(r) }) { unimplemented!() }
#[verifier::external_body] pub fn vx_tx_nat(f: &TxNativeCallbackFn, t: &mut Transaction) -> (r: Result<()>)
    ensures final(t).calls() == old(t).calls().push(Call { cb: Callback::Native(*f), answer: r }) { unimplemented!() }
#[verifier::external_body] pub fn vx_data_ext(f: &DataExternalCallbackFn, c: &ConnectionParser, t: &mut Data) -> (r: HtpStatus)
    ensures final(t).calls() == old(t).calls().push(Call { cb: Callback::External(*f), answer: st(r) }) { unimplemented!() }
#[verifier::external_body] pub fn vx_data_nat(f: &DataNativeCallbackFn, t: &mut Data) -> (r: Result<()>)
    ensures final(t).calls() == old(t).calls().push(Call { cb: Callback::Native(*f), answer: r }) { unimplemented!() }
#[verifier::external_body] pub fn vx_log_ext(f: &LogExternalCallbackFn, t: &mut Log) -> (r: HtpStatus)
    ensures final(t).calls() == old(t).calls().push(Call { cb: Callback::External(*f), answer: st(r) }) { unimplemented!() }
#[verifier::external_body] pub fn vx_log_nat(f: &LogNativeCallbackFn, t: &mut Log) -> (r: Result<()>)
    ensures final(t).calls() == old(t).calls().push(Call { cb: Callback::Native(*f), answer: r }) { unimplemented!() }
// ----------------------------------------------------------------------------------------
pub open spec fn lets_on(s: Result<()>) -> bool { s is Ok || s == Err::<(), HtpStatus>(HtpStatus::DECLINED) }
/// calls `b` are calls `a` followed by the first n callbacks of the list, in order, each once
pub open spec fn ran<E, N>(cbs: Seq<Callback<E, N>>, a: Seq<Call<E, N>>, b: Seq<Call<E, N>>, n: int) -> bool {
    0 <= n <= cbs.len() && b.len() == a.len() + n && (forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[k])
        && forall|k: int| 0 <= k < n ==> (#[trigger] b[a.len() + k]).cb == cbs[k]
}
/// every callback before the last one called let the chain go on; the answer of the event is Ok if all were called and let it go on, else the refusal
pub open spec fn outcome<E, N>(cbs: Seq<Callback<E, N>>, a: Seq<Call<E, N>>, b: Seq<Call<E, N>>, r: Result<()>) -> bool {
    let n = b.len() - a.len();
    ran(cbs, a, b, n) && (forall|k: int| 0 <= k < n - 1 ==> lets_on(#[trigger] b[a.len() + k].answer))
        && match r {
            Ok(_) => n == cbs.len() && (n > 0 ==> lets_on(b[a.len() + n - 1].answer)),
            Err(e) => n > 0 && b[a.len() + n - 1].answer == r && !lets_on(r),
        }
}
pub open spec fn vx_refs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
/*@ fn hook.rs::Default::Hook::default
ret: r
spec:
    ensures r.callbacks@.len() == 0,
@*/
/*@ fn hook.rs::Hook::register
spec:
    ensures final(self).callbacks@ == old(self).callbacks@.push(Callback::Native(cbk_fn)),
@*/
/*@ fn hook.rs::Hook::register_extern
spec:
    ensures final(self).callbacks@ == old(self).callbacks@.push(Callback::External(cbk_fn)),
@*/
/*@ fn hook.rs::TxHook::run_all
pre: let connp_ptr : * mut ConnectionParser = connp as * mut ConnectionParser ; =>> let connp_ptr = vx_ptr(connp);
pre: unsafe { cbk_fn ( connp_ptr , tx ) } =>> vx_tx_ext(cbk_fn, connp_ptr, tx)
pre: cbk_fn ( tx ) =>> vx_tx_nat(cbk_fn, tx)
ret: r
spec:
    ensures
        !old(connp).txs().contains_key(tx_index) ==> r is Ok && final(connp).txs() == old(connp).txs(),
        old(connp).txs().contains_key(tx_index) ==> {
            let t = final(connp).txs()[tx_index];
            final(connp).txs() == old(connp).txs().insert(tx_index, t)
                && outcome(self.callbacks@, old(connp).txs()[tx_index].calls(), t.calls(), r)
        },
attr: #[verifier::loop_isolation(false)]
loop 0 iter: it
loop 0 after: proof { let n = self.callbacks@.len(); assert(ran(self.callbacks@, old(connp).txs()[tx_index].calls(), tx.calls(), n as int)); assert(tx.calls().len() - old(connp).txs()[tx_index].calls().len() == n); if n > 0 { assert(lets_on(tx.calls()[old(connp).txs()[tx_index].calls().len() + (n - 1)].answer)); } }
loop 0 start: proof { assert(vx_refs(it.seq())[it.index@ as int] == *cbk_fn); }
loop 0 before: let ghost pf = *final(tx);
loop 0:
    invariant
        *final(tx) == pf,
        vx_refs(it.seq()) == self.callbacks@, it.seq().len() == self.callbacks@.len(),
        ran(self.callbacks@, old(connp).txs()[tx_index].calls(), tx.calls(), it.index@ as int),
        forall|k: int| 0 <= k < it.index@ ==> lets_on(#[trigger] tx.calls()[old(connp).txs()[tx_index].calls().len() + k].answer),
@*/
/*@ fn hook.rs::DataHook::run_all
pre: unsafe { cbk_fn ( connp , data ) } =>> vx_data_ext(cbk_fn, connp, data)
pre: cbk_fn ( unsafe { & mut * data . tx ( ) } , data . parser_data ( ) ) =>> vx_data_nat(cbk_fn, data)
ret: r
spec:
    ensures outcome(self.callbacks@, old(data).calls(), final(data).calls(), r),
loop 0 iter: it
loop 0 after: proof { let n = self.callbacks@.len(); assert(ran(self.callbacks@, old(data).calls(), data.calls(), n as int)); assert(data.calls().len() - old(data).calls().len() == n); if n > 0 { assert(lets_on(data.calls()[old(data).calls().len() + (n - 1)].answer)); } }
loop 0 start: proof { assert(vx_refs(it.seq())[it.index@ as int] == *cbk_fn); }
loop 0:
    invariant
        vx_refs(it.seq()) == self.callbacks@, it.seq().len() == self.callbacks@.len(),
        ran(self.callbacks@, old(data).calls(), data.calls(), it.index@ as int),
        forall|k: int| 0 <= k < it.index@ ==> lets_on(#[trigger] data.calls()[old(data).calls().len() + k].answer),
@*/
/*@ fn hook.rs::LogHook::run_all
pre: unsafe { cbk_fn ( log ) } =>> vx_log_ext(cbk_fn, log)
pre: cbk_fn ( log ) =>> vx_log_nat(cbk_fn, log)
ret: r
spec:
    ensures outcome(self.callbacks@, old(log).calls(), final(log).calls(), r),
loop 0 iter: it
loop 0 after: proof { let n = self.callbacks@.len(); assert(ran(self.callbacks@, old(log).calls(), log.calls(), n as int)); assert(log.calls().len() - old(log).calls().len() == n); if n > 0 { assert(lets_on(log.calls()[old(log).calls().len() + (n - 1)].answer)); } }
loop 0 start: proof { assert(vx_refs(it.seq())[it.index@ as int] == *cbk_fn); }
loop 0:
    invariant
        vx_refs(it.seq()) == self.callbacks@, it.seq().len() == self.callbacks@.len(),
        ran(self.callbacks@, old(log).calls(), log.calls(), it.index@ as int),
        forall|k: int| 0 <= k < it.index@ ==> lets_on(#[trigger] log.calls()[old(log).calls().len() + k].answer),
@*/
/// An event without callbacks succeeds and calls nothing.
pub proof fn theorem_empty<E, N>(a: Seq<Call<E, N>>, b: Seq<Call<E, N>>, r: Result<()>)
    requires outcome(Seq::<Callback<E, N>>::empty(), a, b, r),
    ensures r is Ok, b == a,
{ assert(b =~= a); }
/// Two runs of one list that get the same answers report the same status.
pub proof fn theorem_first_refusal<E, N>(cbs: Seq<Callback<E, N>>, a: Seq<Call<E, N>>, b: Seq<Call<E, N>>, r: Result<()>, k: int)
    requires outcome(cbs, a, b, r), 0 <= k < b.len() - a.len(), !lets_on(b[a.len() + k].answer),
    ensures k == b.len() - a.len() - 1, r == b[a.len() + k].answer,
{ }
fn main() {}
}
