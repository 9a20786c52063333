//! A minimal type config and a single-threaded async runtime whose clock is symbolic.

use std::cell::UnsafeCell;
use std::fmt;
use std::future::Future;
use std::ops::Add;
use std::ops::AddAssign;
use std::ops::Deref;
use std::ops::DerefMut;
use std::ops::Sub;
use std::ops::SubAssign;
use std::pin::Pin;
use std::sync::Arc;
use std::task::Context;
use std::task::Poll;
use std::time::Duration;

use crate::async_runtime::mpsc_unbounded::SendError;
use crate::async_runtime::mpsc_unbounded::TryRecvError;
use crate::async_runtime::watch;
use crate::async_runtime::Mpsc;
use crate::async_runtime::MpscReceiver;
use crate::async_runtime::MpscSender;
use crate::async_runtime::MpscUnbounded;
use crate::async_runtime::MpscUnboundedReceiver;
use crate::async_runtime::MpscUnboundedSender;
use crate::async_runtime::MpscUnboundedWeakSender;
use crate::async_runtime::MpscWeakSender;
use crate::async_runtime::Oneshot;
use crate::async_runtime::OneshotSender;
use crate::AsyncRuntime;
use crate::OptionalSend;
use crate::OptionalSync;
use crate::RaftTypeConfig;

// ---- shared cell -----------------------------------------------------------------------------

/// Shared mutable cell of the single-threaded model.
pub struct Sh<T>(Arc<Cell<T>>);
pub struct Cell<T>(UnsafeCell<T>);
unsafe impl<T> Send for Cell<T> {}
unsafe impl<T> Sync for Cell<T> {}
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}
impl<T> Sh<T> {
    pub fn new(t: T) -> Self {
        Sh(Arc::new(Cell(UnsafeCell::new(t))))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0 .0.get() }
    }
}

// ---- clock -----------------------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct VInstant(pub u64);

/// One tick of the model clock is one second: `Duration`s of whole seconds convert exactly.
fn ticks(d: Duration) -> u64 {
    d.as_secs()
}

impl Add<Duration> for VInstant {
    type Output = VInstant;
    fn add(self, d: Duration) -> VInstant {
        VInstant(self.0 + ticks(d))
    }
}
impl AddAssign<Duration> for VInstant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += ticks(d);
    }
}
impl Sub<Duration> for VInstant {
    type Output = VInstant;
    fn sub(self, d: Duration) -> VInstant {
        VInstant(self.0 - ticks(d))
    }
}
impl Sub<VInstant> for VInstant {
    type Output = Duration;
    fn sub(self, o: VInstant) -> Duration {
        Duration::from_secs(self.0.saturating_sub(o.0))
    }
}
impl SubAssign<Duration> for VInstant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= ticks(d);
    }
}

/// The instant every `now()` returns; a harness sets it to a symbolic value and may advance it.
static mut NOW: u64 = 0;
pub fn set_now(n: u64) {
    unsafe { NOW = n }
}
pub fn get_now() -> VInstant {
    unsafe { VInstant(NOW) }
}

impl crate::Instant for VInstant {
    fn now() -> Self {
        get_now()
    }
}

// ---- channels --------------------------------------------------------------------------------

#[derive(Debug)]
pub struct VMpsc;
pub struct Tx<T>(pub Sh<vcoll::Vec<T>>);
pub struct Rx<T>(pub Sh<vcoll::Vec<T>>);
impl<T> Clone for Tx<T> {
    fn clone(&self) -> Self {
        Tx(self.0.clone())
    }
}
fn take_first<T>(v: &mut vcoll::Vec<T>) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v.remove(0))
    }
}

impl MpscUnbounded for VMpsc {
    type Sender<T: OptionalSend> = Tx<T>;
    type Receiver<T: OptionalSend> = Rx<T>;
    type WeakSender<T: OptionalSend> = Tx<T>;
    fn channel<T: OptionalSend>() -> (Tx<T>, Rx<T>) {
        let s = Sh::new(vcoll::Vec::new());
        (Tx(s.clone()), Rx(s))
    }
}
impl<T: OptionalSend> MpscUnboundedSender<VMpsc, T> for Tx<T> {
    fn send(&self, msg: T) -> Result<(), SendError<T>> {
        self.0.get().push(msg);
        Ok(())
    }
    fn downgrade(&self) -> Tx<T> {
        self.clone()
    }
}
impl<T: OptionalSend> MpscUnboundedReceiver<T> for Rx<T> {
    async fn recv(&mut self) -> Option<T> {
        take_first(self.0.get())
    }
    fn try_recv(&mut self) -> Result<T, TryRecvError> {
        take_first(self.0.get()).ok_or(TryRecvError::Empty)
    }
}
impl<T: OptionalSend> MpscUnboundedWeakSender<VMpsc, T> for Tx<T> {
    fn upgrade(&self) -> Option<Tx<T>> {
        Some(self.clone())
    }
}

impl Mpsc for VMpsc {
    type Sender<T: OptionalSend> = Tx<T>;
    type Receiver<T: OptionalSend> = Rx<T>;
    type WeakSender<T: OptionalSend> = Tx<T>;
    fn channel<T: OptionalSend>(_buffer: usize) -> (Tx<T>, Rx<T>) {
        let s = Sh::new(vcoll::Vec::new());
        (Tx(s.clone()), Rx(s))
    }
}
impl<T: OptionalSend> MpscSender<VMpsc, T> for Tx<T> {
    async fn send(&self, msg: T) -> Result<(), SendError<T>> {
        self.0.get().push(msg);
        Ok(())
    }
    fn downgrade(&self) -> Tx<T> {
        self.clone()
    }
}
impl<T: OptionalSend> MpscReceiver<T> for Rx<T> {
    async fn recv(&mut self) -> Option<T> {
        take_first(self.0.get())
    }
    fn try_recv(&mut self) -> Result<T, TryRecvError> {
        take_first(self.0.get()).ok_or(TryRecvError::Empty)
    }
}
impl<T: OptionalSend> MpscWeakSender<VMpsc, T> for Tx<T> {
    fn upgrade(&self) -> Option<Tx<T>> {
        Some(self.clone())
    }
}

#[derive(Debug)]
pub struct VOneshot;
pub struct OTx<T>(pub Sh<Option<T>>);
pub struct ORx<T>(pub Sh<Option<T>>);
#[derive(Debug)]
pub struct VErr;
impl fmt::Display for VErr {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for VErr {}
impl Oneshot for VOneshot {
    type Sender<T: OptionalSend> = OTx<T>;
    type Receiver<T: OptionalSend> = ORx<T>;
    type ReceiverError = VErr;
    fn channel<T: OptionalSend>() -> (OTx<T>, ORx<T>) {
        let s = Sh::new(None);
        (OTx(s.clone()), ORx(s))
    }
}
impl<T: OptionalSend> OneshotSender<T> for OTx<T> {
    fn send(self, t: T) -> Result<(), T> {
        *self.0.get() = Some(t);
        Ok(())
    }
}
impl<T: OptionalSend> Future for ORx<T> {
    type Output = Result<T, VErr>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.get().take() {
            Some(t) => Poll::Ready(Ok(t)),
            None => Poll::Ready(Err(VErr)),
        }
    }
}
impl<T> ORx<T> {
    pub fn peek(&self) -> Option<&T> {
        self.0.get().as_ref()
    }
}

#[derive(Debug)]
pub struct VWatch;
pub struct WTx<T>(pub Sh<T>);
pub struct WRx<T>(pub Sh<T>);
impl<T> Clone for WRx<T> {
    fn clone(&self) -> Self {
        WRx(self.0.clone())
    }
}
pub struct VRef<'a, T>(&'a T);
impl<T> Deref for VRef<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl watch::Watch for VWatch {
    type Sender<T: OptionalSend + OptionalSync> = WTx<T>;
    type Receiver<T: OptionalSend + OptionalSync> = WRx<T>;
    type Ref<'a, T: OptionalSend + 'a> = VRef<'a, T>;
    fn channel<T: OptionalSend + OptionalSync>(init: T) -> (WTx<T>, WRx<T>) {
        let s = Sh::new(init);
        (WTx(s.clone()), WRx(s))
    }
}
impl<T: OptionalSend + OptionalSync> watch::WatchSender<VWatch, T> for WTx<T> {
    fn send(&self, value: T) -> Result<(), watch::SendError<T>> {
        *self.0.get() = value;
        Ok(())
    }
    fn send_if_modified<F>(&self, modify: F) -> bool
    where F: FnOnce(&mut T) -> bool {
        modify(self.0.get())
    }
    fn borrow_watched(&self) -> VRef<'_, T> {
        VRef(self.0.get())
    }
}
impl<T: OptionalSend + OptionalSync> watch::WatchReceiver<VWatch, T> for WRx<T> {
    async fn changed(&mut self) -> Result<(), watch::RecvError> {
        Err(watch::RecvError(()))
    }
    fn borrow_watched(&self) -> VRef<'_, T> {
        VRef(self.0.get())
    }
}

pub struct VMutex<T>(Cell<T>);
pub struct VGuard<'a, T>(&'a mut T);
unsafe impl<T> Send for VGuard<'_, T> {}
impl<T> Deref for VGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<T> DerefMut for VGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}
impl<T: OptionalSend + 'static> crate::async_runtime::Mutex<T> for VMutex<T> {
    type Guard<'a> = VGuard<'a, T>;
    fn new(value: T) -> Self {
        VMutex(Cell(UnsafeCell::new(value)))
    }
    #[allow(clippy::manual_async_fn)]
    fn lock(&self) -> impl Future<Output = VGuard<'_, T>> + OptionalSend {
        async move { VGuard(unsafe { &mut *self.0 .0.get() }) }
    }
}

// ---- tasks and timers ------------------------------------------------------------------------

pub struct VJoin<T>(std::marker::PhantomData<T>);
unsafe impl<T> Send for VJoin<T> {}
unsafe impl<T> Sync for VJoin<T> {}
impl<T> Unpin for VJoin<T> {}
impl<T> Future for VJoin<T> {
    type Output = Result<T, VErr>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        Poll::Ready(Err(VErr))
    }
}

pub struct VSleep;
impl Future for VSleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        Poll::Ready(())
    }
}

/// A timeout that polls its future once and reports a time-out when it is not ready.
pub struct VTimeout<F>(F);
impl<R, F: Future<Output = R>> Future for VTimeout<F> {
    type Output = Result<R, VErr>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let inner = unsafe { self.map_unchecked_mut(|s| &mut s.0) };
        match inner.poll(cx) {
            Poll::Ready(r) => Poll::Ready(Ok(r)),
            Poll::Pending => Poll::Ready(Err(VErr)),
        }
    }
}

/// Random numbers are symbolic.
pub struct VRng;
impl rand::RngCore for VRng {
    fn next_u32(&mut self) -> u32 {
        super::nd::u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        super::nd::u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest.iter_mut() {
            *b = super::nd::u8();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Debug, Default, PartialEq, Eq)]
pub struct VRt;
impl AsyncRuntime for VRt {
    type JoinError = VErr;
    type JoinHandle<T: OptionalSend + 'static> = VJoin<T>;
    type Sleep = VSleep;
    type Instant = VInstant;
    type TimeoutError = VErr;
    type Timeout<R, T: Future<Output = R> + OptionalSend> = VTimeout<T>;
    type ThreadLocalRng = VRng;
    fn spawn<T>(future: T) -> Self::JoinHandle<T::Output>
    where
        T: Future + OptionalSend + 'static,
        T::Output: OptionalSend + 'static,
    {
        std::mem::forget(future);
        VJoin(std::marker::PhantomData)
    }
    fn sleep(_duration: Duration) -> VSleep {
        VSleep
    }
    fn sleep_until(_deadline: VInstant) -> VSleep {
        VSleep
    }
    fn timeout<R, F: Future<Output = R> + OptionalSend>(_duration: Duration, future: F) -> VTimeout<F> {
        VTimeout(future)
    }
    fn timeout_at<R, F: Future<Output = R> + OptionalSend>(_deadline: VInstant, future: F) -> VTimeout<F> {
        VTimeout(future)
    }
    fn is_panic(_join_error: &VErr) -> bool {
        false
    }
    fn thread_rng() -> VRng {
        VRng
    }
    type Mpsc = VMpsc;
    type MpscUnbounded = VMpsc;
    type Watch = VWatch;
    type Oneshot = VOneshot;
    type Mutex<T: OptionalSend + 'static> = VMutex<T>;
}

/// Runs a future that must never be pending.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = futures::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("the model runtime never suspends"),
    }
}

// ---- type config -----------------------------------------------------------------------------

pub type Nid = u8;

/// Node metadata: one byte, so that "which address does the node have" is observable.
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct VNode(pub u8);

#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct VC;
impl RaftTypeConfig for VC {
    type D = u8;
    type R = u8;
    type NodeId = Nid;
    type Node = VNode;
    type Entry = VEntry;
    type SnapshotData = u8;
    type AsyncRuntime = VRt;
    type Responder = crate::impls::OneshotResponder<VC>;
}

/// A log entry; the membership of a membership entry lives in a table outside of it.
#[derive(Clone, Copy)]
pub struct VEntry {
    pub log_id: crate::LogId<Nid>,
    /// 0: normal, 1: blank, 2 and 3: membership 0 or 1 of the table.
    pub kind: u8,
}
/// The memberships entries may carry; `MEMBERS` is the number of them in use: a harness without
/// membership entries leaves it at 0.
static mut MEMBERS: u8 = 0;
static mut MTAB: [std::mem::MaybeUninit<crate::Membership<VC>>; 2] = [std::mem::MaybeUninit::uninit(), std::mem::MaybeUninit::uninit()];
/// Registers the next membership; returns the `kind` of its entries.
pub fn put_membership(m: crate::Membership<VC>) -> u8 {
    unsafe {
        let i = MEMBERS;
        assert!(i < 2, "vcoll: capacity exceeded");
        if i == 0 {
            MTAB[0].write(m);
        } else {
            MTAB[1].write(m);
        }
        MEMBERS = i + 1;
        2 + i
    }
}
impl VEntry {
    pub fn normal(log_id: crate::LogId<Nid>) -> Self {
        VEntry { log_id, kind: 0 }
    }
}
impl fmt::Debug for VEntry {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl fmt::Display for VEntry {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl crate::log_id::RaftLogId<Nid> for VEntry {
    fn get_log_id(&self) -> &crate::LogId<Nid> {
        &self.log_id
    }
    fn set_log_id(&mut self, log_id: &crate::LogId<Nid>) {
        self.log_id = *log_id
    }
}
impl crate::entry::RaftPayload<VC> for VEntry {
    fn is_blank(&self) -> bool {
        self.kind == 1
    }
    fn get_membership(&self) -> Option<&crate::Membership<VC>> {
        unsafe {
            if MEMBERS > 0 && self.kind == 2 {
                Some(MTAB[0].assume_init_ref())
            } else if MEMBERS > 1 && self.kind == 3 {
                Some(MTAB[1].assume_init_ref())
            } else {
                None
            }
        }
    }
}
impl crate::entry::RaftEntry<VC> for VEntry {
    fn new_blank(log_id: crate::LogId<Nid>) -> Self {
        VEntry { log_id, kind: 1 }
    }
    fn new_membership(log_id: crate::LogId<Nid>, m: crate::Membership<VC>) -> Self {
        VEntry { log_id, kind: put_membership(m) }
    }
}
impl crate::entry::FromAppData<u8> for VEntry {
    fn from_app_data(_t: u8) -> Self {
        VEntry::normal(crate::LogId::default())
    }
}

// ---- typed storage ---------------------------------------------------------------------------

/// Storage of the boxed leader state, one per engine of the harness.
#[cfg(kani)]
mod store {
    use super::VC;
    type L = crate::proposer::Leader<VC, crate::proposer::LeaderQuorumSet<VC>>;
    struct S<T>(T);
    static mut A: S<L> = S(unsafe { std::mem::MaybeUninit::zeroed().assume_init() });
    static mut B: S<L> = S(unsafe { std::mem::MaybeUninit::zeroed().assume_init() });
    pub static mut CUR: u8 = 0;
    impl vcoll::boxed::Place for L {
        fn place(t: L) -> *mut L {
            unsafe {
                let p = if CUR == 0 { std::ptr::addr_of_mut!(A.0) } else { std::ptr::addr_of_mut!(B.0) };
                std::ptr::write(p, t);
                p
            }
        }
    }
}
/// Declares typed storage for vectors of `$t`, one static per vector.
#[cfg(kani)]
#[macro_export]
macro_rules! pool {
    ($m:ident, $t:ty, $snap:literal, $($s:ident)*) => { $crate::pool!($m, $t, $t, [], $snap, $($s)*); };
    ($m:ident, $t:ty, $g:ty, [$($gen:tt)*], $snap:literal, $($s:ident)*) => {
        mod $m {
            use super::*;
            type A = vcoll::Arr<$t, { vcoll::vec_mod::VCAP }>;
            struct W(A);
            $(static mut $s: W = unsafe { std::mem::MaybeUninit::zeroed().assume_init() };)*
            static mut NEXT: usize = 0;
            impl<$($gen)*> vcoll::Elem for $g {
                type S = vcoll::Ref<$g>;
                const SNAP: bool = $snap;
                #[inline(always)]
                fn place() -> *mut vcoll::Arr<$g, { vcoll::vec_mod::VCAP }> {
                    unsafe {
                        let at = NEXT;
                        NEXT = at + 1;
                        let mut _i = 0;
                        $(
                            if at == _i {
                                return std::ptr::addr_of_mut!($s.0) as *mut _;
                            }
                            _i += 1;
                        )*
                        panic!("vcoll: capacity exceeded");
                    }
                }
            }
        }
    };
}
#[cfg(kani)]
pool!(pool_rp, crate::engine::ReplicationProgress<VC>, false, S0 S1 S2 S3);
#[cfg(kani)]
pool!(pool_lid, crate::LogId<Nid>, crate::LogId<N>, [N: crate::NodeId], false, S0 S1 S2 S3 S4 S5 S6 S7);
/// Selects which engine of the harness the next calls belong to.
pub fn current_engine(_i: u8) {
    #[cfg(kani)]
    unsafe {
        store::CUR = _i
    }
}
#[cfg(kani)]
pool!(pool_entry, VEntry, true, S0 S1 S2 S3 S4 S5 S6 S7);
