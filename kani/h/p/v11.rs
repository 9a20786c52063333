//! cap: vcap=6 cap=3
//! thorough-cap: vcap=6 cap=3 fn=4
//! bounds: logs of at most 3 (thorough: 4) known ids starting at index 0..2; any snapshot, scheduled and purged position in them; any index asked for up to 6; any number of logs to keep up to 3 and batch up to 3; a leader with a follower and a learner, each with any logs or a snapshot in flight
//! assumes: purged <= scheduled <= snapshot <= committed, which are in the log

use super::gen::*;
use super::nd;
use super::rec::*;
use super::scen::*;
use super::vrt::*;
use crate::engine::Engine;
use crate::progress::entry::ProgressEntry;
use crate::progress::Inflight;
use crate::progress::Progress;
use crate::raft_state::IOId;
use crate::raft_state::LogStateReader;
use crate::storage::SnapshotMeta;
use crate::LogId;
use crate::LogIdOptionExt;
use crate::StoredMembership;
use crate::Vote;

/// A node with any purged, scheduled and snapshot position.
fn any_node(leader: bool) -> (MLog<FN>, Option<Lid>, Option<Lid>, Option<Lid>, Engine<VC>) {
    set_now(10);
    let (f, _c, _p, v0, mut state) = any_fol_state(2);
    nd::assume(v0.committed);
    state.membership_state = mstate(if leader { membership(&[&[0, 1]], &[2]) } else { membership(&[&[0, 1, 2]], &[]) });
    state.io_state.io_progress.accept(IOId::new(v0));
    let purged = state.last_purged_log_id().copied();
    let snap = pos(&f, purged, state.committed);
    let upto = pos(&f, purged, snap);
    state.purge_upto = upto;
    state.snapshot_meta.last_log_id = snap;
    let mut v = v0;
    if leader {
        // Leads with its log; its vote is at least the last log's.
        v = Vote::new(MAX_TERM + 1, 0);
        v.committed = true;
        state.vote = crate::utime::Leased::new(VInstant(0), std::time::Duration::from_secs(5), v);
    }
    state.server_state = if leader { crate::ServerState::Leader } else { crate::ServerState::Follower };
    let mut e = engine(0, state);
    e.config.max_in_snapshot_log_to_keep = nd::in_range(0, 3);
    e.config.purge_batch_size = nd::in_range(0, 3);
    (f, purged, upto, snap, e)
}
/// Any id of the log from `lo` to `hi`.
fn pos(f: &MLog<FN>, lo: Option<Lid>, hi: Option<Lid>) -> Option<Lid> {
    let n = nd::in_range(0, 7);
    nd::assume(n >= lo.next_index() && n <= hi.next_index());
    if n == 0 {
        None
    } else {
        f.get(n - 1)
    }
}
/// What holds after any purge.
fn purged_to(f: &MLog<FN>, before: Option<Lid>, snap: Option<Lid>, e: &Engine<VC>) -> Option<Lid> {
    let p = e.state.last_purged_log_id().copied();
    assert!(p >= before, "never un-purged");
    assert!(p <= snap, "only logs in a snapshot are purged");
    let i = nd::in_range(0, 7);
    let want = if p.is_some() && i < p.unwrap().index { None } else { f.get(i) };
    assert!(e.state.get_log_id(i) == want, "exactly the logs before the purged one are gone");
    assert!(e.state.last_log_id().copied() == f.last() );
    let r = recs(e);
    assert!(r.n == r.count(PURGE) && r.n <= 1);
    assert!((r.n == 1) == (p > before), "the storage purges exactly that");
    if r.n == 1 {
        assert!(r.r[0].a == ol(p));
    }
    assert!(e.state.purge_upto().copied() >= p, "purged at most what is scheduled");
    p
}

harness! {
/// A user asks a follower to purge up to an index.
quick 11 asked []
{
    let (f, before, upto, snap, mut e) = any_node(false);
    let i = nd::in_range(0, 6);
    e.trigger_purge_log(i);
    let p = purged_to(&f, before, snap, &e);
    let want = std::cmp::min(i + 1, snap.next_index());
    if i + 1 > upto.next_index() {
        assert!(p.next_index() == std::cmp::max(want, before.next_index()), "purges up to the index or the snapshot");
    } else {
        assert!(p == before, "already scheduled");
    }
    witness!(p > before && before.is_some() && p < snap, "purged");
    std::mem::forget(e);
}}
harness! {
/// A follower has built a snapshot: purging follows the policy.
quick 11 policy []
{
    let (f, before, upto, snap, mut e) = any_node(false);
    let s2 = pos(&f, None, e.state.committed);
    let keep = e.config.max_in_snapshot_log_to_keep;
    let batch = e.config.purge_batch_size;
    let sm = StoredMembership::new(None, membership(&[&[0, 1, 2]], &[]));
    nd::assume(s2.is_some());
    e.state.io_state_mut().set_building_snapshot(true);
    e.finish_building_snapshot(SnapshotMeta::<VC> { last_log_id: s2, last_membership: sm, snapshot_id: snap_id(1) });
    assert!(!e.state.io_state().building_snapshot(), "another snapshot may be built");
    assert!(e.state.snapshot_meta.last_log_id == std::cmp::max(s2, snap), "the newest snapshot counts");
    let p = purged_to(&f, before, std::cmp::max(s2, snap), &e);
    if s2 > snap {
        let end = if s2.next_index() > keep { s2.next_index() - keep } else { 0 };
        let b = before.next_index();
        let scheduled = upto.next_index();
        let due = if b + batch <= end { end } else { 0 };
        assert!(p.next_index() == std::cmp::max(b, std::cmp::max(scheduled, due)), "what the policy or the user scheduled");
    } else {
        assert!(p == before, "an older snapshot changes nothing");
    }
    assert!(e.state.purge_upto().copied() >= upto, "what is scheduled stays scheduled");
    witness!(p > before && before.is_some(), "purged");
    witness!(s2 < snap, "an older snapshot");
    std::mem::forget(e);
}}
harness! {
/// A leader has built a snapshot or is asked to purge: not while a replication reads those logs.
quick 11 in_use []
{
    let (f, before, upto, snap, mut e) = any_node(true);
    let l = e.state.new_leader();
    e.leader = Some(vcoll::Box::new(l));
    let mut busy: [Option<u64>; 2] = [None; 2];
    let mut i = 0;
    while i < 2 {
        // Reads logs from `k` on, or nothing, or a snapshot.
        let k = nd::in_range(0, 8);
        let p = e.leader.as_mut().unwrap().progress.get_mut(&(i as u8 + 1)).unwrap();
        if k < f.last().next_index() && k >= before.next_index() {
            nd::assume(k > 0 || f.base == 0);
            p.inflight = Inflight::logs(if k == 0 { None } else { f.get(k - 1) }, f.last());
            busy[i] = Some(k);
        } else if k == 8 {
            p.inflight = Inflight::snapshot(snap);
        }
        i += 1;
    }
    let i = nd::in_range(0, 6);
    e.trigger_purge_log(i);
    let p = purged_to(&f, before, snap, &e);
    let ok0 = match busy[0] { Some(k) => p.next_index() <= k, None => true };
    let ok1 = match busy[1] { Some(k) => p.next_index() <= k, None => true };
    assert!(ok0 && ok1 || p == before, "logs being replicated are not purged");
    let want = std::cmp::min(i + 1, snap.next_index());
    if want > upto.next_index() {
        assert!(e.state.purge_upto().next_index() == want, "scheduled");
        let free0 = match busy[0] { Some(k) => want <= k, None => true };
        let free1 = match busy[1] { Some(k) => want <= k, None => true };
        assert!(!(free0 && free1) || p.next_index() == want, "purged at once if not in use");
    }
    witness!(p > before && busy[0].is_some(), "purged");
    witness!(p == before && want > upto.next_index(), "postponed");
    std::mem::forget(e);
}}
