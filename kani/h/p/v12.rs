//! cap: vcap=6 cap=3
//! thorough-cap: fn=4
//! bounds: logs of at most 3 (thorough: 4) known ids starting at index 0..2 (the first possibly purged), terms 0..3, 3 nodes; any snapshot position up to index 5; memberships: one local uncommitted membership at any index and one in the snapshot at any index, over a log of 4 ids that matches, conflicts with or ends before the snapshot
//! assumes: the snapshot comes from the current leader and contains committed logs only (its last id agrees with the local committed logs); log matching: if the local log holds the snapshot's last id, the snapshot's membership is the last one of the local log up to there

use super::gen::*;
use super::nd;
use super::rec::*;
use super::scen::*;
use super::vrt::*;
use crate::engine::Condition;
use crate::raft_state::IOId;
use crate::raft_state::LogStateReader;
use crate::raft_state::MembershipState;
use crate::storage::Snapshot;
use crate::storage::SnapshotMeta;
use crate::LogId;
use crate::LogIdOptionExt;
use crate::StoredMembership;

harness! {
/// One snapshot installed over any local log: the log and the storage.
quick 11 log []
{
    set_now(10);
    let (f, c, purged, v0, mut state) = any_fol_state(2);
    nd::assume(v0.committed);
    let before = state.committed;
    let f_last = f.last();
    state.membership_state = mstate(membership(&[&[0, 1, 2]], &[]));
    any_accepted(&mut state, &f, v0);
    let sid = any_log_id(MAX_TERM, 5);
    nd::assume(sid.leader_id <= *v0.leader_id());
    if let Some(b) = before {
        nd::assume((sid.index >= b.index) == (sid >= b));
        nd::assume(sid.index > b.index || sid.index < f.base || f.get(sid.index) == Some(sid));
    }
    let local = if sid.index >= f.base && f.n > 0 { f.get(sid.index) } else { None };
    let matching = local == Some(sid);
    let sm = StoredMembership::new(None, membership(&[&[0, 1, 2]], &[]));
    let meta = SnapshotMeta::<VC> { last_log_id: Some(sid), last_membership: sm, snapshot_id: Default::default() };
    let snap = Snapshot { meta, snapshot: vcoll::Box::new(7u8) };
    let mut e = engine(0, state);
    let cond = e.following_handler().install_full_snapshot(snap);
    let r = recs(&e);
    if Some(sid) <= before {
        assert!(cond.is_none() && r.n == 0, "a snapshot that is not newer is ignored");
        assert!(e.state.committed == before && e.state.last_log_id().copied() == f_last);
    } else {
        assert!(cond == Some(Condition::Snapshot { log_id: Some(sid) }));
        assert!(e.state.committed == Some(sid), "what a snapshot holds is committed");
        assert!(e.state.snapshot_meta.last_log_id == Some(sid));
        assert!(e.state.accepted_io().map(|x| *x.vote_ref()) == Some(v0));
        // The log.
        let j = nd::in_range(0, 7);
        let want = if j < sid.index { None } else if j == sid.index { Some(sid) } else if matching { f.get(j) } else { None };
        assert!(e.state.get_log_id(j) == want, "covered logs go, later ones stay only if they follow the snapshot");
        assert!(e.state.last_log_id().copied() == if matching { f_last } else { Some(sid) });
        assert!(e.state.last_purged_log_id().copied() == Some(sid) && e.state.purge_upto().copied() == Some(sid));
        // The storage.
        let conflict = local.is_some() && !matching;
        assert!(r.count(INSTALL_SNAPSHOT) == 1 && r.first(INSTALL_SNAPSHOT).a == sl(&sid) && r.first(INSTALL_SNAPSHOT).b == sl(&sid));
        assert!(r.first(INSTALL_SNAPSHOT).vote == fv(&v0));
        assert!(r.count(PURGE) == 1 && r.first(PURGE).a == sl(&sid) && r.pos(INSTALL_SNAPSHOT) < r.pos(PURGE), "logs are purged only after the snapshot that holds them is there");
        assert!(r.first(PURGE).cond == 4 && r.first(PURGE).cl == sl(&sid));
        if conflict {
            assert!(r.count(TRUNCATE) == 1 && r.pos(TRUNCATE) < r.pos(INSTALL_SNAPSHOT), "conflicting logs are removed first");
            assert!(r.first(TRUNCATE).a == ol(f.get(before.next_index())));
        }
        if r.has(TRUNCATE) {
            assert!(!matching && r.first(TRUNCATE).a.index >= before.next_index(), "a committed log is never truncated");
        }
        witness!(conflict && c > 0 && purged, "conflict");
        witness!(!conflict && !matching && c > 0, "snapshot beyond the log");
        witness!(matching && sid.index < f_last.index().unwrap_or(0), "logs after the snapshot stay");
    }
    std::mem::forget(e);
}}
/// The membership after a snapshot is installed over a log with a membership M1 not known to be
/// committed.  `matching`: the snapshot's last log is in the local log; `own`: the snapshot has a
/// membership newer than M0 (M1 if `matching`, else M2).
fn install(matching: bool, own: bool) {
    set_now(10);
    // Local: logs 0..=4 of term 1, `cn` of them committed; M1 in one of the others.
    let last = 4;
    let lid = |t: u64, i: u64| LogId::new(clid(t, 1), i);
    let mut log = vcoll::Vec::with_capacity(4);
    log.push(lid(1, 0));
    log.push(lid(1, last));
    let mut state = crate::RaftState::<VC>::default();
    let mut v0 = crate::Vote::new(2, 1);
    v0.committed = true;
    state.vote = crate::utime::Leased::new(VInstant(0), std::time::Duration::from_secs(5), v0);
    state.log_ids = crate::engine::LogIdList::new(log);
    let cn = nd::in_range(1, 4);
    state.committed = Some(lid(1, cn - 1));
    let i1 = nd::in_range(0, last);
    nd::assume(i1 >= cn);
    let l1 = Some(lid(1, i1));
    // M0 {0,1}; M1 {1}, learner 0; M2 {0,1}, learner 2.
    let m0 = eff(None, membership(&[&[0, 1]], &[]));
    let m1 = eff(l1, membership(&[&[1]], &[0]));
    state.membership_state = MembershipState::new(m0, m1);
    state.io_state.io_progress.accept(IOId::new(v0));
    state.server_state = crate::ServerState::Learner;

    // The snapshot: at any later index; of the same term if it matches, else of term 2.
    let si = nd::in_range(0, 6);
    nd::assume(si >= cn && (!matching || si <= last));
    let sid = lid(if matching { 1 } else { 2 }, si);
    let i2 = nd::in_range(0, 6);
    let t2 = if matching || nd::bool() { 1 } else { 2 };
    nd::assume(i2 >= cn && i2 <= si);
    if matching {
        // Its membership is what the log up to there says.
        nd::assume(own == (i1 <= si) && (!own || i2 == i1));
    } else {
        // The same log id is the same log.
        nd::assume(t2 == 2 || i2 != i1);
    }
    let l2 = if own { Some(lid(t2, i2)) } else { None };
    let sm = if !own {
        membership(&[&[0, 1]], &[])
    } else if matching {
        membership(&[&[1]], &[0])
    } else {
        membership(&[&[0, 1]], &[2])
    };
    let meta = SnapshotMeta::<VC> { last_log_id: Some(sid), last_membership: StoredMembership::new(l2, sm), snapshot_id: snap_id(1) };
    let snap = Snapshot { meta, snapshot: vcoll::Box::new(7u8) };
    let mut e = engine(0, state);
    let cond = e.following_handler().install_full_snapshot(snap);
    assert!(cond.is_some());
    let ms = &e.state.membership_state;
    let keeps1 = matching && i1 > si;
    assert!(*ms.effective().log_id() == if keeps1 { l1 } else { l2 }, "the effective membership is the last one in the log, or the snapshot's");
    assert!(*ms.committed().log_id() == l2, "the committed membership is the snapshot's");
    let voter = !(keeps1 || (matching && own));
    assert!(ms.is_voter(&0) == voter);
    assert!(ms.contains(&2) == (own && !matching));
    assert!((e.state.server_state == crate::ServerState::Follower) == voter, "the server state follows the membership");
    witness!(matching || (si > last && i1 < i2), "installed");
    witness!(matching || si < last, "conflict or match");
    std::mem::forget(e);
}

harness! {
/// The snapshot is from another history and has the older membership.
quick 11 other_old []
{
    install(false, false);
}}
harness! {
/// The snapshot is from another history and has another membership.
quick 11 other_new []
{
    install(false, true);
}}
harness! {
/// The snapshot is a prefix of the local log without the new membership.
quick 11 prefix_old []
{
    install(true, false);
}}
harness! {
/// The snapshot is a prefix of the local log with the new membership.
quick 11 prefix_new []
{
    install(true, true);
}}
