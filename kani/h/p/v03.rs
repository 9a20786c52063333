//! bounds: logs of at most 3 (thorough: 4) known ids starting at index 0..2 (the first possibly purged), terms 0..3, 3 nodes, any leader commit position
//! thorough-cap: fn=4
//! assumes: what this node accepted from its current leader is a prefix of its log, and that leader's committed log id, when it lies in that prefix, is in the local log (log matching, leader completeness)

use super::gen::*;
use super::nd;
use super::rec::*;
use super::scen::*;
use super::vrt::*;
use crate::raft_state::LogStateReader;
use crate::LogIdOptionExt;

harness! {
/// A commit position from the current leader, against any follower state.
quick 11 commit []
{
    set_now(10);
    let (f, c, _purged, v0, mut state) = any_fol_state(2);
    nd::assume(v0.committed);
    state.membership_state = mstate(membership(&[&[0, 1, 2]], &[]));
    let acc = any_accepted(&mut state, &f, v0);
    let acc = acc.and_then(|x| x.last_log_id().copied());
    let before = state.committed;
    let lc = any_opt_log_id(MAX_TERM, 6);
    // The leader's committed id is consistent with what the follower accepted from this leader.
    if let (Some(a), Some(l)) = (acc, lc) {
        if l.index <= a.index {
            nd::assume(f.get(l.index) == Some(l) || l.index < f.base);
            nd::assume(l.index >= f.base);
        } else {
            nd::assume(l.leader_id >= a.leader_id);
        }
    }
    if let (Some(b), Some(l)) = (before, lc) {
        nd::assume((l.index >= b.index) == (l >= b));
    }
    if let (Some(b), Some(a)) = (before, acc) {
        nd::assume((a.index >= b.index) == (a >= b));
    }
    let mut e = engine(0, state);
    e.handle_commit_entries(lc);
    let after = e.state.committed().copied();
    let r = recs(&e);

    assert!(after >= before, "committed never goes back");
    let m = std::cmp::min(lc, acc);
    assert!(after == std::cmp::max(before, m), "commits exactly what both the leader committed and this node accepted from it");
    assert!(after <= f.last(), "commits only local logs");
    if let Some(a) = after {
        assert!(f.get(a.index) == Some(a), "the committed id is the local log id at its index");
    }
    if after == before {
        assert!(r.n == 0);
    } else {
        assert!(r.count(SAVE_COMMITTED) == 1 && r.first(SAVE_COMMITTED).a == ol(after));
        assert!(r.count(APPLY) == 1);
        let a = r.first(APPLY);
        assert!(a.a == ol(before) && a.b == ol(after), "applies exactly the newly committed range");
        assert!(r.pos(SAVE_COMMITTED) < r.pos(APPLY));
        assert!(r.count(APPEND) == 0 && r.count(TRUNCATE) == 0 && r.count(PURGE) == 0);
    }
    assert!(e.state.last_log_id().copied() == f.last());
    assert!(e.state.log_ids.first().next_index() == f.get(f.base).next_index());
    witness!(after > before && after < lc && c > 0, "clamped by accepted");
    witness!(after == lc && after > before, "up to the leader's");
    witness!(after == before && lc < before && lc.is_some(), "stale commit ignored");
    std::mem::forget(e);
}}
