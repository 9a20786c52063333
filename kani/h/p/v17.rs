//! bounds: clock readings 0..40, leases 0..8, any sequence of 4 lease operations; a leader that votes or not, two other voters and a learner acknowledging once each or not at all, at any time 0..9
//! cap: vcap=4 cap=4

use std::time::Duration;

use super::gen::*;
use super::nd;
use super::vrt::*;
use crate::progress::Progress;
use crate::proposer::Leader;
use crate::proposer::LeaderQuorumSet;
use crate::utime::Leased;
use crate::Vote;

harness! {
/// A lease runs from the last update or touch for the time given then, unless disabled since the last update.
quick 6 lease []
{
    let mut now = nd::in_range(0, 8);
    let mut l = Leased::<u8, VInstant>::without_last_update(0);
    let mut last: Option<u64> = None;
    let mut lease = 0;
    let mut on = true;
    let mut data = 0;
    let mut i = 0;
    while i < 4 {
        now += nd::in_range(0, 8);
        let op = nd::below(4);
        let d = nd::in_range(0, 8);
        if op == 0 {
            data = nd::u8();
            l.update(VInstant(now), Duration::from_secs(d), data);
            last = Some(now);
            lease = d;
            on = true;
        } else if op == 1 {
            l.touch(VInstant(now), Duration::from_secs(d));
            last = Some(now);
            if on {
                lease = d;
            }
        } else if op == 2 {
            l.disable_lease();
            lease = 0;
            on = false;
        }
        let t = nd::in_range(0, 5);
        let expired = match last {
            None => true,
            Some(u) => now > u + lease + t,
        };
        assert!(l.is_expired(VInstant(now), Duration::from_secs(t)) == expired, "expires exactly when the lease and the extra time are over");
        assert!(*l == data && l.last_update() == last.map(VInstant));
        i += 1;
    }
    witness!(!on && last.is_some(), "disabled");
    witness!(on && lease == 8 && data == 9, "leased");
    std::mem::forget(l);
}}

/// Voters `1` and `2` acknowledge in this order, each at any time; so does learner 3.
fn acked(own: bool) {
    let m = if own { membership(&[&[0, 1, 2]], &[3]) } else { membership(&[&[1, 2]], &[3]) };
    let mut v = Vote::new(1, 0);
    v.committed = true;
    let mut l = Leader::<VC, LeaderQuorumSet<VC>>::new(v.into_committed(), m.to_quorum_set(), [3u8], &[]);
    let now = nd::in_range(1, 9);
    set_now(now);
    let n1 = nd::bool();
    let n2 = nd::bool();
    let t1 = nd::in_range(0, 9);
    let t2 = nd::in_range(0, 9);
    let t3 = nd::in_range(0, 9);
    nd::assume(t1 <= now && t2 <= now && t3 <= now);
    let _ = l.clock_progress.increase_to(&3, Some(VInstant(t3)));
    if n1 {
        let _ = l.clock_progress.increase_to(&1, Some(VInstant(t1)));
    }
    if n2 {
        let _ = l.clock_progress.increase_to(&2, Some(VInstant(t2)));
    }
    let q = l.last_quorum_acked_time().map(|x| x.0);
    let a = if n1 { Some(t1) } else { None };
    let b = if n2 { Some(t2) } else { None };
    let want = if own { std::cmp::max(a, b) } else { std::cmp::min(a, b) };
    assert!(q == want, "the latest time a quorum, with the leader itself if it votes, has acknowledged");
    witness!(n1 && n2 && t1 < t2 && t2 < now, "both acknowledged");
    std::mem::forget(l);
}
harness! {
/// The leader votes.
quick 6 acked_voter []
{
    acked(true);
}}
harness! {
/// The leader does not vote.
quick 6 acked_other []
{
    acked(false);
}}
