//! bounds: leader logs of up to 41 entries by up to 3 leaders, purged anywhere, any snapshot position; followers that diverge anywhere; batches of 1..9 entries; one message and its answer (inductive over the exchange)
//! assumes: log matching between the leader and the follower; the follower holds what it acknowledged

use super::gen::*;
use super::nd;
use super::vrt::*;
use crate::progress::entry::ProgressEntry;
use crate::progress::Inflight;
use crate::raft_state::LogStateReader;
use crate::LogId;
use crate::LogIdOptionExt;

/// A log by three leaders in turn: `0..b1`, `b1..b2`, `b2..n`; ids below `purged` are unknown
/// except the purged one at `purged - 1`.
struct L {
    b1: u64,
    b2: u64,
    n: u64,
    purged: u64,
    last: Option<Lid>,
    first: Option<Lid>,
    snap: Option<Lid>,
    /// What is to be purged next, at least what is purged.
    upto: Option<Lid>,
}
impl L {
    fn at(&self, i: u64) -> Lid {
        let t = if i < self.b1 { 1 } else if i < self.b2 { 2 } else { 3 };
        LogId::new(clid(t, 1), i)
    }
    fn before(&self, i: u64) -> Option<Lid> {
        if i == 0 {
            None
        } else {
            Some(self.at(i - 1))
        }
    }
}
impl LogStateReader<VC> for L {
    fn get_log_id(&self, i: u64) -> Option<Lid> {
        if i < self.n && i + 1 >= self.purged {
            Some(self.at(i))
        } else {
            None
        }
    }
    fn last_log_id(&self) -> Option<&Lid> {
        self.last.as_ref()
    }
    fn committed(&self) -> Option<&Lid> {
        self.snap.as_ref()
    }
    fn io_applied(&self) -> Option<&Lid> {
        self.snap.as_ref()
    }
    fn io_snapshot_last_log_id(&self) -> Option<&Lid> {
        self.snap.as_ref()
    }
    fn io_purged(&self) -> Option<&Lid> {
        self.first.as_ref()
    }
    fn snapshot_last_log_id(&self) -> Option<&Lid> {
        self.snap.as_ref()
    }
    fn purge_upto(&self) -> Option<&Lid> {
        self.upto.as_ref()
    }
    fn last_purged_log_id(&self) -> Option<&Lid> {
        self.first.as_ref()
    }
}

const MAX: u64 = 41;

fn any_leader() -> L {
    let n = nd::in_range(0, MAX);
    let b1 = nd::in_range(0, MAX);
    let b2 = nd::in_range(0, MAX);
    let purged = nd::in_range(0, MAX);
    let upto = nd::in_range(0, MAX);
    let snap = nd::in_range(0, MAX);
    nd::assume(b1 <= b2 && purged <= upto && upto <= snap && snap <= n);
    let mut l = L { b1, b2, n, purged, last: None, first: None, snap: None, upto: None };
    l.last = l.before(n);
    l.first = l.before(purged);
    l.snap = l.before(snap);
    l.upto = l.before(upto);
    l
}

harness! {
/// What is sent next, from any replication state.
quick 3 next []
{
    let l = any_leader();
    let m = nd::in_range(0, MAX);
    let end = nd::in_range(0, MAX);
    let max = nd::in_range(1, 9);
    nd::assume(m <= end && end <= l.n);
    let mut p = ProgressEntry::<VC>::empty(end);
    p.matching = l.before(m);
    let busy = nd::bool();
    if busy {
        p.inflight = if nd::bool() { Inflight::snapshot(l.snap) } else { Inflight::logs(l.before(0), Some(l.at(3))) };
    }
    let q = p;
    let r = p.next_send(&l, max);
    let sent = r.is_ok();
    let what = match r { Ok(x) => *x, Err(x) => *x };
    assert!(p.inflight == what && p.matching == q.matching && p.searching_end == end);
    if busy {
        assert!(!sent && what == q.inflight, "one message at a time");
        return;
    }
    let upto = l.upto.next_index();
    match what {
        Inflight::Snapshot { last_log_id } => {
            assert!(sent && end < upto, "a snapshot is sent only if logs the node needs are going away");
            assert!(last_log_id == l.snap);
        }
        Inflight::Logs { log_id_range } => {
            assert!(sent && end >= upto);
            let prev = log_id_range.prev;
            let last = log_id_range.last;
            assert!(prev == l.before(prev.next_index()), "the previous log id is the leader's");
            assert!(last == l.before(last.next_index()), "the last log id is the leader's");
            assert!(prev.next_index() >= m && prev.next_index() <= end, "starts between the known match and the last possible match");
            assert!(prev.next_index() >= upto, "never sends logs that are to be purged");
            let k = last.next_index() - prev.next_index();
            assert!(k >= 1 && k <= max && last.next_index() <= l.n);
            assert!(k == max || last == l.last, "a full batch, or all there is");
        }
        Inflight::None => {
            assert!(!sent);
            assert!(l.n <= std::cmp::max(m, upto), "idle only if there is nothing to send");
            assert!(end == l.n && end >= upto);
        }
    }
    witness!(matches!(what, Inflight::Logs { .. }) && end > m + 20, "searching for the match");
    witness!(matches!(what, Inflight::Snapshot { .. }), "by snapshot");
}}

harness! {
/// One message to a follower that may have diverged, and its answer: the search narrows and never
/// loses the match.
quick 3 exchange []
{
    let l = any_leader();
    let m = nd::in_range(0, MAX);
    let end = nd::in_range(0, MAX);
    // The follower's log equals the leader's up to `d`, and differs from there.
    let d = nd::in_range(0, MAX);
    nd::assume(m <= end && end <= l.n && m <= d && d <= l.n);
    let max = nd::in_range(1, 9);
    let mut p = ProgressEntry::<VC>::empty(end);
    p.matching = l.before(m);
    let r = p.next_send(&l, max).map(|x| *x).map_err(|x| *x);
    match r {
        Ok(Inflight::Logs { log_id_range }) => {
            let start = log_id_range.prev.next_index();
            if start <= d {
                // Accepted, possibly only a part of it.
                let ack = nd::in_range(0, MAX);
                nd::assume(ack > start && ack <= log_id_range.last.next_index());
                p.update_matching(l.before(ack));
                assert!(p.matching == l.before(ack) && ack > m, "the match advances");
                assert!(p.searching_end == std::cmp::max(end, ack));
                if ack == log_id_range.last.next_index() {
                    assert!(p.inflight == Inflight::None);
                } else {
                    assert!(p.inflight == Inflight::logs(l.before(ack), log_id_range.last), "the rest is still in flight");
                }
                // What is still in use must not be purged.
                let x = nd::in_range(0, MAX);
                nd::assume(x < l.n);
                let used = p.is_log_range_inflight(&l.at(x));
                assert!(used == (ack < log_id_range.last.next_index() && x >= ack), "purging up to a log in flight, or beyond, is noticed");
                witness!(used && x == ack, "in use");
            } else {
                assert!(start > m);
                p.update_conflicting(start - 1);
                assert!(p.inflight == Inflight::None && p.matching == l.before(m));
                assert!(p.searching_end == start - 1 && p.searching_end < end, "the search narrows");
                assert!(p.searching_end >= d && p.searching_end >= m, "the match is not lost");
                witness!(start == end && end > d + 1, "conflict");
            }
        }
        Ok(Inflight::Snapshot { last_log_id }) => {
            p.update_matching(last_log_id);
            assert!(p.matching == last_log_id && p.inflight == Inflight::None);
            assert!(p.matching.next_index() > m && p.searching_end == p.matching.next_index());
            let used = p.is_log_range_inflight(&l.at(0));
            assert!(!used);
            witness!(last_log_id.next_index() < l.n, "caught up by snapshot");
        }
        _ => {}
    }
}}
