//! bounds: terms, node ids and indexes over all 8-bit values
//! assumes: nothing

use std::cmp::Ordering;

use super::gen::*;
use super::nd;
use super::vrt::*;
use crate::raft_state::IOId;
use crate::LeaderId;
use crate::LogId;
use crate::LogIdOptionExt;
use crate::LogIndexOptionExt;
use crate::Vote;

fn any_v() -> (u64, u8, bool, Vote<Nid>) {
    let t = nd::u8() as u64;
    let n = nd::u8();
    let c = nd::bool();
    (t, n, c, if c { Vote::new_committed(t, n) } else { Vote::new(t, n) })
}

harness! {
/// Votes and leader ids are totally ordered: by term, node, committed.
quick 3 votes []
{
    let (t1, n1, c1, a) = any_v();
    let (t2, n2, c2, b) = any_v();
    let want = (t1, n1, c1).cmp(&(t2, n2, c2));
    assert!(a.partial_cmp(&b) == Some(want));
    assert!((a == b) == (want == Ordering::Equal));
    assert!((a < b) == (want == Ordering::Less) && (a <= b) == (want != Ordering::Greater));
    assert!(a.is_committed() == c1 && a.leader_id().get_term() == t1 && a.leader_id().voted_for() == Some(n1));
    let la = LeaderId::<Nid>::new(t1, n1);
    let lb = LeaderId::<Nid>::new(t2, n2);
    assert!(la.partial_cmp(&lb) == Some((t1, n1).cmp(&(t2, n2))));
    assert!(*a.leader_id() == la);
    let cv = a.into_committed::<VC>();
    assert!(cv.is_committed() && *cv.leader_id() == la);
    assert!(a.is_same_leader(&cv.committed_leader_id()));
    assert!(a.is_same_leader(&b.into_committed::<VC>().committed_leader_id()) == (t1 == t2 && n1 == n2));
    let cb = b.into_committed::<VC>();
    assert!(cv.cmp(&cb) == (t1, n1).cmp(&(t2, n2)));
    assert!((cv.committed_leader_id() < cb.committed_leader_id()) == (cv < cb), "log leaders are ordered as the votes");
    witness!(want == Ordering::Less && t1 == t2 && n1 == n2, "uncommitted before committed");
}}

fn any_lid() -> (Option<((u64, u8), u64)>, Option<Lid>) {
    if nd::bool() {
        let t = nd::u8() as u64;
        let n = nd::u8();
        let i = nd::u8() as u64;
        (Some(((t, n), i)), Some(LogId::new(clid(t, n), i)))
    } else {
        (None, None)
    }
}

harness! {
/// Log ids are ordered by leader, then index; ids of storage writes by vote, then log id.
quick 3 ids []
{
    let (wa, a) = any_lid();
    let (wb, b) = any_lid();
    assert!(a.cmp(&b) == wa.cmp(&wb) && a.partial_cmp(&b) == Some(wa.cmp(&wb)));
    assert!((a == b) == (wa == wb));
    let nx = match wa { None => 0, Some(x) => x.1 + 1 };
    assert!(a.next_index() == nx && a.as_ref().next_index() == nx);
    assert!(a.index() == wa.map(|x| x.1) && a.index().next_index() == nx);
    if let Some(x) = wa {
        assert!(a.index().prev_index() == if x.1 == 0 { None } else { Some(x.1 - 1) });
    }
    let (t1, n1, c1, u) = any_v();
    let (t2, n2, c2, v) = any_v();
    let (ia, ka) = if c1 { (IOId::<VC>::new_log_io(u.into_committed(), a), wa) } else { (IOId::new_vote_io(u.into_non_committed()), None) };
    let (ib, kb) = if c2 { (IOId::<VC>::new_log_io(v.into_committed(), b), wb) } else { (IOId::new(v), None) };
    let want = ((t1, n1, c1), ka).cmp(&((t2, n2, c2), kb));
    assert!(ia.partial_cmp(&ib) == Some(want), "by vote, then by log id");
    assert!((ia == ib) == (want == Ordering::Equal));
    assert!(*ia.vote_ref() == u && ia.last_log_id().copied() == if c1 { a } else { None });
    let z = IOId::<VC>::new(u);
    assert!(*z.vote_ref() == u && z.last_log_id().is_none());
    witness!(want == Ordering::Less && c1 && c2 && t1 == t2 && n1 == n2 && a.is_some(), "same vote, smaller log");
}}
