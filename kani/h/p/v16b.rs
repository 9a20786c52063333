//! features: single-term-leader
//! bounds: terms and node ids over all 8-bit values, three votes at a time
//! assumes: a term has at most one committed leader

use std::cmp::Ordering;

use super::gen::*;
use super::nd;
use super::vrt::*;
use crate::LeaderId;
use crate::LogId;
use crate::Vote;

/// A vote; `node` 255 stands for "voted for none", which is never committed.
fn any_v() -> (u64, u8, bool, Vote<Nid>) {
    let t = nd::u8() as u64;
    let n = nd::u8();
    let c = nd::bool();
    nd::assume(n != 255 || !c);
    let mut l = LeaderId::<Nid>::new(t, n);
    if n == 255 {
        l.voted_for = None;
    }
    (t, n, c, Vote { leader_id: l, committed: c })
}
fn one_leader(a: &(u64, u8, bool, Vote<Nid>), b: &(u64, u8, bool, Vote<Nid>)) {
    nd::assume(!(a.2 && b.2 && a.0 == b.0) || a.1 == b.1);
}
/// The order of standard raft: a node votes once per term; a committed vote overrides.
fn want(a: &(u64, u8, bool, Vote<Nid>), b: &(u64, u8, bool, Vote<Nid>)) -> Option<Ordering> {
    if a.0 != b.0 {
        return Some(a.0.cmp(&b.0));
    }
    if a.1 == b.1 {
        return Some(a.2.cmp(&b.2));
    }
    if a.1 == 255 {
        return Some(Ordering::Less);
    }
    if b.1 == 255 {
        return Some(Ordering::Greater);
    }
    if a.2 == b.2 {
        None
    } else {
        Some(a.2.cmp(&b.2))
    }
}

harness! {
/// One leader per term: two votes of a term for different nodes are comparable only if one is committed.
quick 3 votes_std []
{
    let a = any_v();
    let b = any_v();
    one_leader(&a, &b);
    let w = want(&a, &b);
    assert!(a.3.partial_cmp(&b.3) == w);
    assert!((a.3 >= b.3) == matches!(w, Some(Ordering::Greater) | Some(Ordering::Equal)));
    assert!((a.3 == b.3) == (w == Some(Ordering::Equal)));
    assert!(b.3.partial_cmp(&a.3) == w.map(|x| x.reverse()));
    assert!(a.1 == 255 || a.3.leader_id().voted_for() == Some(a.1));
    let ca = a.3.leader_id().to_committed();
    let cb = b.3.leader_id().to_committed();
    assert!(ca.cmp(&cb) == a.0.cmp(&b.0), "logs of a term have one leader");
    assert!(a.3.is_same_leader(&cb) == (a.0 == b.0));
    assert!(LogId::new(ca, 3).cmp(&LogId::new(cb, 5)) == (a.0, 3).cmp(&(b.0, 5)));
    let c = any_v();
    one_leader(&a, &c);
    one_leader(&b, &c);
    assert!(!(a.3 >= b.3 && b.3 >= c.3) || a.3 >= c.3, "comparison is transitive");
    witness!(w.is_none(), "incomparable");
    witness!(w == Some(Ordering::Greater) && a.0 == b.0 && a.1 < b.1, "committed overrides");
}}
