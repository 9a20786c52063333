//! cap: vcap=6
//! bounds: logs of at most 5 known ids starting at index 0..2, terms 0..3, 3 nodes; at most 3 new entries; any truncation, purge or query position up to index 9
//! assumes: log ids of a log are ordered, at most one leader proposes at an index

use super::gen::*;
use super::nd;
use super::vrt::*;
use crate::engine::LogIdList;
use crate::LogId;
use crate::RaftLogId;

const N: usize = 5;

fn same(s: &LogIdList<VC>, get: impl Fn(u64) -> Option<Lid>, first: Option<Lid>, last: Option<Lid>) {
    let j = nd::in_range(0, 9);
    assert!(s.get(j) == get(j), "log id at any index");
    assert!(s.first().copied() == first, "first known id");
    assert!(s.last().copied() == last, "last id");
}

harness! {
/// Any log read back: every index, first, last and the last leader's range.
quick 8 read []
{
    let l = MLog::<N>::any(2, 3);
    let s = l.list();
    same(&s, |j| l.get(j), if l.n == 0 { None } else { l.get(l.base) }, l.last());
    let b = s.by_last_leader();
    if l.n == 0 {
        assert!(b.is_empty());
    } else {
        let last = l.last().unwrap();
        let lo = b[0];
        let hi = b[b.len() - 1];
        assert!(hi == last && lo.leader_id == last.leader_id);
        assert!(l.get(lo.index) == Some(lo));
        assert!(lo.index == l.base || l.get(lo.index - 1).unwrap().leader_id != lo.leader_id);
        witness!(lo != hi && lo.index > l.base, "the last leader's range");
    }
    std::mem::forget(s);
}}

harness! {
/// Appending entries of any leaders.
quick 8 extend []
{
    let l = MLog::<N>::any(2, 3);
    let n0 = nd::below(N as u8 + 1) as usize;
    nd::assume(n0 <= l.n && l.n <= n0 + 3);
    nd::assume(n0 > 0 || l.base == 0);
    let p = MLog::<N> { base: l.base, n: n0, lead: l.lead };
    let mut s = p.list();
    let mut v = vcoll::Vec::with_capacity(3);
    let mut i = 0;
    while i < 3 {
        if n0 + i < l.n {
            v.push(VEntry::normal(LogId::new(l.lead[n0 + i], l.base + (n0 + i) as u64)));
        }
        i += 1;
    }
    s.extend(&v);
    same(&s, |j| l.get(j), if l.n == 0 { None } else { l.get(l.base) }, l.last());
    witness!(l.n == N && n0 == 2 && l.lead[2] != l.lead[4], "two leaders appended");
    std::mem::forget(s);
    std::mem::forget(v);
}}

harness! {
/// Appending entries of one leader.
quick 8 extend_same []
{
    let l = MLog::<N>::any(2, 3);
    let n0 = nd::below(N as u8 + 1) as usize;
    nd::assume(n0 <= l.n && l.n <= n0 + 3);
    nd::assume(n0 > 0 || l.base == 0);
    let p = MLog::<N> { base: l.base, n: n0, lead: l.lead };
    let mut s = p.list();
    let mut v = vcoll::Vec::with_capacity(3);
    let mut i = 0;
    while i < 3 {
        if n0 + i < l.n {
            nd::assume(l.lead[n0 + i] == l.lead[n0]);
            v.push(VEntry::normal(LogId::new(l.lead[n0 + i], l.base + (n0 + i) as u64)));
        }
        i += 1;
    }
    s.extend_from_same_leader(&v);
    same(&s, |j| l.get(j), if l.n == 0 { None } else { l.get(l.base) }, l.last());
    witness!(l.n == N && n0 == 2 && l.lead[1] != l.lead[2], "a new leader's entries");
    std::mem::forget(s);
    std::mem::forget(v);
}}

harness! {
/// Truncation at any index, then another append.
quick 8 truncate []
{
    let l = MLog::<N>::any(2, 3);
    let mut s = l.list();
    let at = nd::in_range(0, 9);
    nd::assume(at > l.base || l.base == 0);
    s.truncate(at);
    let keep = if at < l.base { 0 } else if at - l.base >= l.n as u64 { l.n } else { (at - l.base) as usize };
    let q = MLog::<N> { base: l.base, n: keep, lead: l.lead };
    same(&s, |j| q.get(j), if q.n == 0 { None } else { q.get(q.base) }, q.last());
    if keep > 0 {
        let c = any_clid(4);
        nd::assume(c >= l.lead[keep - 1]);
        let id = LogId::new(c, l.base + keep as u64);
        s.append(id);
        same(&s, |j| if j == id.index { Some(id) } else { q.get(j) }, q.get(q.base), Some(id));
    }
    witness!(keep > 1 && keep < l.n && l.lead[keep - 1] == l.lead[keep - 2] && l.lead[keep - 1] == l.lead[keep], "cut inside a leader's range");
    std::mem::forget(s);
}}

harness! {
/// Purging up to any id of the log, or beyond its end.
quick 8 purge []
{
    let l = MLog::<N>::any(2, 3);
    let mut s = l.list();
    let at = nd::in_range(0, 9);
    let end = l.base + l.n as u64;
    let upto = if at < end && at >= l.base && l.n > 0 { l.get(at).unwrap() } else { LogId::new(any_clid(3), at) };
    nd::assume(l.n > 0 || at >= l.base);
    if at >= end {
        // A snapshot beyond the log.
        nd::assume(Some(upto) > l.last());
    }
    s.purge(&upto);
    if at >= end || l.n == 0 {
        same(&s, |j| if j == at { Some(upto) } else { None }, Some(upto), Some(upto));
    } else if at < l.base {
        same(&s, |j| l.get(j), l.get(l.base), l.last());
    } else {
        same(&s, |j| if j < at { None } else { l.get(j) }, Some(upto), l.last());
    }
    witness!(at > l.base && at + 1 < end && l.n > 3, "purged in the middle");
    witness!(at > end && l.n > 0, "purged across the end");
    std::mem::forget(s);
}}
