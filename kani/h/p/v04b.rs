//! cap: vcap=4
//! bounds: reload from storage: logs of at most 4 ids starting at index 0..1 (the first possibly purged), terms 0..3, 3 nodes

use super::gen::*;
use super::nd;
use super::vrt::*;
use crate::engine::LogIdList;

const N: usize = 4;

fn same(s: &LogIdList<VC>, l: &MLog<N>) {
    let j = nd::in_range(0, 9);
    assert!(s.get(j) == l.get(j), "log id at any index");
    assert!(s.first().copied() == l.get(l.base), "first known id");
    assert!(s.last().copied() == l.last(), "last id");
}

harness! {
/// Rebuilding the list from storage: any log, any purged prefix.
quick 7 load []
{
    let l = MLog::<N>::any(1, 3);
    nd::assume(l.n > 0);
    let purged = nd::bool();
    nd::assume(purged || l.base == 0);
    let mut rd = Rd { l, purged };
    let p = if purged { l.get(l.base) } else { None };
    let s = block_on(LogIdList::<VC>::load_log_ids(p, l.last(), &mut rd)).unwrap();
    same(&s, &l);
    witness!(l.n == N && l.lead[0] != l.lead[1] && l.lead[2] != l.lead[3] && l.lead[1] == l.lead[2], "three leaders");
    std::mem::forget(s);
}}

struct Rd {
    l: MLog<N>,
    purged: bool,
}
impl crate::RaftLogReader<VC> for Rd {
    async fn try_get_log_entries<RB: std::ops::RangeBounds<u64> + Clone + std::fmt::Debug + crate::OptionalSend>(
        &mut self,
        range: RB,
    ) -> Result<vcoll::Vec<VEntry>, crate::StorageError<VC>> {
        let at = match range.start_bound() {
            std::ops::Bound::Included(x) => *x,
            _ => panic!("unexpected range"),
        };
        assert!(!self.purged || at > self.l.base, "a purged log is never read");
        let mut v = vcoll::Vec::with_capacity(1);
        if let Some(x) = self.l.get(at) {
            v.push(VEntry::normal(x));
        }
        Ok(v)
    }
    async fn read_vote(&mut self) -> Result<Option<crate::Vote<Nid>>, crate::StorageError<VC>> {
        panic!("unexpected read")
    }
}
