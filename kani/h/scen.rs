//! Scenarios shared by several properties: a follower and the leader it hears from.

use std::time::Duration;

use super::gen::*;
use super::nd;
use super::rec::*;
use super::vrt::*;
use crate::engine::Engine;
use crate::raft_state::IOId;
use crate::raft_state::RaftState;
use crate::utime::Leased;
use crate::Vote;

/// Length of the reference logs.
pub const FN: usize = num(option_env!("VCOLL_FN"), 3);
const fn num(s: Option<&str>, d: usize) -> usize {
    match s {
        Some(s) => (s.as_bytes()[0] - b'0') as usize,
        None => d,
    }
}
pub const MAX_TERM: u64 = 3;

/// A follower (node 0 of three) in any state Raft allows with at most `FN` known log ids:
/// any vote, any purged/committed prefix.
pub struct Fol {
    pub log: MLog<FN>,
    /// Number of leading ids of `log` that are committed.
    pub c: usize,
    pub purged: bool,
    pub vote: Vote<Nid>,
    pub e: Engine<VC>,
}

impl Fol {
    pub fn committed(&self) -> Option<Lid> {
        if self.c == 0 {
            None
        } else {
            self.log.get(self.log.base + self.c as u64 - 1)
        }
    }
}

/// The state behind `Fol` without the engine.
pub fn any_fol_state(max_base: u64) -> (MLog<FN>, usize, bool, Vote<Nid>, RaftState<VC>) {
    let log = MLog::<FN>::any(max_base, MAX_TERM);
    let c = nd::below(FN as u8 + 1) as usize;
    nd::assume(c <= log.n);
    let purged = nd::bool();
    // Unpurged logs start at 0; a purged log keeps its (committed) purged id.
    nd::assume(purged || log.base == 0);
    nd::assume(!purged || c >= 1);
    let vote = any_vote(MAX_TERM);
    // No log comes from a leader newer than the vote; a committed vote is another node's.
    if let Some(l) = log.last() {
        nd::assume(l.leader_id.term <= vote.leader_id.term);
    }
    nd::assume(!vote.committed || vnode(&vote) != 0 || vote.leader_id.term == 0);
    let mut state = RaftState::<VC>::default();
    state.vote = Leased::new(VInstant(0), Duration::from_secs(5), vote);
    state.log_ids = log.list();
    state.purged_next = if purged { log.base + 1 } else { 0 };
    let p = if purged { log.get(log.base) } else { None };
    state.purge_upto = p;
    state.committed = if c == 0 { None } else { log.get(log.base + c as u64 - 1) };
    state.snapshot_meta.last_log_id = p;
    (log, c, purged, vote, state)
}

/// What the follower already accepted and flushed: nothing beyond its own vote and log.
pub fn any_accepted(state: &mut RaftState<VC>, log: &MLog<FN>, vote: Vote<Nid>) -> Option<IOId<VC>> {
    let k = nd::below(FN as u8 + 1) as usize;
    nd::assume(k <= log.n);
    let at = if k == 0 { None } else { log.get(log.base + k as u64 - 1) };
    let id = if vote.committed { IOId::new_log_io(vote.into_committed(), at) } else { IOId::new(vote) };
    state.io_state.io_progress.accept(id);
    state.io_state.io_progress.submit(id);
    state.io_state.io_progress.flush(id);
    Some(id)
}

/// A leader's log consistent with the follower's: same committed prefix (leader completeness), and the
/// log-matching invariant between the two logs.
pub fn any_leader_log(f: &MLog<FN>, c: usize) -> MLog<FN> {
    let l = MLog::<FN>::any(2, MAX_TERM);
    nd::assume(l.base == f.base);
    nd::assume(l.n >= c);
    let mut i = 0;
    let mut same = true;
    while i < FN {
        if i < f.n && i < l.n {
            let eq = f.lead[i] == l.lead[i];
            // log matching: equal at i implies equal before i
            nd::assume(!eq || same);
            nd::assume(i >= c || eq);
            // the same (term) is never used by two leaders
            same = eq;
        }
        i += 1;
    }
    l
}

/// At most one leader per term committed logs: two log ids of the same term have the same leader.
pub fn one_leader_per_term(a: &MLog<FN>, b: &MLog<FN>, vote: &Vote<Nid>) {
    let mut who = [0u8; MAX_TERM as usize + 1];
    let mut t = 0;
    while t <= MAX_TERM as usize {
        who[t] = nd::below(NODES);
        t += 1;
    }
    let mut i = 0;
    while i < FN {
        if i < a.n {
            nd::assume(who[a.lead[i].term as usize] == clid_node(&a.lead[i]));
        }
        if i < b.n {
            nd::assume(who[b.lead[i].term as usize] == clid_node(&b.lead[i]));
        }
        i += 1;
    }
    nd::assume(who[vote.leader_id.term as usize] == vnode(vote));
}

/// `k` entries of a leader's log following position `p` (number of ids that precede them).
pub fn entries(l: &MLog<FN>, p: usize, k: usize, max: usize) -> vcoll::Vec<VEntry> {
    let mut v = vcoll::Vec::with_capacity(max);
    let mut i = 0;
    while i < max {
        if i < k {
            v.push(VEntry::normal(crate::LogId::new(l.lead[p + i], l.base + (p + i) as u64)));
        }
        i += 1;
    }
    v
}
