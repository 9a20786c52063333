//! Symbolic states and inputs, and the reference models they are built from.

use vcoll::BTreeMap;
use vcoll::BTreeSet;
use vcoll::Arc;
use std::time::Duration;

use super::nd;
use super::vrt::*;
use crate::engine::Engine;
use crate::engine::EngineConfig;
use crate::engine::EngineOutput;
use crate::engine::LogIdList;
use crate::membership::EffectiveMembership;
use crate::raft_state::MembershipState;
use crate::raft_state::RaftState;
use crate::utime::Leased;
use crate::CommittedLeaderId;
use crate::LogId;
use crate::Membership;
use crate::Vote;

pub type Lid = LogId<Nid>;
pub type Clid = CommittedLeaderId<Nid>;

pub const NODES: u8 = 3;

pub fn clid(term: u64, node: Nid) -> Clid {
    Clid::new(term, node)
}

/// Node id of "no node".
pub const NONE: Nid = 255;
/// The node of a committed leader id (0 where the id carries none).
pub fn clid_node(c: &Clid) -> Nid {
    #[cfg(not(feature = "single-term-leader"))]
    {
        c.node_id
    }
    #[cfg(feature = "single-term-leader")]
    {
        let _ = c;
        0
    }
}
/// The node a vote is for.
pub fn vnode(v: &Vote<Nid>) -> Nid {
    match v.leader_id.voted_for() {
        Some(n) => n,
        None => NONE,
    }
}

pub fn any_clid(max_term: u64) -> Clid {
    clid(nd::in_range(0, max_term), nd::below(NODES))
}

pub fn any_vote(max_term: u64) -> Vote<Nid> {
    let mut v = Vote::new(nd::in_range(0, max_term), nd::below(NODES));
    v.committed = nd::bool();
    v
}

pub fn any_log_id(max_term: u64, max_index: u64) -> Lid {
    LogId::new(any_clid(max_term), nd::in_range(0, max_index))
}

pub fn any_opt_log_id(max_term: u64, max_index: u64) -> Option<Lid> {
    if nd::bool() {
        Some(any_log_id(max_term, max_index))
    } else {
        None
    }
}

/// Reference model of a log: `n` consecutive entries, the first one at `base`; `lead[i]` is the
/// leader that proposed the entry at `base + i`.  `purged`: entry 0 is the purged log id.
#[derive(Clone, Copy)]
pub struct MLog<const N: usize> {
    pub base: u64,
    pub n: usize,
    pub lead: [Clid; N],
}

impl<const N: usize> MLog<N> {
    /// Any log with at most `N` known ids, non-decreasing leaders.
    pub fn any(max_base: u64, max_term: u64) -> Self {
        let base = nd::in_range(0, max_base);
        let n = nd::below(N as u8 + 1) as usize;
        let mut lead = [clid(0, 0); N];
        let mut i = 0;
        while i < N {
            lead[i] = any_clid(max_term);
            if i > 0 && i < n {
                nd::assume(lead[i - 1] <= lead[i]);
            }
            i += 1;
        }
        MLog { base, n, lead }
    }
    pub fn get(&self, index: u64) -> Option<Lid> {
        if index >= self.base && index < self.base + self.n as u64 {
            Some(LogId::new(self.lead[(index - self.base) as usize], index))
        } else {
            None
        }
    }
    pub fn last(&self) -> Option<Lid> {
        if self.n == 0 {
            None
        } else {
            self.get(self.base + self.n as u64 - 1)
        }
    }
    /// The compact form the code keeps: first id of every leader, and the last id.
    pub fn keys(&self) -> vcoll::Vec<Lid> {
        let mut v = vcoll::Vec::with_capacity(N + 1);
        let mut i = 0;
        while i < N {
            if i < self.n {
                let is_first = i == 0 || self.lead[i - 1] != self.lead[i];
                let is_last = i + 1 == self.n;
                if is_first || is_last {
                    v.push(LogId::new(self.lead[i], self.base + i as u64));
                }
            }
            i += 1;
        }
        v
    }
    pub fn list(&self) -> LogIdList<VC> {
        LogIdList::new(self.keys())
    }
}

pub fn set(ids: &[Nid]) -> BTreeSet<Nid> {
    let mut s = BTreeSet::new();
    for i in ids {
        s.insert(*i);
    }
    s
}

/// A membership of the given configs; node `i` carries address `i`.
pub fn membership(configs: &[&[Nid]], learners: &[Nid]) -> Membership<VC> {
    let mut v = vcoll::Vec::with_capacity(2);
    let mut nodes = BTreeMap::new();
    for c in configs {
        v.push(set(c));
        for i in c.iter() {
            nodes.insert(*i, VNode(*i));
        }
    }
    for i in learners {
        nodes.insert(*i, VNode(*i));
    }
    Membership::new_unchecked(v, nodes)
}

pub fn eff(log_id: Option<Lid>, m: Membership<VC>) -> Arc<EffectiveMembership<VC>> {
    Arc::new(EffectiveMembership::new(log_id, m))
}

pub fn engine(id: Nid, state: RaftState<VC>) -> Engine<VC> {
    let mut config = EngineConfig::new_default(id);
    config.timer_config.election_timeout = Duration::from_secs(3);
    config.timer_config.smaller_log_timeout = Duration::from_secs(6);
    config.timer_config.leader_lease = Duration::from_secs(5);
    Engine {
        config,
        state: validit::Valid::new(state),
        seen_greater_log: false,
        leader: None,
        candidate: None,
        output: EngineOutput::new(8),
    }
}

pub fn mstate(m: Membership<VC>) -> MembershipState<VC> {
    let e = eff(None, m);
    MembershipState::new(e.clone(), e)
}

/// A vote with any lease state at time `now`: never updated, or updated at some `t <= now` with a
/// lease of at most 8 ticks, enabled or disabled.
pub fn any_leased_vote(now: u64, vote: Vote<Nid>) -> Leased<Vote<Nid>, VInstant> {
    if nd::bool() {
        Leased::without_last_update(vote)
    } else {
        let t = nd::in_range(0, now);
        let lease = nd::in_range(0, 8);
        let mut l = Leased::new(VInstant(t), Duration::from_secs(lease), vote);
        if nd::bool() {
            l.disable_lease();
        }
        l
    }
}

/// Snapshot id number `i`.
pub fn snap_id(i: u8) -> crate::SnapshotId {
    #[cfg(kani)]
    {
        vcoll::Str(i)
    }
    #[cfg(not(kani))]
    {
        i.to_string()
    }
}
