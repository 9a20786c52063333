//! What the engine asked its runtime to do, flattened.
//!
//! Under Kani the commands are observed where they are pushed (see `vcoll::Sink`); natively they are
//! read back from the queue.  Both use `rec_of`.

use super::gen::*;
use super::vrt::*;
use crate::core::sm;
use crate::engine::Command;
use crate::engine::Condition;
use crate::engine::Engine;
use crate::engine::Respond;
use crate::raft::AppendEntriesResponse;
use crate::raft_state::IOId;
use crate::replication::request::Data;
use crate::replication::request::Replicate;
use crate::RaftLogId;
use crate::Vote;
use std::ops::Deref;

pub const UPDATE_IO: u8 = 1;
pub const APPEND: u8 = 2;
pub const REPL_COMMITTED: u8 = 3;
pub const HEARTBEAT: u8 = 4;
pub const SAVE_COMMITTED: u8 = 5;
pub const APPLY: u8 = 6;
pub const REPL_LOGS: u8 = 7;
pub const REPL_SNAPSHOT: u8 = 8;
pub const REPL_OTHER: u8 = 9;
pub const TRANSFER: u8 = 10;
pub const REBUILD: u8 = 11;
pub const SAVE_VOTE: u8 = 12;
pub const SEND_VOTE: u8 = 13;
pub const PURGE: u8 = 14;
pub const TRUNCATE: u8 = 15;
pub const BUILD_SNAPSHOT: u8 = 16;
pub const INSTALL_SNAPSHOT: u8 = 17;
pub const SM_OTHER: u8 = 18;
pub const RESPOND: u8 = 19;

/// A flat optional log id.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct OL {
    pub some: bool,
    pub term: u64,
    pub node: Nid,
    pub index: u64,
}
pub const NOL: OL = OL { some: false, term: 0, node: 0, index: 0 };
pub fn ol(x: Option<Lid>) -> OL {
    match x {
        None => NOL,
        Some(l) => sl(&l),
    }
}
pub fn sl(l: &Lid) -> OL {
    OL { some: true, term: l.leader_id.term, node: clid_node(&l.leader_id), index: l.index }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct FV {
    pub term: u64,
    pub node: Nid,
    pub committed: bool,
}
pub const NFV: FV = FV { term: 0, node: 0, committed: false };
pub fn fv(v: &Vote<Nid>) -> FV {
    FV { term: v.leader_id.term, node: v.leader_id.voted_for().unwrap_or(NONE), committed: v.committed }
}

/// One command.
#[derive(Clone, Copy, Debug)]
pub struct Rec {
    pub kind: u8,
    pub vote: FV,
    pub a: OL,
    pub b: OL,
    /// Condition: 0 none, 1 IO flushed (vote `cv`, log `cl`), 2 log flushed, 3 applied, 4 snapshot.
    pub cond: u8,
    pub cv: FV,
    pub cl: OL,
    /// Target node.
    pub t: Nid,
    /// Number of entries or targets; response code.
    pub n: u8,
}
pub const NREC: Rec = Rec { kind: 0, vote: NFV, a: NOL, b: NOL, cond: 0, cv: NFV, cl: NOL, t: 0, n: 0 };
pub const RCAP: usize = 8;

fn io(i: &IOId<VC>) -> (FV, OL) {
    match i {
        IOId::Vote(v) => (fv(v.deref()), NOL),
        IOId::Log(l) => (fv(l.committed_vote.deref()), ol(l.log_id)),
    }
}
pub fn cond_of(r: &mut Rec, c: &Option<Condition<VC>>) {
    match c {
        None => r.cond = 0,
        Some(Condition::IOFlushed { io_id }) => {
            r.cond = 1;
            let x = io(io_id);
            r.cv = x.0;
            r.cl = x.1;
        }
        Some(Condition::LogFlushed { log_id }) => {
            r.cond = 2;
            r.cl = ol(*log_id);
        }
        Some(Condition::Applied { log_id }) => {
            r.cond = 3;
            r.cl = ol(*log_id);
        }
        Some(Condition::Snapshot { log_id }) => {
            r.cond = 4;
            r.cl = ol(*log_id);
        }
    }
}

// Response codes.
pub const R_AE_SUCCESS: u8 = 1;
pub const R_AE_PARTIAL: u8 = 2;
pub const R_AE_CONFLICT: u8 = 3;
pub const R_AE_HIGHER: u8 = 4;
pub const R_VOTE: u8 = 10;
pub const R_CHUNK: u8 = 20;
pub const R_INSTALL: u8 = 30;
pub const R_FULL: u8 = 40;
pub const R_INIT: u8 = 50;

pub fn rec_of(c: &Command<VC>) -> Rec {
    let mut r = NREC;
    match c {
        Command::UpdateIOProgress { when, io_id } => {
            r.kind = UPDATE_IO;
            cond_of(&mut r, when);
            let x = io(io_id);
            r.vote = x.0;
            r.a = x.1;
        }
        Command::AppendInputEntries { committed_vote, entries } => {
            r.kind = APPEND;
            r.vote = fv(committed_vote.deref());
            r.n = entries.len() as u8;
            if let Some(f) = entries.first() {
                r.a = sl(f.get_log_id());
            }
            if let Some(f) = entries.last() {
                r.b = sl(f.get_log_id());
            }
        }
        Command::ReplicateCommitted { committed } => {
            r.kind = REPL_COMMITTED;
            r.a = ol(*committed);
        }
        Command::BroadcastHeartbeat { session_id, committed } => {
            r.kind = HEARTBEAT;
            r.a = ol(*committed);
            r.vote = fv(session_id.leader_vote.deref());
            r.b = ol(session_id.membership_log_id);
        }
        Command::SaveCommitted { committed } => {
            r.kind = SAVE_COMMITTED;
            r.a = sl(committed);
        }
        Command::Apply { already_committed, upto } => {
            r.kind = APPLY;
            r.a = ol(*already_committed);
            r.b = sl(upto);
        }
        Command::Replicate { target, req } => {
            r.t = *target;
            match req {
                Replicate::Data(Data::Logs(range)) => {
                    r.kind = REPL_LOGS;
                    r.a = ol(range.prev);
                    r.b = ol(range.last);
                }
                Replicate::Data(Data::Snapshot(l)) => {
                    r.kind = REPL_SNAPSHOT;
                    r.a = ol(*l);
                }
                _ => r.kind = REPL_OTHER,
            }
        }
        Command::BroadcastTransferLeader { req } => {
            r.kind = TRANSFER;
            r.vote = fv(&req.from_leader);
            r.t = req.to_node_id;
            r.a = ol(req.last_log_id);
        }
        Command::RebuildReplicationStreams { targets } => {
            r.kind = REBUILD;
            r.n = targets.len() as u8;
            // `t`: bit set of the targets
            let mut i = 0;
            while i < 4 {
                if i < targets.len() {
                    r.t |= 1 << targets[i].0;
                }
                i += 1;
            }
        }
        Command::SaveVote { vote } => {
            r.kind = SAVE_VOTE;
            r.vote = fv(vote);
        }
        Command::SendVote { vote_req } => {
            r.kind = SEND_VOTE;
            r.vote = fv(&vote_req.vote);
            r.a = ol(vote_req.last_log_id);
        }
        Command::PurgeLog { upto } => {
            r.kind = PURGE;
            r.a = sl(upto);
            // The condition the runtime waits for.
            cond_of(&mut r, &c.condition());
        }
        Command::TruncateLog { since } => {
            r.kind = TRUNCATE;
            r.a = sl(since);
        }
        Command::StateMachine { command } => match command {
            sm::Command::BuildSnapshot => r.kind = BUILD_SNAPSHOT,
            sm::Command::InstallFullSnapshot { io_id, snapshot } => {
                r.kind = INSTALL_SNAPSHOT;
                let x = io(io_id);
                r.vote = x.0;
                r.b = x.1;
                r.a = ol(snapshot.meta.last_log_id);
            }
            _ => r.kind = SM_OTHER,
        },
        Command::Respond { when, resp } => {
            r.kind = RESPOND;
            cond_of(&mut r, when);
            match resp {
                Respond::AppendEntries(x) => match x.value() {
                    Ok(AppendEntriesResponse::Success) => r.n = R_AE_SUCCESS,
                    Ok(AppendEntriesResponse::PartialSuccess(m)) => {
                        r.n = R_AE_PARTIAL;
                        r.a = ol(*m);
                    }
                    Ok(AppendEntriesResponse::Conflict) => r.n = R_AE_CONFLICT,
                    Ok(AppendEntriesResponse::HigherVote(v)) => {
                        r.n = R_AE_HIGHER;
                        r.vote = fv(v);
                    }
                    Err(_) => r.n = 9,
                },
                Respond::Vote(x) => {
                    r.n = R_VOTE;
                    if let Ok(x) = x.value() {
                        r.vote = fv(&x.vote);
                        r.a = ol(x.last_log_id);
                        r.n = R_VOTE + x.vote_granted as u8;
                    }
                }
                Respond::ReceiveSnapshotChunk(x) => r.n = R_CHUNK + x.value().is_err() as u8,
                Respond::InstallSnapshot(x) => {
                    r.n = R_INSTALL + x.value().is_err() as u8;
                    if let Ok(x) = x.value() {
                        r.vote = fv(&x.vote);
                    }
                }
                Respond::InstallFullSnapshot(x) => {
                    r.n = R_FULL + x.value().is_err() as u8;
                    if let Ok(x) = x.value() {
                        r.vote = fv(&x.vote);
                    }
                }
                Respond::Initialize(x) => r.n = R_INIT + x.value().is_err() as u8,
            }
        }
    }
    r
}

/// All commands so far, in order.
pub struct Recs {
    pub n: usize,
    pub r: [Rec; RCAP],
}

#[cfg(kani)]
mod sink {
    use super::*;
    pub static mut RECS: Recs = Recs { n: 0, r: [NREC; RCAP] };
    impl vcoll::Sink for Command<VC> {
        const SUNK: bool = true;
        fn sink(c: &Self) {
            let r = rec_of(c);
            unsafe {
                let at = RECS.n;
                assert!(at < RCAP, "vcoll: capacity exceeded");
                let mut i = 0;
                while i < RCAP {
                    if i == at {
                        RECS.r[i] = r;
                        break;
                    }
                    i += 1;
                }
                RECS.n = at + 1;
            }
        }
    }
}

pub fn recs(_e: &Engine<VC>) -> Recs {
    #[cfg(kani)]
    unsafe {
        std::ptr::read(std::ptr::addr_of!(sink::RECS))
    }
    #[cfg(not(kani))]
    {
        let mut o = Recs { n: 0, r: [NREC; RCAP] };
        for c in _e.output.iter_commands() {
            o.r[o.n] = rec_of(c);
            o.n += 1;
        }
        o
    }
}

impl Recs {
    /// Number of commands of a kind.
    pub fn count(&self, kind: u8) -> usize {
        let mut c = 0;
        let mut i = 0;
        while i < RCAP {
            if i < self.n && self.r[i].kind == kind {
                c += 1;
            }
            i += 1;
        }
        c
    }
    pub fn has(&self, kind: u8) -> bool {
        self.count(kind) > 0
    }
    /// The first command of a kind (`NREC` if there is none).
    pub fn first(&self, kind: u8) -> Rec {
        let mut o = NREC;
        let mut found = false;
        let mut i = 0;
        while i < RCAP {
            if !found && i < self.n && self.r[i].kind == kind {
                o = self.r[i];
                found = true;
            }
            i += 1;
        }
        o
    }
    /// Position of the first command of a kind, or `RCAP`.
    pub fn pos(&self, kind: u8) -> usize {
        let mut i = 0;
        let mut p = RCAP;
        while i < RCAP {
            if p == RCAP && i < self.n && self.r[i].kind == kind {
                p = i;
            }
            i += 1;
        }
        p
    }
}
