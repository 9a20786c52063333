//! cap: vcap=6 cap=3
//! thorough-cap: vcap=6 cap=3 fn=4
//! bounds: 3 voters; logs of at most 3 (thorough: 4) ids; any vote before the election; three answers in any order, from any voter, with any vote in terms 0..4, granting or not
//! assumes: a voter's grant for this election carries this election's vote

use super::gen::*;
use super::nd;
use super::rec::*;
use super::scen::*;
use super::vrt::*;
use crate::raft::VoteResponse;
use crate::raft_state::LogStateReader;
use crate::LogId;
use crate::LogIdOptionExt;
use crate::Vote;

static mut WON: u8 = 0;
/// Stands for establishing the leader.
pub fn won<C: crate::RaftTypeConfig>(_e: &mut crate::engine::Engine<C>) {
    unsafe { WON += 1 }
}

fn start() -> (MLog<FN>, Vote<Nid>, crate::engine::Engine<VC>) {
    set_now(10);
    let (f, _c, _p, v0, mut state) = any_fol_state(2);
    // Not a leader before.
    nd::assume(vnode(&v0) != 0 || !v0.committed);
    nd::assume(v0.leader_id.term < MAX_TERM);
    state.membership_state = mstate(membership(&[&[0, 1, 2]], &[]));
    any_accepted(&mut state, &f, v0);
    let mut e = engine(0, state);
    e.elect();
    (f, v0, e)
}

harness! {
/// An election is announced before anything else: the vote saved, the others asked.
quick 11 start_election [crate::engine::handler::vote_handler::VoteHandler::become_leader => super::stubs::no_become_leader]
{
    let (f, v0, e) = start();
    let v = *e.state.vote_ref();
    assert!(v == Vote::new(v0.leader_id.term + 1, 0) && v > v0, "a new term of its own");
    let r = recs(&e);
    assert!(r.n == 2 && r.r[0].kind == SAVE_VOTE && r.r[1].kind == SEND_VOTE, "the vote is saved first");
    assert!(r.r[0].vote == fv(&v) && r.r[1].vote == fv(&v) && r.r[1].a == ol(f.last()), "asks with its vote and last log");
    assert!(e.leader.is_none() && e.state.server_state == crate::ServerState::Candidate);
    assert!(e.candidate_ref().unwrap().granters().count() == 0, "its own vote counts once it is saved");
    witness!(f.n == 2, "elects");
    std::mem::forget(e);
}}

fn any_resp(own: &Vote<Nid>) -> (Nid, VoteResponse<VC>) {
    let t = nd::below(3);
    let v = if nd::bool() {
        *own
    } else {
        let v = any_vote(MAX_TERM + 1);
        nd::assume(!v.committed || vnode(&v) != 0);
        v
    };
    let granted = nd::bool();
    let last = if nd::bool() { Some(LogId::new(clid(nd::in_range(0, 3), 1), nd::in_range(0, 5))) } else { None };
    (t, VoteResponse::new(v, last, granted))
}

fn tally(n: u8) {
    let (f, _v0, mut e) = start();
    let own = *e.state.vote_ref();
    let mut granted = 0u8;
    let mut alive = true;
    let mut done = false;
    let mut i = 0;
    while i < n {
        let (t, resp) = any_resp(&own);
        let before = *e.state.vote_ref();
        let counts = alive && resp.vote_granted && resp.vote == own;
        if counts {
            granted |= 1 << t;
        }
        // One election is decided once; what follows a decision is another harness' business.
        let w = alive && super::memb::ones(granted) >= 2;
        e.handle_vote_resp(t, resp.clone());
        if w {
            done = true;
            break;
        }
        if alive && !counts && resp.vote > before {
            alive = false;
            assert!(*e.state.vote_ref() == resp.vote, "a greater vote is taken over");
        } else if !counts {
            assert!(*e.state.vote_ref() == before);
        }
        if alive {
            assert!(e.candidate_ref().is_some(), "the election goes on");
        } else {
            assert!(e.candidate_ref().is_none(), "the election is over");
            assert!(e.state.server_state == crate::ServerState::Follower);
        }
        if alive && !counts && resp.last_log_id > f.last() {
            assert!(e.is_there_greater_log(), "a greater log is remembered");
        }
        i += 1;
    }
    #[cfg(kani)]
    {
        assert!(unsafe { WON } == done as u8, "established exactly when a majority granted this vote");
    }
    #[cfg(not(kani))]
    {
        assert!(e.leader.is_some() == done, "established exactly when a majority granted this vote");
    }
    witness!(done && granted == 6, "elected by the others");
    std::mem::forget(e);
}
harness! {
/// Answers to one election.
quick 11 count_votes [crate::engine::handler::vote_handler::VoteHandler::become_leader => super::stubs::no_become_leader, crate::engine::Engine::establish_leader => won]
{
    tally(2);
}}
harness! {
/// The deciding answer: the node leads, saves its vote as committed, and proposes a blank log of its own.
quick 11 establish []
{
    let (f, _v0, mut e) = start();
    let own = *e.state.vote_ref();
    e.candidate_mut().unwrap().grant_by(&1);
    e.handle_vote_resp(2, VoteResponse::new(own, None, true));
    let mut cv = own;
    cv.committed = true;
    assert!(*e.state.vote_ref() == cv, "the vote is committed");
    assert!(e.candidate_ref().is_none() && e.state.server_state == crate::ServerState::Leader);
    let blank = LogId::new(clid(own.leader_id.term, 0), f.last().next_index());
    assert!(e.state.last_log_id().copied() == Some(blank), "a blank log follows the last log");
    assert!(e.state.get_log_id(blank.index) == Some(blank));
    assert!(f.n == 0 || e.state.get_log_id(blank.index - 1) == f.last(), "the log before it stays");
    let l = e.leader_ref().unwrap();
    assert!(l.noop_log_id().copied() == Some(blank) && l.last_log_id().copied() == Some(blank));
    assert!(*l.committed_vote_ref() == cv.into_committed());
    let r = recs(&e);
    assert!(r.count(SAVE_VOTE) == 2 && r.count(APPEND) == 1 && r.count(REBUILD) == 1);
    let a = r.first(APPEND);
    assert!(a.n == 1 && a.a == sl(&blank) && a.vote == fv(&cv), "the blank log is written under the committed vote");
    assert!(r.first(REBUILD).t == 0b110 && r.first(REBUILD).n == 2, "replication to every other node");
    let mut saved = RCAP;
    let mut i = 0;
    while i < RCAP {
        if i < r.n && r.r[i].kind == SAVE_VOTE && r.r[i].vote == fv(&cv) {
            saved = i;
        }
        i += 1;
    }
    assert!(saved < r.pos(APPEND), "the committed vote is saved before the log is written");
    assert!(r.count(REPL_LOGS) + r.count(REPL_SNAPSHOT) == 2, "the log is sent to every other node");
    assert!(r.count(APPLY) == 0 && r.count(SAVE_COMMITTED) == 0, "nothing is committed by winning");
    witness!(f.n == 3, "leads");
    std::mem::forget(e);
}}
harness! {
/// A leader that starts another election writes nothing under its former vote.
quick 11 elect_again []
{
    set_now(10);
    let f = MLog::<2>::any(0, 1);
    let mut state = crate::RaftState::<VC>::default();
    let mut v = Vote::new(1, 0);
    v.committed = true;
    state.vote = crate::utime::Leased::new(VInstant(0), std::time::Duration::from_secs(5), v);
    state.log_ids = f.list();
    nd::assume(f.n < 2 || f.lead[0] < f.lead[1]);
    nd::assume(f.n > 0 && f.last() <= Some(LogId::new(clid(1, 0), f.n as u64 - 1)));
    state.membership_state = mstate(membership(&[&[0, 1, 2]], &[]));
    state.server_state = crate::ServerState::Leader;
    state.io_state.io_progress.accept(crate::raft_state::IOId::new_log_io(v.into_committed(), f.last()));
    let mut e = engine(0, state);
    let l = e.state.new_leader();
    e.leader = Some(vcoll::Box::new(l));
    e.elect();
    let own = *e.state.vote_ref();
    assert!(own == Vote::new(2, 0));
    let mut v = vcoll::Vec::with_capacity(2);
    v.push(VEntry::normal(LogId::default()));
    if let Some((mut h, _)) = e.get_leader_handler_or_reject(None) {
        h.leader_append_entries(v);
    }
    let r = recs(&e);
    let mut i = 0;
    while i < RCAP {
        if i < r.n && r.r[i].kind == APPEND {
            assert!(r.r[i].vote.term >= own.leader_id.term, "no log is written under a vote below the saved one");
        }
        i += 1;
    }
    assert!(e.state.last_log_id().copied() == f.last(), "nothing is appended by a candidate");
    witness!(f.n == 2, "a leader elects again");
    std::mem::forget(e);
}}
