use std::time::Duration;

use super::gen::*;
use super::nd;
use super::rec::*;
use super::vrt::*;
use crate::engine::Command;
use crate::raft::VoteRequest;
use crate::raft_state::LogStateReader;
use crate::raft_state::RaftState;

harness! {
/// One vote request against any acceptor state.
quick 11 vote_req [crate::engine::handler::vote_handler::VoteHandler::become_leader => super::stubs::no_become_leader]
{
    let now = nd::in_range(0, 20);
    set_now(now);
    let log = MLog::<3>::any(2, 3);
    let v0 = any_vote(3);
    let leased = any_leased_vote(now, v0);
    let (lu, lease, enabled) = leased.lease_info();
    let mut state = RaftState::<VC>::default();
    state.vote = leased;
    state.log_ids = log.list();
    state.membership_state = mstate(membership(&[&[0, 1, 2]], &[]));
    let mut e = engine(0, state);
    let mut rv = any_vote(3);
    rv.committed = false;
    let req = VoteRequest::<VC>::new(rv, any_opt_log_id(3, 5));
    let r = e.handle_vote_req(req.clone());
    let v1 = *e.state.vote_ref();
    assert!(v1 >= v0, "vote never goes back");
    assert!(r.vote == v1);
    let lease_on = match lu { None => false, Some(t) => v0.committed && enabled && now <= t.0 + lease.as_secs() };
    if r.vote_granted {
        assert!(v1 == req.vote);
        assert!(req.vote >= v0);
        assert!(req.last_log_id >= log.last());
        assert!(!lease_on);
        if req.vote != v0 {
            let c = recs(&e);
            assert!(c.n == 1 && c.r[0].kind == SAVE_VOTE && c.r[0].vote == fv(&req.vote));
        }
    } else {
        assert!(v1 == v0);
    }
    witness!(r.vote_granted && req.vote != v0, "granted");
    witness!(!r.vote_granted && lease_on, "lease rejects");
    std::mem::forget(e);
}}
