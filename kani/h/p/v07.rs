//! cap: vcap=4 cap=3
//! thorough-cap: vcap=4 cap=4
//! bounds: uniform and joint memberships over 3 (thorough: 4) nodes, any of them voters, learners or unknown; any change that adds, removes or replaces voters; any two quorums
//! assumes: every voter has a node and no config is empty, before the change

use super::memb::*;
use super::nd;
use super::vrt::*;
use crate::error::ChangeMembershipError;
use crate::ChangeMembers;

fn change(kind: u8, joint: bool) {
    let a = any_mask();
    let b = if joint { any_mask() } else { 0 };
    let nodes = any_mask();
    nd::assume(a != 0 && (!joint || b != 0) && nodes & a == a && nodes & b == b);
    let arg = any_mask();
    let retain = nd::bool();
    let m = memb(a, b, joint, nodes);
    let ch: ChangeMembers<VC> = match kind {
        0 => ChangeMembers::AddVoterIds(mset(arg)),
        1 => ChangeMembers::AddVoters(mnodes(arg, 20)),
        2 => ChangeMembers::RemoveVoters(mset(arg)),
        _ => ChangeMembers::ReplaceAllVoters(mset(arg)),
    };
    let last = if joint { b } else { a };
    let goal = match kind {
        0 | 1 => last | arg,
        2 => last & !arg,
        _ => arg,
    };
    let direct = goal == a || (joint && goal == b);
    let (na, nb, njoint) = if direct { (goal, 0, false) } else { (last, goal, true) };
    let known = if kind == 1 { nodes | arg } else { nodes };
    let left = if retain { known } else { known & !((a | b) & !(na | nb)) };
    let r = m.change(ch, retain);
    match r {
        Err(ChangeMembershipError::EmptyMembership(_)) => assert!(goal == 0, "only an empty voter set is refused as empty"),
        Err(ChangeMembershipError::LearnerNotFound(e)) => {
            assert!(goal != 0);
            assert!(has(goal, e.node_id) && !has(known, e.node_id), "a voter without a node is refused");
        }
        Err(_) => panic!("no other error"),
        Ok(m) => {
            assert!(goal != 0 && goal & !known == 0, "a valid membership");
            let (n, x, y) = configs(&m);
            assert!(n == if njoint { 2 } else { 1 } && x == na && y == nb, "directly only between adjacent configs, else through a joint config");
            let i = nd::below(NN);
            let want = if has(nodes & left, i) { Some(VNode(10 + i)) } else if has(left, i) { Some(VNode(20 + i)) } else { None };
            assert!(m.get_node(&i).copied() == want, "nodes are kept, added or removed as asked; an address never changes");
            assert!(m.contains(&i) == want.is_some());
            assert!(m.is_voter(&i) == has(na | nb, i));
            // Any old and any new quorum overlap, so no decision is lost.
            let q1 = any_mask();
            let q2 = any_mask();
            assert!(!is_q(a, b, joint, q1) || !is_q(x, y, n == 2, q2) || q1 & q2 != 0, "old and new quorums intersect");
            witness!(n == 2 && has(nodes, 2), "through a joint config");
        }
    }
}

harness! {
/// Adding voters that are known nodes.
quick 6 add_ids []
{
    change(0, nd::bool());
}}
harness! {
/// Adding voters with their nodes.
quick 6 add_voters []
{
    change(1, nd::bool());
}}
harness! {
/// Removing voters.
quick 6 remove []
{
    change(2, nd::bool());
}}
harness! {
/// Replacing all voters.
quick 6 replace []
{
    change(3, nd::bool());
}}
