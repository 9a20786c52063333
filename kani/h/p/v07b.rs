//! cap: vcap=4 cap=3
//! thorough-cap: vcap=4 cap=4
//! bounds: uniform and joint memberships over 3 (thorough: 4) nodes and any change of nodes; committed and effective memberships at any two log ids
//! assumes: every voter has a node and no config is empty, before the change

use super::gen::*;
use super::memb::*;
use super::nd;
use super::vrt::*;
use crate::error::ChangeMembershipError;
use crate::ChangeMembers;
use crate::MembershipState;

fn change(kind: u8, joint: bool) {
    let a = any_mask();
    let b = if joint { any_mask() } else { 0 };
    let nodes = any_mask();
    let voters = a | b;
    nd::assume(a != 0 && (!joint || b != 0) && nodes & voters == voters);
    let arg = any_mask();
    let m = memb(a, b, joint, nodes);
    let ch: ChangeMembers<VC> = match kind {
        0 => ChangeMembers::AddNodes(mnodes(arg, 20)),
        1 => ChangeMembers::SetNodes(mnodes(arg, 20)),
        2 => ChangeMembers::RemoveNodes(mset(arg)),
        _ => ChangeMembers::ReplaceAllNodes(mnodes(arg, 20)),
    };
    let known = match kind {
        0 | 1 => nodes | arg,
        2 => nodes & !arg,
        _ => arg,
    };
    match m.change(ch, nd::bool()) {
        Err(ChangeMembershipError::LearnerNotFound(e)) => {
            assert!(has(voters, e.node_id) && !has(known, e.node_id), "a voter always has a node");
        }
        Err(_) => panic!("no other error"),
        Ok(m) => {
            assert!(voters & !known == 0, "a voter always has a node");
            let (n, x, y) = configs(&m);
            if joint {
                // A change of nodes may complete the joint config, in its direction only.
                assert!((n == 2 && x == a && y == b) || (n == 1 && x == b), "voters do not change");
            } else {
                assert!(n == 1 && x == a, "voters do not change");
            }
            let i = nd::below(NN);
            let new = has(arg, i) && kind != 2 && (kind != 0 || !has(nodes, i));
            let want = if !has(known, i) { None } else if new { Some(VNode(20 + i)) } else { Some(VNode(10 + i)) };
            assert!(m.get_node(&i).copied() == want, "nodes change as asked");
            assert!(m.contains(&i) == want.is_some() && m.is_voter(&i) == has(if n == 2 { x | y } else { x }, i));
            witness!(has(a, 1) && has(nodes, 2) && arg != 0, "changed");
        }
    }
}

harness! {
/// Adding learners never replaces the address of a known node.
quick 6 add_nodes []
{
    change(0, nd::bool());
}}
harness! {
/// Setting the addresses of nodes.
quick 6 set_nodes []
{
    change(1, nd::bool());
}}
harness! {
/// Removing learners; a voter cannot be removed this way.
quick 6 remove_nodes []
{
    change(2, nd::bool());
}}
harness! {
/// Replacing all nodes; voters must stay.
quick 6 replace_nodes []
{
    change(3, nd::bool());
}}
harness! {
/// No change is accepted while the last one is not committed.
quick 6 in_progress []
{
    let c = any_opt_log_id(3, 4);
    let f = any_opt_log_id(3, 4);
    let same = nd::bool();
    nd::assume(if same { c == f } else { c < f });
    let s = MembershipState::<VC>::new(eff(c, membership(&[&[0, 1]], &[2])), eff(f, membership(&[&[0, 1]], &[2])));
    let r = s.change_handler().apply(ChangeMembers::AddVoterIds(mset(4)), true);
    match r {
        Ok(m) => {
            assert!(same);
            let (n, x, y) = configs(&m);
            assert!(n == 2 && x == 3 && y == 7);
        }
        Err(ChangeMembershipError::InProgress(p)) => {
            assert!(!same && p.committed == c && p.membership_log_id == f);
            witness!(c.is_some(), "refused");
        }
        Err(_) => panic!("no other error"),
    }
    std::mem::forget(s);
}}
