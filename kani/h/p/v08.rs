//! cap: vcap=5 cap=5
//! bounds: configs over 5 nodes, uniform and joint of two; any set of nodes

use vcoll::BTreeSet;

use super::memb::*;
use super::nd;
use super::vrt::*;
use crate::quorum::AsJoint;
use crate::quorum::Joint;
use crate::quorum::QuorumSet;

fn vset(mask: u8) -> vcoll::Vec<u8> {
    let mut v = vcoll::Vec::with_capacity(5);
    let mut i = 0;
    while i < 5 {
        if has(mask, i) {
            v.push(i);
        }
        i += 1;
    }
    v
}
fn any5() -> u8 {
    nd::below(32)
}

harness! {
/// A quorum is a majority, of each config if there are two; voters outside of the config do not count.
quick 8 quorum_vec []
{
    let a = any5();
    let b = any5();
    let q = any5();
    let one = vset(a).is_quorum(ids(q));
    assert!(one == (ones(a & q) * 2 > ones(a)), "a majority");
    let mut v = vcoll::Vec::with_capacity(2);
    v.push(vset(a));
    v.push(vset(b));
    let j: Joint<u8, vcoll::Vec<u8>, vcoll::Vec<vcoll::Vec<u8>>> = Joint::from(v);
    let two = j.is_quorum(ids(q));
    assert!(two == is_q(a, b, true, q), "a majority of each");
    witness!(one && !two && ones(a) == 3 && ones(b) == 4, "of one only");
}}

harness! {
/// The same for ordered sets, and for references to them.
quick 8 quorum_set []
{
    let a = any5();
    let q = any5();
    let one = mset(a).is_quorum(ids(q));
    assert!(one == is_q(a, 0, false, q), "a majority");
    let mut v = vcoll::Vec::with_capacity(2);
    v.push(mset(a));
    v.push(mset(7));
    let two = v.as_joint().is_quorum(ids(q));
    assert!(two == is_q(a, 7, true, q), "a majority of each");
    witness!(one && !two && ones(a) == 3, "of one only");
}}

harness! {
/// The voters of a quorum set are those of all its configs.
quick 8 voters []
{
    let a = any5();
    let b = nd::below(8);
    let mut v = vcoll::Vec::with_capacity(2);
    v.push(vset(a));
    v.push(vset(b));
    let j: Joint<u8, vcoll::Vec<u8>, vcoll::Vec<vcoll::Vec<u8>>> = Joint::from(v);
    let s: BTreeSet<u8> = j.ids().collect();
    assert!(mask_of(&s) == (a | b));
    witness!(a & !b != 0 && b & !a != 0, "different configs");
}}
