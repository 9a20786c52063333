//! cap: vcap=4 cap=4
//! bounds: 3 voters and a learner, changing to the joint config {0,1,2},{1,2,3}; values 0..4; one update before and one after the change

use super::nd;
use super::quorum::*;
use crate::progress::Progress;

harness! {
/// Updates before and after a change of the quorum set; a learner becomes a voter.
quick 7 change []
{
    let a: [&[u8]; 1] = [&[0, 1, 2]];
    let b: [&[u8]; 2] = [&[0, 1, 2], &[1, 2, 3]];
    let mut val = [0u8; 6];
    let mut p = P::new(joint(&a), [3u8], || 0u8);
    let k = nd::below(4);
    step(&mut p, &mut val, &a, k);
    assert!(k != 3 || *p.granted() == 0, "a learner does not count");
    let mut p = p.upgrade_quorum_set(joint(&b), [], || 0u8);
    assert!(*p.granted() == want(&b, &val), "the new quorum set decides");
    let j = nd::below(4);
    assert!(*p.get(&j) == val[j as usize], "progress is inherited");
    let k2 = nd::bool();
    let g = step(&mut p, &mut val, &b, if k2 { 2 } else { 3 });
    assert!(p.is_voter(&3) == Some(true) && p.is_voter(&4).is_none());
    assert!(p.try_get(&4).is_none());
    witness!(g == 2 && k2 && k == 1, "a quorum of both configs");
    std::mem::forget(p);
}}
