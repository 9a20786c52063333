//! Replication progress of a set of nodes, and what a quorum has reached.

use super::nd;
use crate::progress::Progress;
use crate::progress::VecProgress;
use crate::quorum::Joint;

pub type Js = Joint<u8, vcoll::Vec<u8>, vcoll::Vec<vcoll::Vec<u8>>>;
pub type P = VecProgress<u8, u8, u8, Js>;
pub const VMAX: u8 = 4;

pub fn joint(cs: &[&[u8]]) -> Js {
    let mut v = vcoll::Vec::new();
    for c in cs {
        let mut x = vcoll::Vec::new();
        for i in c.iter() {
            x.push(*i);
        }
        v.push(x);
    }
    Joint::new(v)
}

/// The greatest value that a majority of every config has reached.
pub fn want(cs: &[&[u8]], val: &[u8; 6]) -> u8 {
    let mut best = 0;
    let mut v = 1;
    while v <= VMAX {
        let mut all = true;
        for c in cs {
            let mut n = 0;
            for i in c.iter() {
                if val[*i as usize] >= v {
                    n += 1;
                }
            }
            all = all && n * 2 > c.len();
        }
        if all {
            best = v;
        }
        v += 1;
    }
    best
}

/// One update of node `k`, to any value; returns what is granted.
pub fn step(p: &mut P, val: &mut [u8; 6], cs: &[&[u8]], k: u8) -> u8 {
    let v = nd::below(VMAX + 1);
    let got = *p.increase_to(&k, v).expect("a known node");
    if v > val[k as usize] {
        val[k as usize] = v;
    }
    let w = want(cs, val);
    assert!(got <= w, "nothing is granted that a quorum has not reached");
    assert!(got == w, "what a quorum has reached is granted");
    assert!(*p.granted() == w);
    got
}
