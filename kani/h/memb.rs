//! Memberships given by bit masks over the nodes 0..4, and their reference semantics.

use vcoll::BTreeMap;
use vcoll::BTreeSet;

use super::nd;
use super::vrt::*;
use crate::Membership;

/// Number of nodes.
pub const NN: u8 = vcoll::CAP as u8;
static IDS: [u8; 5] = [0, 1, 2, 3, 4];

pub fn has(mask: u8, i: u8) -> bool {
    (mask >> i) & 1 == 1
}
pub fn ones(mask: u8) -> u8 {
    let mut c = 0;
    let mut i = 0;
    while i < 5 {
        c += (mask >> i) & 1;
        i += 1;
    }
    c
}
pub fn any_mask() -> u8 {
    nd::below(1 << NN)
}
pub fn mset(mask: u8) -> BTreeSet<Nid> {
    let mut s = BTreeSet::new();
    let mut i = 0;
    while i < NN {
        if has(mask, i) {
            s.insert(i);
        }
        i += 1;
    }
    s
}
/// Nodes of a mask; node `i` has address `a + i`.
pub fn mnodes(mask: u8, a: u8) -> BTreeMap<Nid, VNode> {
    let mut s = BTreeMap::new();
    let mut i = 0;
    while i < NN {
        if has(mask, i) {
            s.insert(i, VNode(a + i));
        }
        i += 1;
    }
    s
}

/// The ids of a mask.
#[derive(Clone)]
pub struct Ids {
    pub mask: u8,
    pub i: u8,
}
pub fn ids(mask: u8) -> Ids {
    Ids { mask, i: 0 }
}
impl Iterator for Ids {
    type Item = &'static u8;
    fn next(&mut self) -> Option<&'static u8> {
        while self.i < 5 {
            let i = self.i;
            self.i += 1;
            if has(self.mask, i) {
                return Some(&IDS[i as usize]);
            }
        }
        None
    }
}

/// A majority of every config.
pub fn is_q(a: u8, b: u8, joint: bool, q: u8) -> bool {
    ones(q & a) * 2 > ones(a) && (!joint || ones(q & b) * 2 > ones(b))
}

pub fn memb(a: u8, b: u8, joint: bool, nodes: u8) -> Membership<VC> {
    let mut v = vcoll::Vec::with_capacity(2);
    v.push(mset(a));
    if joint {
        v.push(mset(b));
    }
    Membership::new_unchecked(v, mnodes(nodes, 10))
}

/// The configs of a membership as masks: (number, first, second).
pub fn configs(m: &Membership<VC>) -> (usize, u8, u8) {
    let c = m.get_joint_config();
    let n = c.len();
    (n, if n > 0 { mask_of(&c[0]) } else { 0 }, if n > 1 { mask_of(&c[1]) } else { 0 })
}
pub fn mask_of(s: &BTreeSet<Nid>) -> u8 {
    let mut m = 0;
    let mut i = 0;
    while i < NN {
        if s.contains(&i) {
            m |= 1 << i;
        }
        i += 1;
    }
    assert!(ones(m) as usize == s.len());
    m
}
