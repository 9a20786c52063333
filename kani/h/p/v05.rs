//! cap: vcap=5 cap=5
//! bounds: 5 voters, values 0..4, every sequence of 4 updates in which the first two are of node 4 and node 1 and the third repeats one of them (thorough: 4 arbitrary updates)

use super::nd;
use super::quorum::*;

harness! {
/// Four updates of five voters.
quick 7 majority []
{
    let cs: [&[u8]; 1] = [&[0, 1, 2, 3, 4]];
    let mut val = [0u8; 6];
    let mut p = P::new(joint(&cs), [], || 0u8);
    step(&mut p, &mut val, &cs, 4);
    step(&mut p, &mut val, &cs, 1);
    let k = nd::bool();
    step(&mut p, &mut val, &cs, if k { 1 } else { 4 });
    let g = step(&mut p, &mut val, &cs, nd::below(5));
    witness!(g == 3 && val[1] == 4 && val[4] == 4, "granted by a quorum");
    std::mem::forget(p);
}}
harness! {
/// Four updates of five voters, in any order.
thorough 7 majority_any []
{
    let cs: [&[u8]; 1] = [&[0, 1, 2, 3, 4]];
    let mut val = [0u8; 6];
    let mut p = P::new(joint(&cs), [], || 0u8);
    step(&mut p, &mut val, &cs, nd::below(5));
    step(&mut p, &mut val, &cs, nd::below(5));
    step(&mut p, &mut val, &cs, nd::below(5));
    let g = step(&mut p, &mut val, &cs, nd::below(5));
    witness!(g == 3 && val[1] == 4 && val[4] == 4, "granted by a quorum");
    std::mem::forget(p);
}}
