//! bounds: logs of at most 3 (thorough: 4) known ids starting at index 0..2 (the first possibly purged), terms 0..3, 3 nodes, at most 2 entries per request, any vote, any request position
//! thorough-cap: fn=4
//! assumes: the invariants of the Raft protocol hold between the two logs before the request: equal ids at an index imply equal prefixes, the follower's committed prefix is in the leader's log, one leader per (term, node)

use super::gen::*;
use super::nd;
use super::rec::*;
use super::scen::*;
use super::vrt::*;
use crate::async_runtime::Oneshot;
use crate::raft_state::LogStateReader;
use crate::type_config::TypeConfigExt;

harness! {
/// One append-entries request (any position of the leader's log, 0 to 2 entries) against any follower state.
quick 11 append [crate::engine::handler::vote_handler::VoteHandler::become_leader => super::stubs::no_become_leader]
{
    set_now(10);
    let (f, c, purged, v0, mut state) = any_fol_state(2);
    state.membership_state = mstate(membership(&[&[0, 1, 2]], &[]));
    any_accepted(&mut state, &f, v0);
    let l = any_leader_log(&f, c);
    let mut rv = any_vote(MAX_TERM);
    rv.committed = true;
    nd::assume(vnode(&rv) != 0);
    if let Some(x) = l.last() {
        nd::assume(x.leader_id <= rv.leader_id);
    }
    // The position of the request: the leader sends nothing it has purged.
    let p = nd::below(FN as u8 + 1) as usize;
    let k = nd::below(3) as usize;
    nd::assume(p + k <= l.n);
    nd::assume(p >= 1 || l.base == 0);
    nd::assume(!(p == 0 && purged && k > 0));
    let prev = if p == 0 { None } else { l.get(l.base + p as u64 - 1) };
    let ents = entries(&l, p, k, 2);
    let mut e = engine(0, state);
    let ok = e.handle_append_entries(&rv, prev, ents, None);
    let r = recs(&e);

    let first = f.base;
    if !(rv >= v0) {
        assert!(!ok, "a request of a smaller vote is refused");
        assert!(*e.state.vote_ref() == v0);
        assert!(r.n == 0);
        assert!(e.state.last_log_id().copied() == f.last());
    } else {
        assert!(*e.state.vote_ref() == rv);
        let matches = p == 0 || p <= c || (p <= f.n && f.lead[p - 1] == l.lead[p - 1]);
        assert!(ok == matches, "accepted exactly if the preceding log id is in the local log");
        // first position where a sent entry differs from the local log
        let mut conflict = FN + 1;
        let mut i = 0;
        while i < FN {
            if conflict > FN && i >= p && i < p + k && (i >= f.n || f.lead[i] != l.lead[i]) {
                conflict = i;
            }
            i += 1;
        }
        let end = if !matches { p - 1 } else if conflict > FN { f.n } else { p + k };
        let end = if !matches && p > f.n { f.n } else { end };
        let mut i = 0;
        while i < FN {
            let idx = first + i as u64;
            let got = e.state.get_log_id(idx);
            if i < end {
                let want = if matches && conflict <= FN && i >= conflict { l.lead[i] } else { f.lead[i] };
                assert!(got == Some(crate::LogId::new(want, idx)), "log id at an index");
                if matches && i < p + k && i >= p {
                    assert!(want == l.lead[i], "replicated entries equal the leader's");
                }
            } else {
                assert!(got.is_none(), "no log beyond");
            }
            assert!(i >= c || got == f.get(idx), "a committed log id never changes");
            i += 1;
        }
        // The storage is told exactly that.
        let want_trunc = if !matches { p <= f.n } else { conflict < f.n };
        assert!(r.count(TRUNCATE) == want_trunc as usize, "storage truncation");
        if want_trunc {
            let at = if !matches { p - 1 } else { conflict };
            assert!(r.first(TRUNCATE).a == ol(f.get(first + at as u64)));
            assert!(at >= c, "committed log is never truncated");
        }
        let want_app = matches && conflict <= FN;
        assert!(r.count(APPEND) == want_app as usize);
        if want_app {
            let a = r.first(APPEND);
            assert!(a.n as usize == p + k - conflict);
            assert!(a.a == ol(l.get(first + conflict as u64)));
            assert!(a.b == ol(l.get(first + (p + k) as u64 - 1)));
            assert!(a.vote == fv(&rv));
            assert!(!want_trunc || r.pos(TRUNCATE) < r.pos(APPEND), "truncate before append");
        }
        assert!(r.count(PURGE) == 0 && r.count(APPLY) == 0);
        witness!(want_trunc && want_app, "conflict overwritten");
        witness!(!matches && want_trunc && c > 0, "inconsistent log truncated");
        witness!(matches && want_app && !want_trunc && purged && p > 1, "appended after a purged log");
        witness!(matches && !want_app && k == 2, "duplicate request");
    }
    std::mem::forget(e);
}}
