//! Bodies that replace code a harness must not reach: reaching them is a failure.

pub fn no_become_leader<'st, C: crate::RaftTypeConfig>(_h: &mut crate::engine::handler::vote_handler::VoteHandler<'st, C>)
where 'st: 'st {
    panic!("must not become leader here");
}
