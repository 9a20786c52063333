#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P, NA = [], {}
E = "openraft/src/"


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=[f if "/" in f and f.split("/")[0] in ("stores", "examples") else E + f for f in files.split()], mechanism=[dict(name=mech, where=E + files.split()[0])])))
    if na:
        NA[id] = na
    else:
        P[-1]["_note"] = note


BASE = "All values within the stated bounds, decided by SAT over a bounded-collections copy of the current source; "

prop("V01", "A vote is granted once per term, only to an up-to-date candidate",
     "A node's vote never goes back; it grants a vote request only if the requested vote is not smaller than its own, the candidate's log is at least as up-to-date as its own, and no live leader lease is in force. A refused request changes nothing, and a newly granted vote is handed to storage.",
     "inputs histories", "every vote state, lease state, log, clock value and vote request",
     "Unit tests fix a handful of vote/log/lease combinations; the property is a relation over all of them.",
     "engine/engine_impl.rs engine/handler/vote_handler/mod.rs utime.rs vote/vote.rs",
     "The vote handler compares the leased vote and last log id before updating and persisting the vote.",
     "one request against any acceptor state; 3 nodes, terms 0..3, logs of up to 3 known ids")
prop("V02", "Replication keeps logs matching and never loses committed entries",
     "A request to append entries is accepted exactly if the preceding log id is in the local log; afterwards the local log equals the leader's up to the last entry sent, entries after a conflict are removed and all others kept. A committed log id is never removed or replaced, and storage is told to truncate and append exactly that, in that order.",
     "inputs histories", "every pair of a local log and a leader log that satisfy the Raft invariants, and every request the leader may send",
     "Tests use a few fixed logs; a conflict may sit at any offset relative to purged, committed and key log ids.",
     "engine/handler/following_handler/mod.rs engine/log_id_list.rs raft_state/mod.rs raft_state/log_state_reader.rs engine/engine_impl.rs",
     "Consistency check of the previous log id, first conflicting index, truncation and append of the remaining entries.",
     "one request; logs of up to 3 (thorough 4) ids, up to 2 entries per request")
prop("V03", "A follower's commit index only moves forward and only over accepted logs",
     "The commit index of a follower never goes back, never passes the last log it accepted from its current leader, and otherwise follows the leader's. Exactly the newly committed range is saved and applied.",
     "inputs histories", "every follower state and every commit position a leader may announce",
     "Tests fix a few positions; stale, partial and future positions combine with any accepted prefix.",
     "engine/handler/following_handler/mod.rs raft_state/mod.rs engine/engine_impl.rs",
     "Committed is the minimum of the leader's commit and the accepted log of the current leader.",
     "one commit message; logs of up to 3 (thorough 4) ids")
prop("V04", "The compact log-id index always agrees with the log it stands for",
     "After any append, truncation, purge or reload from storage, looking up the id of a log at any index gives exactly what the log holds there, and nothing where the log holds none. The first and last ids and the last leader's range agree as well.",
     "inputs histories", "every log shape and every operation position",
     "The index stores only leader boundaries; each test covers one layout, an off-by-one shows only for particular boundary alignments.",
     "engine/log_id_list.rs storage/log_reader_ext.rs", "Sorted list of the first id of each leader and the last id, searched by bisection.",
     "one operation on any log of up to 5 ids (reload: 4)")

prop("V05", "The quorum-granted position is exactly what a quorum has reached",
     "For any sequence of progress updates of any nodes, also those that do not go forward, the granted value is the greatest one that a majority of every config of the quorum set has reached; learners never count. Changing the quorum set keeps the progress of every node and re-evaluates the granted value.",
     "inputs histories", "every order and value of updates, and every node that reports them",
     "The incremental sort-and-look-up is exact only for particular orders of updates; random or hand-picked sequences miss the orders where it drifts.",
     "progress/mod.rs quorum/joint_impl.rs quorum/quorum_set_impl.rs",
     "Voters are kept sorted by progress; only moves past the granted value re-evaluate the quorum.",
     "4 updates of 5 voters, or one before and one after a change to a joint config of 3+3; values 0..4")

prop("V06", "Replication to a node always narrows down to its log and never skips any",
     "What is sent next to a node starts between the last log known to match and the first one that cannot; the previous log id sent is the leader's id at that index. Logs to be purged are never sent: a snapshot is sent instead. At most one message is in flight; every answer advances the match or narrows the search, and the match is never lost.",
     "inputs histories", "every replication state, leader log, follower log, purge position, batch size and answer",
     "The search has many alignments of match, conflict, purge and end; tests walk through a few of them.",
     "progress/entry/mod.rs progress/inflight/mod.rs log_id_range.rs",
     "A binary search between the matching log id and the end of what may match.",
     "one message and its answer, from any state (inductive); logs of up to 41 entries by 3 leaders")
prop("V07", "A membership change keeps quorums intersecting and every voter reachable",
     "Voters change directly only between configs of which one belongs to the other, and through a joint config otherwise, so that any quorum before shares a node with any quorum after. No empty voter set and no voter without a node is accepted; addresses of known nodes change only when set explicitly, and nodes are added, kept or removed as asked. A change is refused while the last one is uncommitted.",
     "inputs histories", "every membership, requested change and pair of quorums",
     "Tests pick a few changes; safety is a statement about all pairs of quorums of all memberships.",
     "membership/membership.rs quorum/coherent_impl.rs raft_state/membership_state/change_handler.rs quorum/joint_impl.rs",
     "Next config that is coherent with the present one; validation of the result.",
     "one change; 3 (thorough 4) nodes")
prop("V08", "A quorum is a majority of every config",
     "A set of nodes is a quorum exactly if it holds more than half of the voters of each config of the membership; nodes that are not voters of a config do not count for it, and an empty config never has one.",
     "inputs", "every uniform and joint config and every set of nodes",
     "Counting and early exits go wrong only for particular sizes and overlaps.",
     "quorum/quorum_set_impl.rs quorum/joint_impl.rs quorum/joint.rs", "Counting majority test for sets, lists and joints of them.",
     "5 nodes, joints of two configs")
prop("V16", "Votes, log ids and storage writes are ordered lawfully",
     "Votes are ordered by term, then node, then committed; with one leader per term, two votes of a term for different nodes are comparable only if one is committed, which is then the greater. Log ids are ordered by leader, then index, and storage writes by vote, then log id. The order is transitive, and log leaders are ordered as the votes that elected them.",
     "inputs", "all votes, leader ids, log ids and storage write ids, with and without feature single-term-leader",
     "A partial order's laws quantify over all pairs and triples.",
     "vote/vote.rs vote/leader_id/leader_id_adv.rs vote/leader_id/leader_id_std.rs vote/committed.rs log_id/mod.rs raft_state/io_state/io_id.rs log_id/log_id_option_ext.rs",
     "Comparison of leader ids, overridden by the committed flag.",
     "all values of 8 bits per field; three votes at a time")

prop("V12", "Installing a snapshot replaces exactly what it covers",
     "A snapshot newer than the committed logs is installed after conflicting uncommitted logs are removed and before the logs it covers are purged; logs after it stay only if they follow it. Then its last log is committed, and the effective membership is the last one in the remaining log or else the snapshot's; an older snapshot changes nothing.",
     "inputs histories", "all small local logs, snapshot positions and membership positions",
     "A lost or stale membership after a snapshot needs a rare combination of log, snapshot and membership positions.",
     "engine/handler/following_handler/mod.rs engine/handler/snapshot_handler/mod.rs engine/handler/log_handler/mod.rs raft_state/membership_state/mod.rs engine/log_id_list.rs",
     "install_full_snapshot: truncate, install, purge, update of the memberships.",
     "logs of at most 3 (thorough 4) ids, snapshot positions 0..5, one uncommitted local and one snapshot membership at any index over 5 logs")


prop("V11", "Only logs in a snapshot that no replication reads are purged",
     "Logs are purged only up to the last snapshot, exactly up to where a user asked or the policy (snapshot position, logs to keep, batch size) says, and never moved back. On a leader, logs that a replication to any node is reading are kept until it is done; the purge then catches up. What is left of the log stays readable, and storage is told to purge exactly that.",
     "inputs configurations histories", "all small logs, snapshot, scheduled and purged positions, policies and replications in flight",
     "Whether a purge races a replication depends on positions tests rarely combine.",
     "engine/engine_impl.rs engine/handler/log_handler/mod.rs engine/handler/replication_handler/mod.rs engine/handler/snapshot_handler/mod.rs progress/entry/mod.rs engine/log_id_list.rs",
     "trigger_purge_log, calc_purge_upto, finish_building_snapshot and try_purge_log.",
     "logs of at most 3 (thorough 4) ids; two replications")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = dict(version=1, setup_cmd="python3 -m py_compile check.py && cargo kani --version",
             hooks=dict(guard="cfg(openraft_verif)",
                        enable="RUSTFLAGS='--cfg openraft_verif' and OPENRAFT_VERIF_HARNESS=<harness module>; check.py does this",
                        source_commits=open(os.path.join(V, "hook_commits")).read().split()),
             checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                          thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                          technique="bounded symbolic execution of the real Rust code with Kani/CBMC and a SAT solver",
                          level="other", level_note=BASE + p["_note"] + ". Trusts Kani, CBMC and the collection stand-ins; the assumed invariants are listed in the evidence.")
                     for p in P if p["id"] not in NA],
             not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


main()
