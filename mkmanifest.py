#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand)."""
import json
T="deterministic simulation with fault injection: seeded search over traffic, segmentation, write/poll schedules and faults; "
N={
"S01":("the recorded outcomes of each connection are compared with the whole stream decoded at once and with each frame decoded alone",),
"S02":("every request for more is judged against the bytes really missing; a reader that supplies exactly the bytes asked for must get the outcome within six requests",),
"S03":("after every decode the input must have lost exactly that frame, or nothing for unframed refusals; neighbours are re-decoded alone",),
"S04":("receivers with drawn limits meet announced lengths around them, up to 268435455, with any number of body bytes present",),
"S05":("a reader peeks at the header, more bytes arrive, then splits the frame and uses the typed reader; compared with read",),
"C01":("several connections of both versions in one process under one schedule; each is replayed alone and its history compared; kept packets are re-checked after buffers are reused",),
"E01":("two endpoints on the real codec, resets at any byte; delivered packets must be a prefix of those sent, equal and in order",),
"E02":("two endpoints on the real codec, resets at any byte; delivered packets must be a prefix of those sent, equal and in order",),
"E03":("every encode into a shared, partly flushed buffer is checked against a copy of it and a reference framer",),
"E04":("unsendable packets are mixed into pipelined traffic; each must be refused and leave the buffer as it was",),
"H01":("hostile, damaged and corrupted streams while the system-call seam records or fails every call the library makes; panics, aborts and non-return are caught",),
"H02":("allocation is counted by the allocator seam per decode call and bounded by the bytes received",),
"H03":("each complete frame is judged by an independent strict reference decoder",),
"H04":("chains of relays re-encode whatever they accepted; the next hop must decode the same packet",),
"I01":("a reference encoder plays the peer, using every allowed encoding; the decoded values must be the reference's",),
"I02":("a strict reference decoder plays the receiving peer",),
"Q01":("clients and a broker run QoS 1/2 sessions over the real codec with resets, restarts, stalls and spurious resends; delivery counts and bounded progress after faults stop are checked",),
"R01":("clients of both versions subscribe, unsubscribe, publish and fail around a broker whose state machine runs twice in step, once on decoded packets and the library's topic functions, once on what was sent and reference rules; every action and every packet at a client is compared",),
"R02":("the same twin broker with settings, timers, wills, takeovers, silence and restarts in simulated time; every action, expiry and packet at a client is compared",),
"V01":("one port serves both versions: the first packet decides, the connection continues with the matching decoder; 3.1.1 CONNECTs built from the MQTT 5 types are judged by the reference layout",),
}
note="Seeded sampling, not proof: holds on every run explored. Trusts the harness's reference codec (sim/src/refcodec.rs), the simulated in-order byte pipes standing for TCP, and one build configuration (x86_64, release with debug assertions and overflow checks). All of the library runs unmodified."
checks=[]
for k,(what,) in N.items():
    checks.append({"property":k,"quick_cmd":f"bash check.sh {k} quick","thorough_cmd":f"bash check.sh {k} thorough","evidence_file":f"evidence/{k}.json","technique":T+what,"level":"exploration","level_note":note})
m={"version":1,"setup_cmd":"bash check.sh --build","checks":checks,
"not_applicable":[
 {"property":"T01","reason":"matches() is a pure function of two strings, called once with everything it needs: no schedule, time, I/O, fault or second party can change its answer, so a simulator has nothing to decide. (That matching texts from accepted packets never panics is part of H01, and that a broker asking the library about topics routes by these rules through any history is R01.)"},
 {"property":"T02","reason":"valid_filter, valid_topic and has_wildcards are pure functions of one string; the same reason as T01, and R01 again uses them at system level."}],
"notes":"No hooks in /repo: the library takes its input and output as buffers, so every seam is outside it; allocation and system calls are intercepted at link level by the simulator binary. Findings: KNOWN_FINDINGS. Replay a violation with 'bash check.sh --replay <file>'."}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write("\n")
