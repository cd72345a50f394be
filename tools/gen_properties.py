#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
S="manul/src/session/"; P="manul/src/protocol/"; D="manul/src/dev/"; C="manul/src/combinators/"; U="manul/src/utils/"
props=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    props.append(d)

prop("C01","Only authentic messages bound to their session, round, kind and sender count",
 "A node hands a message part to the protocol only if the party the message came from signed exactly that content, as that kind of part (direct message, echoed broadcast or normal broadcast), in that session and for that round. "
 "A message that was altered, spliced from several messages, replayed from another session or round, re-labelled as another kind or attributed to another party is never processed and is recorded as an error of the party it came from (or set aside unprocessed if its authentic round is one that may legitimately be active elsewhere). "
 "The same goes for a message that lacks a part the round declares, or carries one it does not declare. "
 "Session identifiers are equal for equal seeds and differ for different seeds.",
 ["inputs","histories","fault_sequences"],
 "Every single- and multi-field alteration and every recombination of genuinely signed material (across parts, rounds, sessions, senders, destinations, signature encodings), delivered at any point of an execution.",
 "The existing tests never deliver an altered, replayed or spliced message, and the test signature scheme does not even bind the content.",
 [S+"message.rs",S+"session.rs",P+"message.rs"],
 [("digest over session, round, kind and content","SignedMessagePart / message_digest in "+S+"message.rs"),("metadata unification across parts","Message::unify_metadata"),("session/round checks","Session::preprocess_message"),("kind-separated hash","ProtocolMessagePartHashable in "+P+"message.rs")],
 ["Round::receive_message (what the protocol is handed)","SessionReport.unprovable_errors"])

prop("C02","Each expected message is processed exactly once and reaches finalization",
 "When a round is finalized, the protocol receives exactly one payload per party it expected a message from, namely the one it computed from the first valid message of that party for that round, and exactly one artifact per destination it sent to, namely the one created together with the message sent there. "
 "No further message from the same party for the same round, whatever its content and whenever it arrives (before, during or after processing, or before the round started), is processed or replaces the first. ",
 ["schedules","histories","inputs"],
 "All interleavings of sending, receiving, processing and recording results, with duplicated and conflicting messages arriving early, concurrently or late.",
 "Existing tests deliver every message once and only check the final result of two small protocols.",
 [S+"session.rs",P+"dyn_round.rs",S+"echo.rs"],
 [("duplicate guards","RoundAccumulator::{message_is_being_processed,message_is_cached,mark_processing}"),("payload and artifact stores","RoundAccumulator::{add_processed_message,add_artifact}"),("carry-over across the echo stage","EchoRound::{payloads,artifacts}")],
 ["Round::receive_message","Round::finalize arguments"],
 [("payloads / artifacts","per-round results keyed by party",S+"session.rs")])

prop("C03","Any delivery order yields the same, complete outcome among honest parties",
 "If all parties are honest and every message is eventually delivered once, then whatever the order and delay of deliveries and of local processing, every party finishes with exactly the result its protocol determines from the exchanged content, and reports no errors and no missing messages. "
 "This includes messages that arrive before the receiver has reached the round they belong to, rounds in which parties have different communication partners or echo roles, and protocols whose parties take different branches, as long as no party gets more than one round ahead of a party it sends to.",
 ["schedules","configurations","programs"],
 "All delivery and processing orders, 1..n parties, all combinations of message kinds, communication topologies and echo roles, branching protocols.",
 "Existing tests run a handful of random orders on all-to-all two-round protocols plus one partial-echo example with three rounds of checks.",
 [S+"session.rs",S+"echo.rs",P+"round_id.rs",P+"round.rs"],
 [("caching of early messages","Session::preprocess_message / RoundAccumulator::cache_message / filter_messages"),("simultaneously active rounds","TransitionInfo::simultaneous_rounds"),("readiness test","RoundAccumulator::can_finalize")],
 ["SessionReport","Round::receive_message","Round::finalize"])

prop("C04","Echoed broadcasts are consistent and equivocation is always caught",
 "If two honest parties that exchange echoes in a round both get past that round's echo stage, they used the same content for the echoed broadcast of every party both of them received one from. "
 "If a party gives two such honest parties different echoed broadcasts in the same round, or relays an echo that is missing, superfluous, altered or taken from another round or session, no honest party that receives the conflicting or faulty echoes gets past that stage, and its report contains an error against the party at fault.",
 ["inputs","schedules","fault_sequences","configurations"],
 "All equivocation patterns (any subset of receivers, any round, both all-to-all and partial echo roles), all faulty echo packs, any delivery order.",
 "One existing test covers a fixed partial-echo setup; equivocation is exercised for no schedule and no topology.",
 [S+"echo.rs",S+"session.rs",S+"message.rs"],
 [("echo comparison","EchoRound::receive_message"),("echo pack construction","EchoRound::make_normal_broadcast"),("expected echoes","Session::new_for_next_round (EchoRoundInfo)")],
 ["Round::finalize payloads of pairs of honest parties","SessionReport errors"])

prop("C05","An honest party is never reported for misbehavior",
 "No report of an honest party contains a provable or unprovable error against another honest party, whatever the remaining parties send and in whatever order messages arrive, provided the transport attributes messages to their true senders and delivers each honest message at most once, unmodified. "
 "Every provable error is filed under the very party its evidence declares guilty.",
 ["inputs","schedules","fault_sequences"],
 "All behaviours of the misbehaving parties (signed or unsigned, content-level, framing attempts reusing honest signatures), all schedules.",
 "Existing tests check reports only for four scripted misbehaviours under one order.",
 [S+"session.rs",S+"echo.rs",S+"evidence.rs"],
 [("error attribution","RoundAccumulator::add_processed_message, Session::preprocess_message"),("echo fault attribution","EchoRound::receive_message, Evidence::new_echo_round_error")],
 ["SessionReport.provable_errors","SessionReport.unprovable_errors"])

prop("C06","Every reported evidence can be verified by a third party",
 "Every piece of evidence that appears in a report verifies successfully against the protocol's shared data, both directly and after being serialized, transferred and deserialized, and keeps its guilty party and description. "
 "While verifying a protocol-specific error, the protocol is shown the round, the guilty party, the session's shared randomness and every message part the error asked for, with exactly the content the guilty party (or, for combined echoes, each echoed party) had signed.",
 ["inputs","histories","configurations","fault_sequences"],
 "All kinds of provable misbehaviour (undecodable or superfluous parts of each kind, protocol errors with any selection of required earlier messages, faulty echoes, equivocation), all rounds, formats and schedules, plain and chained protocols.",
 "Existing tests verify evidence in memory only, for three scripted errors of one protocol, never after serialization.",
 [S+"evidence.rs",P+"evidence.rs",P+"dyn_evidence.rs",P+"round_info.rs",S+"transcript.rs",C+"chain.rs"],
 [("evidence assembly","Evidence::new_provable_error and siblings"),("evidence verification","Evidence::verify"),("message lookup","EvidenceMessages accessors"),("round lookup","Protocol::round_info / RoundInfo")],
 ["Evidence::verify result","ProtocolError::verify_evidence arguments"])

prop("C07","Evidence against a party that did not misbehave is always rejected",
 "No evidence assembled from anything an honest party signed while running the protocol, combined with arbitrary other data (altered, relabelled, reordered, omitted or taken from other rounds, sessions, parties or evidence), verifies against that party. "
 "Verification of malformed or inconsistent evidence ends with a rejection, never with a crash.",
 ["inputs","histories"],
 "All recombinations and mutations of honest signed parts, echo packs and genuine evidence of every kind; several sessions and parties.",
 "No existing test presents invalid evidence to the verifier, except two for missing parts.",
 [S+"evidence.rs",S+"echo.rs",S+"message.rs",P+"round_info.rs",P+"evidence.rs"],
 [("per-kind evidence checks","*Evidence::verify in "+S+"evidence.rs"),("echo fault checks","InvalidEchoError::verify_evidence, MismatchedBroadcastsError::verify_evidence"),("signature and metadata checks","verify_message_part(s)")],
 ["Evidence::verify result","panics"])

prop("C08","Remote input can neither crash nor abort an honest party",
 "Whatever remote parties send (malformed bytes, wrongly signed or validly signed but meaningless messages, messages from parties not expected in the round or not taking part at all, duplicates, floods, messages at unexpected times), processing it never panics and never ends the honest party's execution with a local error. "
 "The only effects are entries against the sender in the report and, at most, the round becoming impossible to finalize for lack of a valid message from that sender.",
 ["inputs","schedules","fault_sequences"],
 "All message contents and histories a remote party can produce, with valid or invalid signatures, any schedule, any of the execution drivers.",
 "Existing tests send no hostile messages beyond four scripted content errors.",
 [S+"session.rs",S+"echo.rs",S+"message.rs",P+"dyn_round.rs",P+"message.rs"],
 [("preliminary checks","Session::preprocess_message"),("decoding errors become remote errors","BoxedReceiveError conversions"),("result recording","RoundAccumulator::add_processed_message")],
 ["Result<_, LocalError> of every session call","panics"])

prop("C09","Once a party is found at fault, nothing it sends later has any effect",
 "From the moment an error against a party has been recorded, no message from it that is delivered afterwards, and no message from it that was set aside for a later round, is ever processed; this lasts for the rest of the session, across rounds and echo stages. "
 "Its errors stay in the final report, each unchanged, and repeated misbehavior neither replaces them nor disturbs the execution.",
 ["histories","schedules","fault_sequences"],
 "All sequences of faulty and valid messages from the same party, across rounds and echo stages, including messages received early.",
 "No existing test sends anything after a fault.",
 [S+"session.rs",S+"transcript.rs"],
 [("ban check","Transcript::is_banned, RoundAccumulator::is_banned"),("filtering of cached messages","Session::finalize_round")],
 ["Round::receive_message after the fault","SessionReport"])

prop("C10","Finalizability verdicts and the final report are accurate",
 "A round is declared ready exactly when a valid message from every expected party has been processed, hopeless exactly when that can no longer happen because every party still lacking one has already failed or been found at fault, and pending otherwise. "
 "The report's outcome is the protocol's result if it produced one, \"not enough messages\" if the session was ended because the round was hopeless, and \"terminated\" if ended by the user; the missing-messages entry of each executed round lists every expected party that sent nothing and none whose message was processed. The textual description of the report names the outcome, every party reported and what for.",
 ["histories","schedules","fault_sequences"],
 "All combinations of silent, failing, banned and valid parties, in any order, for main and echo stages, terminated at any point.",
 "Existing tests only look at executions which finish normally.",
 [S+"session.rs",S+"transcript.rs"],
 [("verdict","RoundAccumulator::can_finalize"),("termination","Session::{terminate,terminate_due_to_errors,terminate_inner}"),("missing messages bookkeeping","Transcript::update")],
 ["Session::can_finalize","SessionReport"])

prop("C11","The asynchronous runners execute sessions faithfully and always terminate",
 "A session driven by either asynchronous runner, for any number of parties, channel capacities, task scheduling and timing, sends exactly the messages the session produces, gives the result the protocol determines, and returns as soon as the session is finished or hopeless. "
 "On cancellation, once the messages it still has to send are taken, it returns promptly with a \"terminated\" report containing what was recorded; when the incoming or outgoing channel is closed before the session is complete, or local message creation fails, it returns an error; it never deadlocks or loses outgoing messages.",
 ["schedules","configurations","fault_sequences"],
 "Task interleavings, 1 to several hundred parties, channel capacities from 1, delays, cancellation and channel closure at any time, failing message creation.",
 "Two existing tests run three parties to completion; nothing is cancelled, closed, slow, or larger than an internal queue.",
 [S+"tokio.rs",D+"tokio.rs"],
 [("sequential runner","run_session"),("parallel runner","par_run_session"),("in-process network","dev::tokio::run_async")],
 ["runner return value","messages on the outgoing channel","thread states"])

prop("C12","Chaining protocols is equivalent to running them one after the other",
 "Executing a chain of two protocols gives every party the result that the second protocol yields when started from the first one's result, with both protocols seeing the same party identity and shared randomness and their own round numbering, also when chains are nested. "
 "Messages of the two halves are never confused, even when their rounds have equal numbers, and misbehavior in either half is reported with evidence that verifies exactly as it would for that half alone.",
 ["programs","schedules","inputs"],
 "Pairs and nestings of protocols with arbitrary round structures (echo stages, branches, early finish), all schedules, misbehaviour in each half.",
 "One existing test runs one chain of the same protocol twice, without echo misbehaviour, nesting or evidence.",
 [C+"chain.rs",P+"round_id.rs"],
 [("round wrapping","ChainedRound"),("round id grouping","RoundId::{group_under,split_group}, TransitionInfo::group_under"),("evidence routing","RoundInfo1, RoundInfo2, BoxedReceiveError::group_under")],
 ["SessionReport","arguments seen by the inner protocols","Evidence::verify"])

prop("C13","The misbehavior-testing toolkit is transparent and its verdicts are right",
 "Extending a protocol changes only the overridden methods of the targeted round types: with no overrides an extended execution produces the same messages and results as the plain one, and every other round and evidence check is unaffected. "
 "The evidence-checking helper accepts an execution exactly when each other party's report has exactly one provable error, it is against the misbehaving party, has the expected description and verifies; and the synchronous runner finishes any protocol, delivering every message exactly once, in order per sender.",
 ["programs","inputs","schedules"],
 "Protocols of all shapes (including ones which exchange no messages), any subset of overridden rounds and methods, true and false expectations.",
 "Existing tests only use the toolkit in cases where it should accept.",
 [D+"extend.rs",D+"misbehave.rs",D+"run_sync.rs",P+"dyn_round.rs"],
 [("extension wrapping","ExtendedRound, PassthroughRound, wrap_round"),("verdict","check_evidence"),("runner","run_sync")],
 ["messages and results of extended vs plain executions","check_evidence result"])

prop("C14","Messages and evidence survive serialization; malformed data is rejected",
 "Serializing and deserializing a message or an evidence object in any supported format yields an equivalent object: it is accepted, verified and re-serialized identically to the original. "
 "Decoding arbitrary, truncated or corrupted bytes returns either an error or a well-formed object and never crashes, and maps with duplicate keys are rejected rather than silently merged.",
 ["inputs"],
 "All messages and evidence occurring in executions; all byte strings (random, truncated, mutated from valid ones); binary and human-readable formats.",
 "Existing tests cover the map type on a few literals and never serialize messages or evidence.",
 [S+"message.rs",S+"evidence.rs",U+"serializable_map.rs",P+"wire_format.rs",D+"wire_format.rs"],
 [("serde derives","Message, Evidence"),("map encoding with duplicate detection","SerializableMap"),("format bridge","BoxedFormat")],
 ["serialized bytes","preprocess/verify results of decoded objects"])

prop("C15","No undefined behavior, memory errors or data races",
 "Driving sessions through the public API, sequentially or with messages created and processed in parallel tasks, with or without round extensions and evidence verification, executes no undefined behavior, leaks no memory and contains no data race.",
 ["programs","schedules","inputs"],
 "All uses of the typed/dynamic round conversions, placeholder messages, payload/artifact conversions and shared-session parallelism.",
 "Tests run without an interpreter or race detector and would not notice type confusion or a race.",
 [P+"round.rs",P+"dyn_round.rs",S+"tokio.rs",U+"type_id.rs"],
 [("checked downcasts","NoType::new_if_equals, BoxedTypedRound::try_downcast"),("shared session","par_run_session")],
 ["Miri","ThreadSanitizer"])

prop("C16","Broadcasts are identical for all receivers; randomness is never reused",
 "Within a round, a party sends the same broadcast content and signatures to all its destinations, the broadcasts and each destination's direct message are created exactly once, and nothing is created or sent for a round in which the party has no destinations. "
 "Parallel message creation draws independent randomness for every destination and message, so no two direct messages or signatures share their random values.",
 ["schedules","configurations","programs"],
 "All message-kind combinations and topologies, sequential and parallel runners.",
 "Existing tests do not inspect the messages sent.",
 [S+"session.rs",S+"tokio.rs",P+"rng.rs"],
 [("broadcasts signed once","Session::new_for_next_round"),("forked generators","par_run_session")],
 ["outgoing messages","Round::make_* calls"])

prop("C17","Protocol implementation mistakes surface as local errors",
 "If a protocol implementation hands over to a round that the current one did not declare as a successor, omits the creation of a message kind it declared, fails in any of its methods, or has its creation of artifacts or results misused, the affected party's execution ends with a local error instead of a panic, a silently wrong message or a wrong transition. "
 "Such a local failure never creates an error entry against any remote party.",
 ["programs","fault_sequences"],
 "Every method and round position in which an implementation can fail or deviate, in main rounds, echo rounds and chained protocols.",
 "Existing tests never make a protocol fail locally.",
 [S+"session.rs",P+"round.rs",P+"dyn_round.rs"],
 [("successor check","Session::finalize_round"),("default methods","Round::make_*"),("error propagation","BoxedReceiveError::Local")],
 ["Result of session calls","messages produced"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in props:
        p["statement"]=p["statement"].strip()
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
