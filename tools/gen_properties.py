#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a generator so that the long texts stay readable."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every reported signature is valid for its message under the group key",
"Whenever a node reports a signing request as successful, it reports exactly one signature per requested message, and the i-th signature verifies for the i-th message under the public key produced by key generation. An ECDSA signature is the 65 bytes r||s||v from which that public key can be recovered; an EdDSA signature is the 64 bytes R||S. All selected nodes report the same signatures, and a signature that does not verify is reported as a failure, never as a success.",
["inputs","schedules","configurations"],"all messages (lengths, leading zero bytes, identical messages in a batch), batch sizes, group sizes and thresholds, with and without stored presigns, every delivery order",
"Engine tests sign one fixed message with a fixed committee in benign order and mostly count callbacks; padding of short r/s (1 in 128 signatures), batch index mix-ups and presign/message pairing need many messages and schedules.",
["core/engine_ecdsa.go","core/engine_eddsa.go","core/engine.go","worker/worker_executor.go","worker/job.go","worker/default_worker.go","utils/crypto.go"],
[("onEcSigningFinished encodes r,s,v","core/engine_ecdsa.go"),("onEdSigningFinished verifies each message","core/engine_eddsa.go"),("job index <-> message index","worker/worker_executor.go"),("hashToInt","worker/job.go")],
observe=["engine callback (signing finished)","heart result posted to the client"])

p("C02","Key generation agrees on one key and persists a share that can sign",
"When a key generation succeeds, every participating node reports the same, valid group public key of the requested key type and has persisted a share that belongs to this key before it reports success. Any threshold+1 of the persisted shares can later produce signatures that verify under the reported key. Distinct key generations yield distinct keys.",
["schedules","inputs","configurations"],"every group size, key type, start delay and message delivery order, including duplicated and delayed messages",
"Existing tests run one keygen with a mocked database and check that it ends; none loads the persisted shares and signs with arbitrary subsets of them, nor varies the schedule.",
["core/engine_ecdsa.go","core/engine_eddsa.go","worker/default_worker.go","worker/worker_executor.go","db/database.go"],
[("saveJobResultData before callback","worker/default_worker.go"),("onEcKeygenFinished/onEdKeygenFinished","core/engine_ecdsa.go, core/engine_eddsa.go"),("saveKeygen/LoadEcKeygen/LoadEdKeygen","db/database.go")])

p("C03","Every accepted request gets exactly one outcome and frees its slot",
"Every request that a node accepts ends, within the configured timeouts, in exactly one report on this node: success, failure or not selected; never none and never two. This holds whatever messages are lost, delayed, duplicated or corrupted and whichever peers never start or stop in the middle. After the report the node's capacity is free again and later requests run; a request that failed because parties were missing or silent can be submitted again, and succeeds once all parties take part.",
["fault_sequences","schedules","crash_points"],"every combination of lost, delayed and duplicated messages, silent or crashed peers and points at which they stop, for all work types and several concurrent works",
"Tests cover two scripted timeouts with one work; the number of reports under partial failure and the leak of worker slots depend on fault timing.",
["core/engine.go","worker/default_worker.go","worker/prework_selection.go","worker/worker_executor.go","worker/job.go"],
[("finishWorker/startNextWork","core/engine.go"),("broadcastResult once","worker/worker_executor.go"),("selection timeouts","worker/prework_selection.go"),("job timeout","worker/job.go")],
state=[("workers","running works","core/engine.go"),("requestQueue","pending requests","core/engine.go")])

p("C04","Works run at most two at a time, by priority, each exactly once",
"A node never runs more than two works at the same time and never runs two works with the same id at the same time. Waiting requests are neither lost nor run twice; a waiting key generation starts before any waiting signing, and requests of the same kind start in the order in which they were submitted. A request whose id is already waiting or running is not executed a second time.",
["schedules","histories"],"all interleavings of concurrent submissions, duplicates and completions, any queue length and mix of kinds",
"There is no test of the queue or of concurrent submissions; the bound and the absence of lost requests are properties of interleavings and of long submit/complete histories.",
["core/engine.go","core/request_queue.go","worker/types/work_request.go"],
[("AddRequest/startNextWork under workLock","core/engine.go"),("AddWork position search","core/request_queue.go"),("GetPriority","worker/types/work_request.go")])

p("C05","Delivered messages suffice: works succeed in any order and start delay",
"If every message between the nodes of a work is eventually delivered, the work succeeds on every selected node, no matter in which order messages arrive, whether some arrive more than once, which other works run at the same time, and, within the timeouts, how long each message is delayed and how late each node starts the work. Messages that arrive before the local node has started a work are kept for it, up to 64 per sender, the newest first kept, and are handed over once; messages of one sender never displace those of another, and messages of one work never reach another work.",
["schedules","histories"],"every delivery order, delay, duplication and start order of the nodes, several concurrent and queued works",
"Tests deliver in sending order with one or two fixed delays and a single work.",
["core/engine.go","core/cache/message_cache.go","worker/default_worker.go","worker/prework_selection.go","worker/worker_executor.go"],
[("prework message cache","core/cache/message_cache.go"),("ProcessNewMessage routing","core/engine.go"),("preExecutionCache handover","worker/default_worker.go")],
state=[("preworkCache","messages of works not started","core/engine.go"),("preExecutionCache","messages before execution","worker/default_worker.go")])

p("C06","Lost protocol messages are detected and recovered",
"When any set of round messages of a running work is lost in transit but the nodes stay connected, the nodes that miss them ask for them, the nodes that hold them answer, and the work succeeds within its timeout. This holds for every round and work type (ECDSA and EdDSA key generation and signing, with or without stored presigns), for broadcast and for unicast messages, and also when all messages of a round are lost. A broadcast message can be recovered from a node other than its author.",
["fault_sequences","schedules"],"every subset of first transmissions dropped, per round, sender and receiver, in every work type",
"One test drops one fixed ECDSA message; EdDSA, unicast, last-round and total loss are not exercised.",
["worker/components/message_monitor.go","core/message/tss_phase_messages.go","worker/worker_executor.go","core/engine.go","core/cache/work_message_cache.go","tools/circular_queue.go"],
[("findMissingMessages","worker/components/message_monitor.go"),("OnMissingMesssageDetected","worker/worker_executor.go"),("OnAskMessage","core/engine.go"),("message lists per work type","core/message/tss_phase_messages.go")])

p("C07","Private protocol messages reach only their addressee",
"A protocol message that is meant for a single party is transmitted to that party only: no node sends it to any other peer, neither when it is first sent nor in answer to any request, whatever a peer asks for. A node answers a request only towards the party that signed the request, and a private message from another party is never stored for being passed on.",
["inputs","histories","schedules"],"every request a peer can form (own, foreign, made-up message keys, any claimed sender) at every moment of a work",
"No test sends a hostile request; the guarantee quantifies over all requests and all moments.",
["core/engine.go","core/cache/work_message_cache.go","worker/worker_executor.go","types/common/tss_message.go"],
[("OnAskMessage addressee check","core/engine.go"),("only broadcast messages of others are cached","core/engine.go"),("OnJobMessage unicast/broadcast choice","worker/worker_executor.go")])

p("C08","No message content can crash a node or stop other works",
"Whatever bytes a peer sends, well-signed or not, in whatever order and amount, a node neither crashes nor blocks: it keeps processing messages, and every work that does not depend on the hostile peer still succeeds. A message that cannot be parsed has no effect on a work whose honest messages are delivered.",
["inputs","histories"],"all byte strings and all structurally mutated messages (missing parts, wrong types, wrong counts, unknown works and senders, floods) at every stage of a work",
"No test feeds malformed input; a single unchecked nil or index is enough to crash the process.",
["core/engine.go","worker/default_worker.go","worker/prework_selection.go","worker/worker_executor.go","types/common/tss_message.go","core/cache/message_cache.go"],
[("nil and length checks","core/engine.go, worker/*.go"),("non-blocking selection channels","worker/prework_selection.go")])

p("C09","Only messages signed by their author for this node have any effect",
"A node acts on a message only if it carries a valid signature of the party it claims to be from, over exactly its content, and it is addressed to this node or to everyone. A message that is unsigned, signed with another key, altered after signing, attributed to another party, from an unknown party, or addressed to somebody else changes nothing: the node behaves as if it had never arrived. A message relayed unchanged by a third known party is still accepted.",
["inputs","histories","fault_sequences"],"every forgery, alteration, impersonation and misdelivery of every message type at every stage",
"No test contains a forged message.",
["core/engine.go","core/signer/signer.go","core/node.go"],
[("verifySignedMessage","core/engine.go"),("getSignedMessageBytes","core/engine.go")])

p("C10","Committee selection is agreed, correct in size and led by one leader",
"All nodes derive the same leader for a work id and set of parties, in whatever order the parties are listed, and leadership varies with the work id. Every node that takes part in a work takes part in the same committee: distinct parties of the request, all of them for a key generation and threshold+1 for a signing, always including the leader; the other nodes report that they were not selected. A selection that is announced by anybody but the leader, or that has unknown, repeated or too few parties, is not followed.",
["inputs","schedules","fault_sequences"],"all party lists, orders and work ids; all response orders, late and missing responses, and all announcements that a peer can make",
"Tests cover three scripted selections with mocks.",
["worker/prework_selection.go","worker/available_parties.go","core/engine.go","worker/types/work_request.go"],
[("ChooseLeader","worker/prework_selection.go"),("validateLeaderSelection","worker/prework_selection.go"),("checkEnoughParticipants/getPartyList","worker/prework_selection.go, worker/available_parties.go"),("GetMinPartyCount","worker/types/work_request.go")])

p("C11","A presign is never used twice",
"A stored presign is handed out for at most one signing, ever: not twice by concurrent requests, not again after a restart, and not again on a member because a leader names it again. A hand-out contains exactly the requested number of distinct presigns of one and the same party set, all of whose parties are available, or nothing at all; what is handed out is marked as used in the database before it is used.",
["schedules","histories","crash_points","fault_sequences"],"all interleavings of concurrent hand-outs and additions, restarts at any point, failing database updates, repeated announcements by leaders",
"Tests call the manager three times sequentially with a mocked database.",
["core/components/available_presign_manager.go","db/database.go","worker/prework_selection.go","worker/default_worker.go"],
[("GetAvailablePresigns consume under lock","core/components/available_presign_manager.go"),("UpdatePresignStatus conditional update","db/database.go"),("memberFinalized marks presigns","worker/prework_selection.go")],
state=[("available","unused presigns by party set","core/components/available_presign_manager.go"),("presign.status","not_used/used","db")])

p("C12","What is stored is what is loaded",
"Everything that a node saves in its database (pre-parameters, key shares of both types, presign batches, peers) is loaded back unchanged and complete, under the key type, work and identifiers it was saved for and never under others. Loading several presigns or their states returns them in the order of the request; something that was never saved is reported as missing. Data stays available for the lifetime of the database, under concurrent use.",
["inputs","histories","schedules"],"all contents, batch sizes, orders of identifiers, repetitions and concurrent access",
"Tests save and load one record each.",
["db/database.go","db/migrations.go"],
[("Save*/Load*","db/database.go"),("migrations","db/migrations.go")])

p("C13","Encrypted data is confidential, authenticated and round-trips",
"A value that is encrypted or stored encrypted is returned unchanged under the same key, and is returned under no other key. Any alteration or truncation of the ciphertext, down to a single bit and to the empty string, is reported as an error and never yields data or a crash. The stored bytes do not contain the plaintext, and encrypting the same value twice gives different bytes.",
["inputs","fault_sequences"],"all keys, values (including empty and large ones), and all alterations and truncations of the ciphertext",
"Tests encrypt one text and decrypt it.",
["utils/crypto.go","store/store.go"],
[("AES-GCM with random nonce","utils/crypto.go, store/store.go"),("length check before nonce split","utils/crypto.go, store/store.go")])

p("C14","The transport delivers each payload whole, once and to the right protocol",
"Every payload up to the maximum size that is sent successfully to a connected peer is delivered there exactly once, byte for byte, on the protocol it was sent for and with the sender's identity, whatever its size, how many are sent concurrently, and how the bytes are split or merged on the wire. A payload that no node would accept is refused when it is sent and does not disturb other payloads. After a connection breaks, a peer restarts or a peer stalls, sending to it and to other peers works again without a restart of the node.",
["inputs","schedules","fault_sequences"],"all payload sizes up to and beyond the limit, fragmentations, concurrent senders, disconnects and stalls",
"No test of the p2p package runs in the suite.",
["p2p/connection.go","p2p/connection_manager.go","p2p/helper.go"],
[("length-prefixed framing","p2p/helper.go"),("stream lock, reset on error","p2p/connection.go"),("listener lookup per protocol","p2p/connection_manager.go")])

p("C15","No data races and no deadlocks",
"Under any use of a node by its clients and peers, no two goroutines of the node access the same memory without synchronisation when one of them writes, and no goroutine waits forever for a lock or for another goroutine. In particular, a node under concurrent submissions, messages, queries and completions keeps making progress.",
["schedules"],"all interleavings of client calls, network messages, timers and completions",
"The suite is not run with a race detector and is nearly sequential.",
["core/engine.go","core/heart.go","core/cache/message_cache.go","core/components/available_presign_manager.go","worker/*.go","p2p/*.go","server/single_node_api.go","client/client.go"],
[("workLock, nodeLock","core/engine.go"),("heart lock","core/heart.go"),("connection locks","p2p/connection.go, p2p/connection_manager.go")])

p("C16","The node API answers requests only when ready and echoes each request",
"Before the private key is set and Sisu has declared itself ready, and again after it has declared itself not ready, key generation and signing are refused. The private key can be set once: the same key again is accepted, another one is refused, and a key that cannot be used is refused and can be followed by a good one. A request that is invalid (unknown key type, bad public keys, nothing to sign, no such key generated) is refused with an error, no call makes the API crash, and every result that is posted carries the request it belongs to and the key type it was made for.",
["inputs","histories","schedules"],"all sequences and interleavings of API calls and all argument values",
"The heart and the server have no tests in the suite.",
["core/heart.go","server/tss_api.go"],
[("ready state","core/heart.go"),("SetPrivKey","core/heart.go"),("keysignRequests","core/heart.go"),("getPubkeysFromWrapper","server/tss_api.go")])

p("C17","Nodes agree on the identity of a signing request",
"Two nodes that are given the same signing request treat it as the same work, whatever the order of the public keys, while requests that differ in their messages (other, more, fewer or reordered ones) are different works. The same holds for the work id that is derived from transactions, block and chain.",
["inputs"],"all message ids, numbers of messages, permutations, blocks and chains",
"No test computes a work id twice.",
["core/heart.go","core/engine_utils.go","utils/misc.go"],
[("work id chain hash","core/heart.go"),("GetKeysignWorkId","core/engine_utils.go"),("KeccakHash32","utils")])

p("C18","Blame lists exactly the parties that misbehaved or stayed silent",
"For a work and round, the blamed parties are exactly those parties of the work that did not send a message in this round or were reported as faulty in it, each listed once. Messages and reports of other works and rounds, and of parties outside of the work, do not matter, and a report never disappears. Parties reported before execution are all remembered.",
["inputs","histories","schedules"],"all sequences and interleavings of senders and reports over works, rounds and parties",
"One test with one sender and one culprit.",
["blame/manager.go"],[("AddSender/AddCulpritByRound/GetRoundCulprits","blame/manager.go")])

p("C19","Message caches keep the newest entries of each sender",
"A bounded queue returns for every key the newest value added under it among its last additions, exactly as many as its capacity, and nothing for others. The cache of work messages behaves like this for each sender separately, with room for more of the node's own messages, so that messages of one sender never displace those of another.",
["inputs","histories","schedules"],"all sequences and interleavings of additions and lookups, repeated keys, wrap-arounds, capacities",
"The tests add six distinct keys.",
["tools/circular_queue.go","core/cache/work_message_cache.go"],
[("Add evicts oldest","tools/circular_queue.go"),("per-sender queues","core/cache/work_message_cache.go")])

p("C20","Two thirds of the nodes suffice and are needed to sign",
"For every group of n nodes, the number of nodes that sign is the smallest one that is at least two thirds of n; it never exceeds n. With that many nodes online, among them the leader of the work, a signing of either kind succeeds with the default settings of the node, and with fewer it fails on every node that takes part.",
["configurations","fault_sequences"],"all group sizes and all subsets of nodes that are online",
"The threshold function has no test, and no test leaves nodes offline with default timeouts.",
["utils/misc.go","worker/prework_selection.go","core/config/timeout.go","core/heart.go"],
[("GetThreshold","utils"),("leader timeout fallback","worker/prework_selection.go"),("default timeouts","core/config/timeout.go")])

p("C21","Protocol messages are classified and identified consistently",
"Every protocol message type that a work produces is known to the node: its round increases with the order of the protocol, it is in the list of messages that its work type expects from each peer, in sending order, and it is known as a broadcast exactly if it is sent to everyone. The key of a message determines work, sender, receiver and type, whatever characters the work id contains, and different messages have different keys.",
["inputs","histories"],"all message types of all work types and all work ids, senders and receivers",
"No test compares the tables with the messages that the protocol library really produces.",
["core/message/tss_phase_messages.go","types/common/tss_message.go","worker/job.go"],
[("GetMsgRound, GetMessagesByWorkType, IsBroadcastMessage, GetMessageCountByWorkType","core/message/tss_phase_messages.go"),("GetMessageKey/ExtractMessageKey","types/common/tss_message.go")])

p("C22","The single-node mode signs with the key it has announced",
"In single-node mode a key generation posts one success with a public key of the requested type, and a signing posts the request with one signature per message, in order, each valid under the last announced key of that type. Unknown key types and signing without a key are refused, without a crash and without a posted success.",
["inputs","histories","schedules"],"all sequences and interleavings of key generations and signings of both types",
"The single-node API has no test in the suite.",
["server/single_node_api.go"],[("KeyGen/KeySign","server/single_node_api.go")])

p("C23","A written configuration is read back as it was",
"A configuration that is written to a file can be read, and has the same home directory, modes, Sisu server address, port, database host, port, user, password and schema, and peers, whatever characters these values contain. A file that cannot be parsed is reported as an error.",
["inputs","configurations"],"all values of all written settings, any number of peers",
"No test writes a configuration.",
["core/config/toml.go","core/config/config.go"],[("template with quoted values","core/config/toml.go"),("ReadConfig","core/config/config.go")])

p("C24","Results are posted faithfully and posting never crashes the node",
"Every key generation and signing result that is posted while Sisu is connected arrives there exactly once with all of its content, on the call that belongs to its kind. Posting such a result while Sisu is not connected, or to a server that fails, returns an error; it neither crashes nor pretends success. A client that starts before Sisu connects as soon as Sisu is reachable.",
["inputs","fault_sequences","schedules"],"all results, concurrent postings, server unavailable, failing or restarted at any point",
"The client has no tests.",
["client/client.go","types/*.go"],[("Post*Result","client/client.go"),("TryDial","client/client.go")])

p("C25","Node identities are canonical",
"The identity of a node is a function of its public key alone and agrees with the identity under which the network layer knows its peer; different keys have different identities. A group of nodes is listed in the same order by everyone, whatever the order of the keys, consistent with the order of its parties. A key that is not supported or malformed yields an error and no identity.",
["inputs"],"all public keys of both types, malformed keys, all permutations of a group",
"Only used implicitly by tests with a fixed list of keys.",
["core/node.go","utils/crypto.go","p2p/connection_manager.go"],[("NewNode/NewNodes","core/node.go"),("GetCosmosPubKey","utils")])

p("C26","A restarted node resumes with what it had",
"A node that is stopped or killed at any moment and started again on the same database comes up with what it had: its pre-parameters are those from before and are not generated again, its key shares are those of the keys that it reported, and all presigns that were not used are available again. Once it has its private key and Sisu is ready, it takes part in signings under the keys that were generated before, together with the nodes that kept running and without their restart; the first message to it after its restart arrives.",
["crash_points","histories","inputs"],"all moments at which any set of nodes is killed, during any call, and all contents of the database",
"No test starts the program, kills it and starts it again.",
["core/heart.go","db/database.go","core/components/available_presign_manager.go","p2p/connection.go","run/run.go"],
[("Start, loadPeers","core/heart.go"),("Load","core/components/available_presign_manager.go"),("LoadPreparams, LoadEcKeygen, LoadEdKeygen","db/database.go"),("writeToStream","p2p/connection.go")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
