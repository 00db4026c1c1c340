"""Source of properties.jsonl and MANIFEST.json (python3 tools/meta/gen.py)."""

PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, quant, why, files, mech, note, technique="stateless model checking of the real code under a controlled scheduler", observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, note=note, technique=technique, observe=observe or []))


SEQ = "exhaustive enumeration of operation sequences on the real code against a reference model"
INP = "bounded-exhaustive enumeration of inputs and fault sequences on the real code against a reference model"
SCH = "stateless model checking: all interleavings of the real code up to a preemption bound, controlled scheduler"

P("C01", "Ring ownership is a pure, minimal-disruption function of the member set",
  "For any member set, virtual-node count and replication factor, looking up a key returns exactly min(replication, members) distinct current members, the clockwise successors of the key on a ring of xxhash virtual-node positions; the answer depends only on the set of members, not on the order or history in which the ring was built, nor on what callers do to returned or passed-in data. Adding a node changes the owners only of keys the new node now owns, keeping the old owners' relative order. A lookup concurrent with ring rebuilds returns the owners of one complete ring and never an older ring than one already observed; non-positive options fall back to the defaults (64 virtual nodes, replication 1).",
  ["inputs", "configurations", "schedules"],
  "all subsets of a 7-node universe, vnode counts 1..300, replication 1..8, hundreds of keys including exact virtual-node hits, three build orders; all schedules of a rebuilder against two readers up to 4 preemptions",
  "Tests look up a handful of keys on one or two fixed rings; ownership must agree on every node for every membership and every key.",
  ["internal/cluster/ring.go"], [("copy-on-write snapshot of sorted vnode hashes", "internal/cluster/ring.go")],
  "Exhaustive inside the bounds; the reference ring is written independently (sorted slice, linear walk). Keys are a finite sample of the key space chosen to hit every arc incl. boundaries.",
  INP + "; " + SCH, ["cluster.Ring.Lookup"])

P("C02", "The ring always reflects the membership once membership changes return",
  "After any sequence or concurrent combination of membership changes (insert/update, mark state, refute, remove) has returned, the ownership ring equals the ring built from exactly the non-dead members of the membership. While unrelated members change, keys keep being served by a full set of live owners.",
  ["schedules", "histories"],
  "every sequence of membership operations up to length 4 over 3 nodes and states; all interleavings of 2-3 threads of operations up to the preemption bound",
  "Tests exercise single membership operations sequentially; a lost ring update needs two concurrent changes or a state change through a rarely used path.",
  ["internal/cluster/membership.go", "internal/cluster/ring.go"], [("ring rebuild inside every mutator", "internal/cluster/membership.go")],
  "All interleavings at synchronisation operations up to the preemption bound stated in the evidence.", SCH + "; " + SEQ, ["cluster.Membership", "cluster.Ring.Lookup"])

P("C03", "Membership is a linearizable state machine with faithful observers",
  "Membership operations behave, for every sequence and every interleaving, like an atomic map from node identity to node: insert replaces the node, marking a known node bumps its incarnation and sets the state only if the state differs, refuting always bumps the incarnation and makes the node alive, removal reports whether the node existed, operations on unknown nodes change nothing and say so, and the membership version grows by exactly one per change. Listed nodes are copies; changing them has no effect on the membership. Every registered observer is told of each change exactly once, in registration order, with that change's state and version, after the change is visible and without the membership being locked; node IDs given explicitly are kept, otherwise they are derived deterministically from the address.",
  ["schedules", "histories"],
  "all operation sequences up to length 5 over a small alphabet, all interleavings of 2x1, 2x2 and 3x1 operations with linearizability checked against the sequential model",
  "Tests drive a few sequential transitions; atomicity and observer order must hold for every history and schedule.",
  ["internal/cluster/membership.go", "internal/cluster/node.go"], [("mutex-protected map plus observer fan-out after unlock", "internal/cluster/membership.go")],
  "Sequential model written from the documented contract; linearizability by enumeration of orders.", SCH + "; " + SEQ, ["cluster.Membership"])

P("C04", "Gossip spreads the newest news; a live node refutes suspicion",
  "A node that is told about members takes over exactly the records that are newer than its own - a higher incarnation, or an unknown member that is alive - and never an older one, also when several messages, the failure detector and the operator come together; its ring follows. It never believes itself other than alive, and answers a claim against it, made at its incarnation or later, with a higher incarnation than the claim's. What is said against a member it pruned does not bring that back. From every state that probes, prunings, restarts and gossip can lead to, gossip alone makes all nodes which hear of each other believe each other alive within four rounds. Each round of the gossip loop pushes the node's full view to one other member, an unreachable one does no harm, and a stopped node is silent.",
  ["histories", "schedules", "inputs"],
  "all records against all claims (3 states, incarnations 0-3, in both orders); all reachable states of 2 nodes with incarnations up to 5 (no depth bound) and of 3 nodes up to depth 6 (8), 4 nodes up to depth 4; all interleavings of two events up to 3 preemptions; all choices of targets of 3-4 rounds of 2-3 nodes",
  "Which record wins depends on the order in which contradicting reports arrive; tests push one report to one node.",
  ["internal/cluster/membership.go", "pkg/backend/dist_memory.go", "pkg/backend/dist_transport.go"], [("acceptGossip / refuteIfSuspected / runGossipTick", "pkg/backend/dist_memory.go"), ("Membership.Merge / Refute / Mark", "internal/cluster/membership.go")],
  "The state search restores each state in the real memberships and applies each step with the real code (explicit-state search over the implementation).", SEQ + "; " + SCH, ["backend.DistMemory", "cluster.Membership", "backend.WithDistGossipInterval"])

P("C05", "The failure detector suspects and prunes only who does not answer",
  "Each heartbeat probes every other member once (or as many as the sample size says), within half the interval. A member that answers is alive, and as long as all answer the membership does not change, however long a member was not probed and however slow other probes are. One that does not answer is suspect, unless one of at most k distinct live members other than itself and the prober, asked one after another until one confirms, reaches it; it is pruned, and leaves the ring, at a failed probe when it was last seen longer than deadAfter ago, not before and not later than deadAfter and two rounds after it went silent, and is not brought back by gossip about it, but let in when it returns. The counters say what happened; a probe does not undo a removal or a refutation that came meanwhile.",
  ["histories", "crash_points", "schedules", "configurations"],
  "all patterns of answers over 9 (13) rounds for 5 settings of the thresholds; all patterns of direct and relayed answers over 2-5 rounds of 3-5 nodes with 1-3 relays; all samples of 3-4 (5) rounds; all subsets by size of hanging peers of 4 and 6 nodes; all phases and gossip targets while a node goes down; partitions of 1-9 rounds; all interleavings of a probe with a removal, a refutation or a snapshot up to 2 preemptions",
  "Pruning depends on the exact timing of answers, rounds and messages over many rounds; tests wait for one transition in real time.",
  ["pkg/backend/dist_memory.go", "internal/cluster/membership.go"], [("runHeartbeatTick / evaluateLiveness / handleProbeFailure / pickIndirectRelays", "pkg/backend/dist_memory.go")],
  "Virtual time, so that rounds, timeouts and deadlines are exact. Known finding: two sides of a partition longer than deadAfter never meet again (heal|split).", SEQ + "; " + SCH, ["backend.DistMemory", "backend.WithDistHeartbeat", "backend.WithDistHeartbeatSample", "backend.WithDistIndirectProbes"])

P("C06", "Event bus delivers every event in version order or counts it as dropped",
  "Each publish gets the next version (1, 2, 3, ... without gaps or repeats, also under concurrent publishers), and every subscriber receives events in strictly increasing version order, each event exactly as published, starting no later than the first event published after its subscription returned. For each subscriber, every event is either readable or counted in the dropped counter; an event is dropped for a subscriber only when that subscriber's 16-event buffer is full, and a slow subscriber never blocks a publisher nor costs another subscriber an event.",
  ["schedules", "histories"],
  "all interleavings of up to 3 publishers, readers and joiners up to 6 preemptions; all sequences up to length 7 of publish / subscribe / read / unsubscribe",
  "Ordering and drop accounting only break under particular interleavings of publishers with joins, reads and a full buffer.",
  ["internal/eventbus/bus.go"], [("publish lock plus per-subscriber buffered channel with non-blocking send", "internal/eventbus/bus.go")],
  "All schedules at channel/lock/atomic operations up to the bound; also run under the race detector with one preemption.", SCH + "; " + SEQ, ["eventbus.Bus"])

P("C07", "Subscriptions end exactly once and release their resources",
  "Whatever combination and interleaving of unsubscribe, context cancellation, repeated unsubscription and publishing ends a subscription, its channel is closed exactly once, no publish panics or blocks, events delivered before the end stay readable, and the subscriber count drops by exactly one. A subscription whose context is cancelled is reaped without further help, even if its buffer is full, its reader is blocked or the context was cancelled before subscribing. Ending one subscription never affects another one.",
  ["schedules"],
  "all interleavings of two enders and a publisher up to 4 preemptions, for every pair of ways to end a subscription",
  "Double close and send-on-closed only happen in specific races between publisher, unsubscribe and the cancellation watcher.",
  ["internal/eventbus/bus.go"], [("once-guarded close under the bus lock", "internal/eventbus/bus.go")],
  "All schedules up to the bound.", SCH, ["eventbus.Bus"])

P("C08", "Statistics stay exact under concurrent recording",
  "When any number of goroutines record values for the same or different statistics (including the first use of a statistic), no recording is lost: count, sum, min, max and mean of each statistic are exactly those of the values recorded for it, and the sample window holds only recorded values, each at most as often as recorded, sorted and within capacity. A snapshot taken meanwhile counts everything recorded before it, never goes back, and contains only recorded values; modifying a snapshot does not change the collector.",
  ["schedules"],
  "all interleavings of 2-3 recorders (2 values each) with a snapshotting reader up to 4 preemptions",
  "Lost updates and torn snapshots depend on the interleaving of lock-free updates; tests only see the final sum of an unconstrained run.",
  ["pkg/stats/histogramcollector.go"], [("atomic aggregates, CAS min/max, TryLock sample ring", "pkg/stats/histogramcollector.go")],
  "All schedules at atomic and lock operations up to the bound (sequentially consistent memory), plus the race detector.", SCH, ["stats.HistogramStatsCollector"])

P("C09", "Statistics summaries equal a reference computation for every history",
  "For every sequence of recordings: count, sum, min, max and mean are over all recordings (increment adds the value, decrement the negated value), while median, percentiles, variance and listed values are those of the most recent samples up to the window capacity; the median of an even number of samples is the mean of the middle two and a percentile p is the value at sorted position floor(n*p) clamped to the window, also for extreme 64-bit values. A statistic never recorded yields zeros and is not listed. The registry constructs exactly the registered collectors, rejects unknown names and keeps registries independent.",
  ["histories", "inputs"],
  "all sequences of recordings up to length 6 over a value alphabet with extremes and window capacities 1..5; long windows around the wrap-around point",
  "Tests record one or two short sequences; wrap-around, even/odd and extreme values need particular histories.",
  ["pkg/stats/histogramcollector.go", "pkg/stats/stats.go"], [("ring buffer of samples and sorted snapshot", "pkg/stats/histogramcollector.go")],
  "Exhaustive within the stated lengths and alphabets against an independently written model.", SEQ, ["stats.ICollector", "stats.CollectorRegistry"])

P("C10", "Client failover tries every endpoint before it gives up",
  "Every client call tries the endpoints of its current view in a random order (any endpoint can come first), each at most once, with the identical request (method, path, query, headers, body). A transport error or 5xx answer moves on to the next endpoint, a 4xx answer is final and returned with the server's error code and message mapped to the matching sentinel errors, a success ends the call, and only when all endpoints failed the call returns ErrAllEndpointsFailed wrapping the last cause. A cancelled context is reported, response bodies are always closed, and seeds are trimmed and must not be empty.",
  ["inputs", "configurations", "schedules"],
  "all answer assignments (success, 4xx, 5xx, transport error, hang until cancel) to up to 4 endpoints x every call x every permutation the random order can produce; concurrent calls with all interleavings up to the preemption bound",
  "Tests use one or two live httptest servers; failover must be right for each order and each combination of failures.",
  ["pkg/client/client.go", "pkg/client/transport.go", "pkg/client/errors.go"], [("shuffled endpoint walk with per-status continue rule", "pkg/client/transport.go")],
  "Server side is an in-memory round tripper; randomness is a model-checked choice.", SCH + "; " + INP, ["client.Client methods"])

P("C11", "Client requests and reported answers are faithful",
  "For every key, value and TTL a client call addresses exactly that key (escaped as one path segment), sends the value bytes unchanged and the TTL without loss, and reports exactly what the server answered: value bytes, metadata fields, owners, batch results in request order with per-item errors mapped like single-item errors. A positive TTL never becomes 'no expiry'. Malformed or cut answers are errors, an empty batch sends no request.",
  ["inputs"],
  "all keys over an alphabet of special characters up to length 3, values with all bytes, TTL alphabet from 1ns to max, every answer shape and every truncation of it",
  "Tests send a few plain ASCII keys and well-formed answers.",
  ["pkg/client/client.go", "pkg/client/batch.go", "pkg/client/transport.go"], [("path escaping, query/body encoding and envelope decoding", "pkg/client/")],
  "Keys '.' and '..' are excluded (net/http path cleaning); full enumeration of the alphabets.", INP, ["client.Client methods"])

P("C12", "Topology refresh never leaves the client without working endpoints",
  "A topology refresh replaces the endpoint view by exactly the alive-or-suspect members with a non-empty address (using the first seed's scheme unless a full URL is announced); a refresh that fails or is malformed leaves the view unchanged and is reported, one without usable members leaves it unchanged. The background loop refreshes once per interval, survives any sequence of failures and hangs, and every call uses one whole view (old or new), never a mixture. Intervals under one second are refused.",
  ["histories", "schedules"],
  "all sequences of refresh answers up to length 3-4, all member lists up to 3 members, all interleavings of refresh, calls and Endpoints up to the preemption bound in virtual time",
  "A bad refresh at the wrong moment empties or tears the view; tests only check one successful refresh.",
  ["pkg/client/topology.go", "pkg/client/client.go"], [("atomic swap of the endpoint view", "pkg/client/topology.go")],
  "Virtual time; schedules up to the preemption bound.", SCH + "; " + SEQ, ["client.RefreshTopology", "client.Endpoints"])

P("C13", "Closing a client is safe at any moment and stops everything it started",
  "Close may be called any number of times and from any number of goroutines at once: it never panics, waits for the background refresh loop, afterwards no refresh request is sent and no goroutine is left, and calls in flight or made later still work.",
  ["schedules"],
  "all interleavings of up to 3 closers with refreshes, ticks and calls up to the preemption bound in virtual time",
  "Double close and late refreshes are schedule-dependent.",
  ["pkg/client/client.go", "pkg/client/topology.go"], [("stop channel and done channel of the refresh loop", "pkg/client/topology.go")],
  "Schedules up to the preemption bound, plus race detector.", SCH, ["client.Close"])

P("C14", "The client authenticates with exactly the configured credential and leaks none",
  "Whatever options are given in whatever order, the credential configured last is the one sent - exactly one Authorization header on every request and every failover attempt, over the caller's transport and timeout, leaving the caller's http.Client unchanged. With OIDC client credentials no request reaches the cache without a token, the token is reused until it expires and renewed afterwards, and the identity provider never receives cache credentials. No secret appears in errors or logs; empty credentials are refused; without a caller's client the default timeout is 10 seconds.",
  ["configurations", "histories"],
  "all sequences of 9 options up to length 3 (5 in thorough) x every call x retry positions; all token answer sequences",
  "Tests use one auth option at a time in one order.",
  ["pkg/client/options.go", "pkg/client/client.go"], [("auth round tripper wrapped around the caller's transport", "pkg/client/options.go")],
  "Full enumeration of option sequences within the length bound. Redirects to other hosts are not covered.", INP, ["client.New options"])

P("C15", "An HTTP request is authorised exactly when the policy grants it",
  "A request passes the policy if and only if the first credential that matches - exact bearer token, basic user and password (never on a plaintext connection unless explicitly allowed), common name of the verified peer certificate, the verify hook, anonymous access, in this order - belongs to an identity that holds the required scope; scopes are never implied by each other. Without a matching credential the answer is 401, without the scope 403, and the handler does not run and sees no identity. The decision for a request does not depend on other requests, earlier or concurrent. Capabilities mirror the scopes exactly; a policy with a defective row is refused by validation, without showing secrets.",
  ["inputs", "configurations", "histories"],
  "all policies over 4x3x3 credential sets, 4 verify hooks and both flags x 34 Authorization headers x 8 connection kinds x 4 required scopes; all request pairs (triples in thorough) on one policy; two concurrent requests",
  "Tests check one credential class at a time with one or two headers; a bypass hides in a combination.",
  ["pkg/httpauth/policy.go"], [("credential resolution chain", "pkg/httpauth/policy.go")],
  "Full enumeration through fiber's handler and through Verify. Timing side channels are out of scope.", INP + "; " + SCH, ["httpauth.Policy.Middleware", "httpauth.Policy.Verify"])

P("C16", "A loaded auth configuration grants exactly what is written or is refused",
  "Loading the policy from the environment yields exactly the identities, scopes and flags written in the configuration file, in order; the file takes precedence over the single-token variable, which grants one identity all scopes; with neither variable the policy is empty. Any defect - unknown field, unknown, empty or missing scope, empty or missing identifier or secret, wrong type, damaged or unreadable file - makes loading fail with ErrInvalidPolicy, returns no usable policy and never falls back to the other variable. No error text contains a token, password or hash.",
  ["inputs", "configurations", "fault_sequences"],
  "all combinations of up to 2 (3) rows per section x scope lists x flags x environment; every single defect at every row alone and in context; every truncation of a file",
  "Tests try about a dozen broken files.",
  ["pkg/httpauth/loader.go"], [("strict YAML decoding, scope parsing, Validate", "pkg/httpauth/loader.go")],
  "Full enumeration of single defects.", INP, ["httpauth.LoadFromEnv"])

P("C38", "Serialized values come back unchanged",
  "Every JSON-representable value marshalled by the default serializer unmarshals to an equal value (also with encoding/json), through any destination kind, independent of what the destination held before and of later reuse of the buffers; truncated data, non-pointer destinations and unrepresentable values are errors. The registry makes, anew each time, exactly what was registered last under a name, an unknown or empty name is an error, registries are independent, and the disabled msgpack serializer always fails.",
  ["inputs", "histories"],
  "all values up to nesting depth 2 (3) over an alphabet of special strings and numbers, every truncation, 14 destination kinds x 15 documents, all registration sequences up to length 3 (4)",
  "Tests round-trip a few maps and strings.",
  ["internal/libs/serializer/json.go", "internal/libs/serializer/serializer.go", "internal/libs/serializer/msgpack.go"], [("JSON codec and constructor map", "internal/libs/serializer/")],
  "Truncated bare numbers are excluded (a prefix of a number is a number).", INP, ["serializer.ISerializer", "serializer.Registry"])

P("C40", "A redis store connects exactly as its options say",
  "Every sequence of options leads to exactly the configuration it spells, the last setting of a field winning and everything else at the documented default; a missing or blank address is refused. A TLS configuration is honoured - the connection is encrypted and verified, or there is no connection and nothing is sent - and the configured credentials and database are the ones used.",
  ["configurations"],
  "all option sequences up to length 2 (3) for single and cluster stores; all combinations of TLS mode, credentials and database against a loopback server",
  "No test opens a connection.",
  ["pkg/backend/redis/options.go", "pkg/backend/redis/store.go", "pkg/backend/rediscluster/options.go", "pkg/backend/rediscluster/store.go"], [("option setters and client construction", "pkg/backend/redis/store.go")],
  "Option sequences within the length bound; the server is a minimal RESP server on loopback.", INP, ["redis.New", "rediscluster.New"])

P("C17", "The sharded map is a linearizable map with an exact count",
  "For every sequence and every interleaving, the concurrent map behaves like one atomic map per key: a get returns the last item stored, present or absent exactly as stored and removed, a pop returns the item and removes it for exactly one caller, and Count, once operations have returned, equals the number of keys present, also after overwriting, removing absent keys and clearing. Iterating visits every key that is not changed meanwhile exactly once with its current item, and holding an iteration open never blocks writers of other shards. Copies returned to callers are whole items, never mixtures of two writes. Equal keys always fall in the same shard and the hash is the documented one.",
  ["schedules", "histories"],
  "all sequences of 8 operations over 3 keys up to length 4 (5); all interleavings of 2x1, 2x2 and 3x1 operations up to the preemption bound, with linearizability checked by enumeration of orders",
  "A lost update or a count that drifts needs two operations on one shard interleaved in a particular way.",
  ["pkg/cache/v2/cmap.go", "pkg/cache/v2/hash.go"], [("sharded maps with per-shard lock and atomic counters", "pkg/cache/v2/cmap.go")],
  "All schedules at synchronisation operations up to the bound; also run under the race detector.", SCH + "; " + SEQ, ["cache.ConcurrentMap"])

P("C18", "A cached item expires, measures and recycles exactly",
  "An item with a positive expiration is expired exactly when more than that duration has passed since its last access, and an item with expiration zero never expires; touching an item restarts the interval and counts the access. Valid refuses exactly items with an empty key, a nil value or a negative expiration. SetSize sets the size to the length of the value's CBOR encoding, independent of what was sized before and of concurrent sizings, and an unencodable value is an error. An item handed out by the pool is blank and not shared with anyone else until it is returned.",
  ["inputs", "schedules"],
  "all combinations of expirations and elapsed times around the boundary in virtual time; all ordered pairs of a value alphabet for sizes; all interleavings of two sizers and of pool users up to the preemption bound",
  "Boundary instants cannot be hit with real clocks; pooled buffers leak state only between particular pairs of calls.",
  ["pkg/cache/v2/item.go"], [("LastAccess plus Expiration comparison, pooled CBOR buffer, sync.Pool of items", "pkg/cache/v2/item.go")],
  "Virtual clock; expected sizes are computed from the CBOR specification.", INP + "; " + SCH, ["cache.Item", "cache.ItemPoolManager"])

P("C19", "Every eviction algorithm tracks a bounded set and always finds a victim",
  "For every eviction algorithm and every sequence or interleaving of sets, gets, deletes and evictions: the algorithm tracks at most its capacity of keys; a key just set is tracked and returns the value set; keys set, not deleted and not evicted stay tracked; below capacity nothing is evicted, and at capacity a new key displaces exactly one other key; Evict returns a tracked key, which is then gone, and reports failure only when nothing is tracked, so evicting repeatedly yields every tracked key once. Concurrent operations are linearizable. The registry resolves exactly the documented names, unknown names and negative capacities are errors, and capacity zero stores nothing.",
  ["histories", "schedules"],
  "all sequences of set/get/delete/evict over 3-4 keys up to length 7 (8) for lru, lfu, clock, cawolfu, arc and sharded variants, capacities 0..3; all interleavings of 2-3 threads up to the preemption bound",
  "Linked-list and heap corruption, lost victims and overfull stores appear only after particular sequences; tests use one or two short ones.",
  ["pkg/eviction/lru.go", "pkg/eviction/lfu.go", "pkg/eviction/clock.go", "pkg/eviction/cawolfu.go", "pkg/eviction/arc.go", "pkg/eviction/sharded.go", "pkg/eviction/eviction.go"],
  [("per-algorithm store behind IAlgorithm", "pkg/eviction/eviction.go")],
  "Exhaustive up to the sequence length; ARC's ghost lists are unobservable and only constrained through the tracked set.", SEQ + "; " + SCH, ["eviction.IAlgorithm"])

P("C20", "Each eviction algorithm picks the victim its policy names",
  "The order in which keys are evicted is the one the policy defines, for every sequence of operations: LRU evicts the least recently set or read key; LFU the least frequently used one, the least recently used among equals; CLOCK the first key without remaining access credit under the hand, decrementing credits as it passes; the sharded variant evicts from its shards in turn, each shard by its own policy, and spreads keys by hash; ARC, as long as no evicted key returns, evicts keys used only once before keys used again.",
  ["histories"],
  "all sequences of set/get/delete/evict over 3-4 keys up to length 6-8, each followed by a complete drain compared with a reference model of the policy",
  "A wrong victim shows only after a specific mixture of hits, deletes and evictions; tests check one order per algorithm.",
  ["pkg/eviction/lru.go", "pkg/eviction/lfu.go", "pkg/eviction/clock.go", "pkg/eviction/cawolfu.go", "pkg/eviction/arc.go", "pkg/eviction/sharded.go"],
  [("recency lists, frequency heap, clock hand", "pkg/eviction/")],
  "Exhaustive up to the sequence length.", SEQ, ["eviction.IAlgorithm.Evict"])

P("C21", "Every cache operation has its documented effect in any sequence",
  "On the in-memory cache every sequence of operations behaves like a map with expirations: Get, GetWithInfo, GetOrSet, GetMultiple, List, Count, Remove, Clear and Set return exactly what the preceding operations determine. A value set is returned until it is removed, cleared, overwritten or its time since last access exceeds its expiration, and never afterwards; a read of a live item restarts its idle time and counts one access; operations refused for an empty key, nil value or negative expiration return the documented error and change nothing; returned items and lists are copies whose modification does not change the cache.",
  ["histories", "configurations"],
  "all sequences of operations (writes, reads, batch reads, removals, clear, waits around the expiration, triggers) over 2 keys up to length 3-4 (5), for several configurations, under virtual time",
  "Tests use one sequence per operation with real sleeps; combinations of expiry, overwrite and scan are not reached.",
  ["hypercache.go", "hypercache_io.go", "hypercache_expiration.go", "pkg/backend/inmemory.go"], [("read paths with lazy expiration", "hypercache_io.go"), ("background scan", "hypercache_expiration.go")],
  "Exhaustive up to the sequence length; one schedule per sequence (C22-C25 vary schedules).", SEQ, ["HyperCache"])

P("C22", "The memory allocation is exact and stays within its limit",
  "Once operations have returned, Allocation equals the sum of the sizes of the items in the cache, after every sequence and every interleaving of sets, overwrites, GetOrSet, removals, clears, refused writes, expirations and evictions; with a maximum cache size configured the sum never exceeds it: a write that would is refused with the cache-full error, leaves the previous value in place and does not count, while a write that fits is never refused for lack of room.",
  ["histories", "schedules"],
  "all sequences up to length 3-4 (5) over writes of several sizes, removals and clears with and without a limit; all interleavings of 2x1, 2x2 and 3x1 operations and of expiration against writes up to the preemption bound",
  "Drift needs an overwrite, a double removal or two writers in a window of a few instructions, and is invisible until the limit misfires.",
  ["hypercache.go", "hypercache_io.go", "hypercache_eviction.go", "hypercache_expiration.go", "pkg/backend/inmemory.go", "pkg/cache/v2/cmap.go"], [("memoryAllocation counter updated per write and removal", "hypercache_io.go")],
  "In-memory backend; with several writers at the limit a write may be refused because of one that is in flight.", SEQ + "; " + SCH, ["HyperCache.Allocation", "HyperCache.MaxCacheSize"])

P("C23", "Capacity is enforced by evicting exactly the excess, chosen by policy",
  "With proactive eviction (interval zero) a cache within its capacity is within it again when a write returns, the key just written is present, nothing is evicted while there is room, and exactly the excess is evicted, the victim being the one the configured policy names by order of writes; with an interval, an eviction run (tick, trigger or SetCapacity) evicts exactly the excess, at most the configured maximum per run. Capacity zero is unlimited and evicts nothing; a negative capacity is ignored. This holds for every sequence and, as to the bound and the newest key, once concurrent writers have returned.",
  ["histories", "schedules", "configurations"],
  "all sequences up to length 4-5 (6-7) of writes, removals, capacity changes, triggers and ticks for lru, lfu, cawolfu and clock, sharded and unsharded, several eviction limits; all interleavings of 2x1, 2x2 and 3x1 operations up to the preemption bound",
  "Tests fill the cache once and count.",
  ["hypercache_eviction.go", "hypercache_io.go", "pkg/eviction/eviction.go"], [("overCapacity / evictItem / evictionLoop", "hypercache_eviction.go")],
  "In-memory backend. Policy order is checked where the algorithm tracks all keys by writes (reads do not reach the algorithm, a documented gap); the sharded algorithm's order is not claimed.", SEQ + "; " + SCH, ["HyperCache.Set", "HyperCache.SetCapacity", "HyperCache.TriggerEviction"])

P("C24", "Concurrent operations on a key of the cache are linearizable",
  "For every interleaving of Set, Get, GetWithInfo, GetMultiple, List, Remove, refused writes and expiration runs, the results for each key are those of some order of the operations that respects real time, and the contents afterwards are what that order leaves: no completed write is lost to an operation that preceded it, a removed value does not come back, an expiration run never takes a value that was written or read after it expired, and every item handed out is one write in one piece. GetOrSet returns the present value, or stores its own and returns it.",
  ["schedules", "histories"],
  "all interleavings of 2x1, 2x2, 3x1 (3x2) operations over an absent, live or expired key up to the schedule bound, explained by enumeration of orders",
  "A fresh value removed by a background run that had listed its predecessor needs a write in a window between two calls.",
  ["hypercache_io.go", "hypercache_expiration.go", "pkg/backend/inmemory.go", "pkg/cache/v2/cmap.go"], [("take / removeExpired", "hypercache_io.go"), ("expirationLoop", "hypercache_expiration.go")],
  "In-memory backend; GetOrSet is a read and a conditional write, not one atomic step (not promised).", SCH, ["HyperCache"])

P("C25", "Expired items leave on trigger or interval, and Stop ends everything",
  "After an expiration trigger - explicit or by reading an expired item - or an expiration interval, every item that had expired by then is gone and no other; a trigger is never lost, not even while others are being handled, except within the debounce interval of the last accepted one. The counters of runs, removed and evicted items and run durations say what happened. Stop, also repeated, concurrent with itself, with every other operation and with cancellation of the construction context, returns, ends every goroutine of the cache, and afterwards nothing is removed in the background while the cache still answers.",
  ["histories", "schedules"],
  "all sequences up to length 4 (6) of writes, reads, waits around the boundaries and triggers for several configurations in virtual time; all interleavings of 2x1, 2x2 and 3x1 triggers and of Stop with the other operations up to the schedule bound",
  "A trigger lost between clearing and draining disables all later ones for good and needs one particular interleaving.",
  ["hypercache_expiration.go", "hypercache_eviction.go", "hypercache.go", "hypercache_construct.go"], [("expirationSignalPending and expirationTriggerCh", "hypercache_expiration.go"), ("bgCancel, stop channel, worker pool", "hypercache.go")],
  "In-memory backend; the management HTTP server is not started.", SEQ + "; " + SCH, ["HyperCache.TriggerExpiration", "HyperCache.Stop", "HyperCache.GetStats"])

P("C26", "The worker pool runs every accepted job exactly once and shuts down",
  "Every job accepted before Shutdown runs exactly once, before Shutdown returns; none accepted afterwards runs; with n workers n jobs run at once and no more, also after any sequence of Resize to at least one worker. Failing jobs never stop the pool, whether or not anybody reads the errors; an error that is reported is one a job returned, once, and the channel of errors is closed in the end. Resize, Enqueue and Shutdown may be called concurrently in any combination without panic, deadlock or leaked goroutine.",
  ["schedules", "histories"],
  "all interleavings of 2x1, 2x2 and 3x1 operations up to the schedule bound; all sequences of up to 2 (3) resizes",
  "A pool whose errors nobody reads stalls only once its buffer is full; Resize against Shutdown needs a window of one instruction.",
  ["pool.go"], [("jobs, quit and error channels", "pool.go")],
  "A pool resized to zero workers keeps its jobs until it is resized again (as tested upstream) and is not covered.", SCH, ["hypercache.WorkerPool"])

P("C27", "Typed views of a cache never lie about a value",
  "A typed view returns a value exactly when the key holds a live value of (or implementing) its type, and then that value; otherwise the zero value with not-found for missing and expired keys and type-mismatch for values of another type. GetOrSet never overwrites a value of another type. Views of different types and the untyped cache share the same entries, and Get, GetTyped, GetWithInfo and GetMultiple agree on every key.",
  ["histories", "inputs"],
  "all sequences of writes through 7 views (concrete, named, interface, nilable and struct types), untyped writes, removals and waits up to length 4 (5), every view reading every key after every step",
  "Tests use one or two types; nil interfaces and pointers, named types and expiry between views are not reached.",
  ["hypercache_typed.go"], [("type assertion on read", "hypercache_typed.go")],
  "", SEQ, ["hypercache.Typed"])

P("C28", "Distributed operations honour their consistency level",
  "Whatever node a client talks to and whichever owners are unreachable: a write returns success exactly when the required number of owners (ONE, QUORUM = majority, ALL) has it, otherwise a quorum error or, when no owner can coordinate it, an error; every reachable owner of the key and no other node gets the value; versions assigned by coordinators that saw the last acknowledged write grow. A read succeeds exactly when enough reachable owners hold the key; if read and write levels overlap it returns the last acknowledged value or a later attempted one, never an older one, and leaves every reachable owner with it. A removal that returns success leaves no reachable owner with the key. Returned items are the caller's own.",
  ["histories", "crash_points", "configurations"],
  "all histories up to length 4-5 (7) of writes, reads and removals at every node and of owners failing and coming back (refused or reset connections), for clusters of 2 to 4 (5) nodes, replication 1-3 (5), all level combinations; every history of 6 operations and failures followed by a read at QUORUM",
  "Tests stop one node once; which replica misses which write, and who coordinates next, decides whether an acknowledged write is found again.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_transport.go"], [("setImpl / coordinateWrite / getWithConsistency / repairReplicas", "pkg/backend/dist_memory.go")],
  "In-process transport behind a fault injector, static membership, virtual time. Known finding: versions are per-process counters, so a coordinator that missed writes can lose to an older value (*|blind).", SEQ, ["backend.DistMemory.Set", "backend.DistMemory.Get", "backend.DistMemory.Remove"])

P("C29", "Copies of a key resolve to the newest and never go back",
  "Of several copies of a key the one with the higher version, on a tie the one with the smaller origin, is the newest: quorum and ALL reads (sequential or parallel) return the newest of the copies they needed to see, and repair leaves no owner behind it or set back. A copy arriving at a node - replication, replayed hint, repair, late or duplicated, in any order - that is older than the copy or the removal the node already holds changes nothing there, a newer one replaces it, and no other key or node is touched. When concurrent writes, reads and hint replays have returned without failures, all owners hold the same newest copy.",
  ["histories", "schedules"],
  "all arrival sequences up to length 4 (6) of five versions; all histories up to length 6 (8) of writes, removals and late deliveries; all placements of copies on three owners x level x reading node; all interleavings of 2-3 writers, readers and a hint replay up to the preemption bound, also under the race detector",
  "A late hint or two overlapping fan-outs undo a newer value only in one particular order of arrival.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_read_repair.go", "pkg/backend/dist_transport.go"], [("applySet / chooseNewer / repairLocalReplica", "pkg/backend/dist_memory.go"), ("isHigherVersion", "pkg/backend/dist_read_repair.go")],
  "In-process transport, virtual time; timestamps agree with versions (clock skew between nodes is not modelled).", SEQ + "; " + SCH, ["backend.DistMemory", "DistTransport.ForwardSet"])

P("C30", "Hinted handoff delivers what an unreachable replica missed",
  "A replica write that finds its target unreachable is queued for it and, once it is reachable, delivered within one replay interval, in the order queued, exactly once, unless its time to live has passed or the key was removed since; a failed delivery is retried at the next interval. The per-node cap drops that node's oldest hint, the global count and byte caps refuse the new one and leave the rest alone, and the reported numbers of queued, replayed, expired, refused and globally dropped hints and bytes are exact. An unresponsive target delays nobody but its own hints: neither operations nor metrics wait for it. After Stop nothing is delivered.",
  ["histories", "schedules", "configurations"],
  "all histories up to length 5 (7) of writes of different sizes, removals, target failures, recoveries and waits for 7 combinations of caps in virtual time; all interleavings of replay with one or two writes and of two queueing writes up to the preemption bound",
  "Which cap a hint meets, when a replay runs between a failure and a removal, and what is then counted depends on the order of several events; tests cover one hint at a time.",
  ["pkg/backend/dist_memory.go"], [("queueHint / replayHints / processHint", "pkg/backend/dist_memory.go")],
  "In-process transport behind a fault injector, virtual time; hints live in memory and are lost with their node (documented).", SEQ + "; " + SCH, ["backend.DistMemory.Set", "backend.DistMemory.Metrics"])

P("C31", "Anti-entropy brings replicas to the newest state and loses nothing",
  "After a sync with a peer a node holds, of every key, the newer of both copies; a removal the peer knows replaces a copy that is not newer and is not undone by older copies later; a key the peer merely lacks stays, the peer is untouched, and nothing is re-fetched when both agree. Trees are equal exactly for equal contents, whatever the order of insertion, and every chunk with a difference is named, also when the chunk sizes differ. With auto-sync, whatever owners missed while unreachable, all owners hold the newest copy or removal a few intervals after the failures end, and no other node got the key; clean rounds double the interval up to the cap, any other round resets it, and each round asks the configured number of distinct peers, whichever of them fail. Tombstones live for their time to live and no longer than one sweep more. Syncs concurrent with writes and removals never set a node back.",
  ["inputs", "histories", "schedules"],
  "all pairs of states (absent, 3 versions, 3 tombstones) of 1-2 (3) keys on two nodes x chunk sizes, 4 rounds; all pairs of 256 contents for trees; all histories up to length 4-5 (6) of writes, removals, failures and waits with auto-sync; all sequences of 5 rounds for 5 caps; all interleavings of one or two syncs with one or two operations up to the preemption bound",
  "A sync that deletes what the peer never had, or misses a removal of the same version, needs one particular pair of states; tests sync one missing key.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_transport.go"], [("BuildMerkleTree / DiffLeafRanges / syncWithStatus / fetchAndAdopt", "pkg/backend/dist_memory.go"), ("runAutoSyncTick / updateAutoSyncBackoff", "pkg/backend/dist_memory.go"), ("compactTombstones", "pkg/backend/dist_memory.go")],
  "In-process transport behind a fault injector, virtual time. Copies of the same version from different origins are not told apart by the tree (read repair does).", SEQ + "; " + SCH, ["backend.DistMemory.SyncWith", "backend.DistMemory.BuildMerkleTree", "backend.WithDistMerkleAutoSync"])

P("C32", "Rebalancing moves every key to its owners and loses none",
  "After nodes have joined, left or crashed - each crash leaving another member with the newest copy - and two rounds have passed, exactly the current owners of every key hold its newest copy. A transfer that fails is retried (or handed to hinted handoff) and the copy kept until then; whatever transfers fail, and in whatever order the members learn of a change, no key is lost. A copy no longer needed goes at once or after the grace period, not before, and never takes a newer one that arrived meanwhile with it. Transfers respect batch size, parallelism and the limit of new-replica transfers per round, each needed copy is sent once, the counters say what was done, and an unchanged or stopped node moves nothing.",
  ["histories", "crash_points", "schedules", "configurations"],
  "all histories up to 2-3 (4) joins, departures, crashes and writes of clusters of 3-4 nodes with replication 1-3, for keys of every preference order; all combinations of up to two failing transfers (refused, lost, lost answer); all orders of learning of a change with and without rounds between; all sizes and limits up to 3 (4); all interleavings of a transfer with an arriving copy up to the preemption bound",
  "Which copy is the last one, and which node believes what when it is given away, depends on the order of several events; tests make one change.",
  ["pkg/backend/dist_memory.go", "internal/cluster/ring.go", "internal/cluster/membership.go"], [("runRebalanceTick / migrateIfNeeded / replDiffShard / shedShard", "pkg/backend/dist_memory.go")],
  "In-process transport behind a fault injector, virtual time. Known findings: a copy given away to a node that refuses it because it has not learned of the change is lost if it was the last (views-leave-1|refused); a write at a new primary before the transfer loses to an older copy with a higher version (early|blind, same cause as in C28).", SEQ + "; " + SCH, ["backend.DistMemory", "backend.WithDistRebalanceInterval"])

P("C33", "A draining node refuses writes and serves; a stopped one does nothing",
  "After Drain has returned, every Set and Remove through that node is refused with ErrDraining and has no effect anywhere - no copy, message, version or counter changes - while reads through it and operations through other nodes work; a write at the same time is either refused without effect or done in full. Drain is one-way, idempotent and counted once. After Stop has returned, or the construction context has ended, at whatever moment, every background loop (heartbeat, gossip, hint replay, rebalancing, auto-sync, tombstone sweep, read repair, event publication) ends; the node sends nothing more on its own and changes its mind about no member. Stop may be repeated, and come together with itself, Drain, reads, writes and cancellation, without panic, race or deadlock.",
  ["histories", "schedules"],
  "all sequences of up to 3 (4) operations, drains and stops on two nodes with replication 1 and 2; all interleavings up to the preemption bound of a write, two drains and a later write; each loop alone, and all together, ended at 9 instants of its period with each member unreachable or none, with fast and slow peers, up to 1 (2) deviations from the schedule; Stop against each other operation at the instant all loops tick",
  "Whether a loop really ends depends on what it is doing at that instant; tests stop idle nodes.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_memory_events.go", "pkg/backend/dist_read_repair.go"], [("Drain / Stop / closeBackgroundLoops", "pkg/backend/dist_memory.go"), ("lifeCtx", "pkg/backend/dist_memory.go")],
  "In-process transport, virtual time. A call that is under way when the node stops fails when its context ends, as a network call does.", SEQ + "; " + SCH, ["DistMemory.Drain", "DistMemory.Stop", "backend.NewDistMemory"])

P("C34", "Batched read repair sends each repair once, in time, and before Stop returns",
  "With batched read repair a read queues, for every owner other than the reader, the copy it returned; per owner and key only the newest queued copy is sent, once, at most one interval after it was queued, and at once when that owner's batch is full. What the caller does to the returned item does not change what is sent. When Stop returns, every repair of a read that had returned before Stop was called has arrived at each reachable owner; reads at the same time or later still work and race with nothing. The counters of repairs, batched and coalesced ones add up. After a read of a divergent key and one interval every reachable owner holds the newest copy that was read, an unreachable one is left alone. A non-positive interval or size turns batching off: repairs are done when the read returns.",
  ["histories", "schedules", "configurations"],
  "all sequences of up to 4 (6) reads, newer copies and waits over 2 (3) keys and batch sizes 1-3, ended by Stop; all placements of versions 0-2 on three owners x reader x unreachable node; all interleavings up to the bound of reads, the flusher, full batches, slow peers and Stop (twice)",
  "A repair is lost only if Stop meets a flush or a read at one particular point.",
  ["pkg/backend/dist_read_repair.go", "pkg/backend/dist_memory.go"], [("repairQueue", "pkg/backend/dist_read_repair.go"), ("repairReplicas", "pkg/backend/dist_memory.go")],
  "In-process transport, virtual time; races by the race-detector build over the same schedules.", SEQ + "; " + SCH, ["backend.WithDistReadRepairBatch", "DistMemory.Stop"])

P("C35", "Nodes that talk over HTTP behave like nodes of one process",
  "Any history of sets, gets and removals gives the same answers and leaves the same items, versions, expirations and tombstones on every node whether the nodes talk over HTTP or in one process, also when a node is gone. Every key, value, version, origin, expiration and age arrives as it was sent, plain or compressed (values as the same JSON value, expirations at most rounded up to a millisecond); key listings and Merkle trees are those of the node for any number of shards; nothing kept of a request changes later; a body beyond the limit is refused whole. After Stop, whenever it comes, a node listens no more. A cluster formed from configurations whose tokens differ lets through exactly the calls whose token fits. With a token or verifier configured every endpoint refuses any other credential with 401 and without effect; each client call carries exactly the configured credential or is not sent; an answer of 300 or more is an error, and exactly 404 means that the node is not there.",
  ["histories", "inputs", "configurations"],
  "all histories of up to 3 (4) of 18 operations on three real HTTP nodes and on three in-process twins x 5 settings; 21 keys x 40 values x 10 expirations x versions; all 8 calls x 13 statuses x 7 bodies x 4 credentials x compression; 12 endpoints x 12 headers x 5 policies; body sizes around every limit; 27 mixes of tokens x replication 1-3",
  "Tests send small strings, one call at a time, and only the right credential.",
  ["pkg/backend/dist_http_transport.go", "pkg/backend/dist_http_server.go", "pkg/backend/dist_http_types.go", "pkg/backend/dist_transport.go"], [("DistHTTPTransport", "pkg/backend/dist_http_transport.go"), ("distHTTPServer", "pkg/backend/dist_http_server.go")],
  "Loopback HTTP between real nodes in one program; sequential. Values are compared as JSON because that is what a peer's copy is.", SEQ + "; " + INP, ["DistMemory.Set/Get/Remove/List", "backend.DistTransport", "the dist HTTP endpoints"])

P("C36", "A distributed node acts as its configuration says",
  "A node built by NewDistMemoryWithConfig from a configuration (a dist.Config, a pointer to one, or a caller's struct with such fields) has the identity, address, members and owners, the consistency levels, and the handoff behaviour that the same values given as options produce; explicit options override it; values out of range leave the defaults, and so do options out of range; the seeds are copied; a seed 'id@addr' is a member of that id and address, and the node itself is never a second member.",
  ["configurations"],
  "the product of all fields' values in and out of range (2,000 configurations quick, 17,000 thorough), each run through the same writes, reads, an absent replica and its return; 5 shapes x overrides; 21 options out of range",
  "No test gives the configuration to the constructor, so that it was ignored went unseen.",
  ["pkg/backend/dist_memory.go", "internal/dist/config.go"], [("NewDistMemoryWithConfig", "pkg/backend/dist_memory.go"), ("initStandaloneMembership", "pkg/backend/dist_memory.go"), ("Defaults", "internal/dist/config.go")],
  "Virtual time, in-process transport; what options do is C28 to C34.", INP, ["backend.NewDistMemoryWithConfig", "backend.NewDistMemory", "dist.Defaults"])

P("C39", "The server binary serves the cache as its API promises",
  "Started from its environment alone, hypercache-server stores any key and any bytes it accepts (raw, JSON or batch, through any node of a cluster) and returns exactly them, with the lifetime, version, origin, owners and node that belong to them, from every node and on every surface (GET, JSON, HEAD, batch, listing, owners, Go client) until they are deleted, overwritten or have outlived their lifetime; an expired key goes alone. A malformed request is answered 400 with the documented error body and changes nothing. Every route of its three ports lets a caller in, and has its effect, exactly when the configured tokens, basic users, OIDC provider, client certificates or peer token grant the scope the route needs, otherwise 401 or 403; /v1/me and /v1/me/can tell the truth. A configuration that cannot be honoured stops the start; on SIGTERM the server answers what it has begun and exits. Management answers agree between nodes and with the API.",
  ["inputs", "configurations", "histories"],
  "all sequences of up to 3 (4) of 8 writes on one node and up to 2 of 24 on three, each state read on every surface of every node; 65 keys x 3 ways x 2 nodes; 29 values x 8 ways x 3 nodes; malformed requests; all page sizes; 30 routes x all credentials x 11 authentication setups; OIDC tokens with one defect each; certificates x policies; start and stop configurations",
  "Tests call handlers in one process with a fake authenticator; no test starts the binary.",
  ["cmd/hypercache-server/main.go", "management_http.go", "pkg/httpauth/policy.go", "pkg/httpauth/loader.go", "pkg/backend/dist_keys.go", "pkg/client/client.go"],
  [("API handlers and route gates", "cmd/hypercache-server/main.go"), ("OIDC verification", "cmd/hypercache-server/oidc.go"), ("management routes", "management_http.go")],
  "The binary is built from /repo and run as processes on loopback addresses; sequential requests. Keys '.', '..' and 'keys' (other URLs), invalid UTF-8 and blank keys are outside; waiting is never judged except that an expired key, once its lifetime plus a margin has passed on the same machine, is gone.", SEQ + "; " + INP, ["the hypercache-server binary: API, management and dist ports"])

P("C44", "On a cluster an expired key goes, and nothing else",
  "Through the cache of any node a value is read until its lifetime has passed since it was written, and from the moment its lifetime has passed since the last access anywhere it is not read any more through any node, until it is written again; a value without lifetime stays. Expiration passes, on any nodes at any time, also while nodes cannot reach each other or a key is being rewritten, remove no other key and no value which is newer than the expired copy; after a pass a node holds no expired item, and an older value which the expired one had replaced does not come back once the replicas have synced.",
  ["histories", "schedules"],
  "all sequences of up to 3-5 (4-6) operations (set with and without lifetime, get, pass, remove, time) at any node of 1-3 with 1-2 replicas; all sequences of 5 (6) writes, cuts, heals, waits and passes; all schedules of a write, a pass and a read up to 2 (3-4) deviations",
  "Tests never let a key of a distributed cache expire.",
  ["hypercache_expiration.go", "hypercache_io.go", "pkg/backend/dist_memory.go"], [("removeExpired, expirationLoop", "hypercache_expiration.go"), ("DistMemory.DropExpired, List, Touch", "pkg/backend/dist_memory.go")],
  "Virtual time, in-process transport (C35 checks that HTTP carries the age of items, C39 the whole over HTTP).", SEQ + "; " + SCH, ["HyperCache[DistMemory].Set/Get/Remove/TriggerExpiration/List"])

P("C37", "The management port tells what is and lets in whom its gates let in",
  "Every route of a running management server asks exactly the gate it needs once per request (control routes the control gate, or the read gate if there is no other; /health none), and reveals or changes nothing when the gate refuses, under any method and any spelling of the path. Each answer says what the cache says at that moment, in the documented shape; what a cache cannot tell is 404, or 503 for events. A client of /cluster/events gets the retry hint, the members and the heartbeat of the moment, then every event published since it connected, in order and unchanged unless counted as dropped; a client which goes is forgotten, and Shutdown ends the streams and tells running operations to end. Start twice, Start on a taken address, Shutdown before Start, before the first request or twice do no harm; after Shutdown nothing listens, whenever it came. Options out of range leave the defaults, others hold. The port of a cache over a real backend agrees with that cache, and closes with Stop.",
  ["configurations", "inputs", "histories"],
  "4 postures x 12 routes x 7 methods x 5 credentials x 8 spellings; 6 kinds of caches x all routes x changing content; all sequences of 4 (5) publications, clients which come and go, and changes; all sequences of 4 (5) of Start, Shutdown, requests, a taken address and a context which ends; Shutdown after 0 to 20 scheduling points of 1, 2 or 8 threads; all histories of 3 of 8 membership changes followed over a stream",
  "Tests ask each endpoint once; what is stopped at once, refused or disconnected is not sampled.",
  ["management_http.go", "hypercache_dist.go", "hypercache.go"], [("routes, gates and the event stream", "management_http.go"), ("what a distributed cache tells", "hypercache_dist.go")],
  "Real listeners on loopback addresses in one program; the server and net/http run on the Go scheduler, whose schedules are only enumerated at Shutdown directly after Start. Waiting is bounded by 20 s and judged only for what must happen.", INP + "; " + SEQ, ["hypercache.NewManagementHTTPServer", "hypercache.WithManagementHTTP", "the management endpoints"])

P("C45", "Who follows topology events ends up with the current membership",
  "A subscriber of a distributed node's event bus which then reads the membership, and has no event dropped, hears one members event per change since, in version order, and the last it heard (or read) is the node's membership as soon as the changes have returned, however many change it at once; each event's payload is what /cluster/members says, and never changes afterwards. Once a second a heartbeat event carries the counters of that moment, until Stop, which also may come at any point.",
  ["schedules", "histories"],
  "all histories of up to 3 (4) of 11 changes with a subscriber from every point; all schedules of up to 3 threads of changes and a subscriber which comes, up to 1-2 (2-3) preemptions; all sequences of 3 (4) seconds with a peer up or down and joins and removals; a cluster of 3 whose nodes go and come, in all choices of gossip partners",
  "Which of two snapshots taken at once is published last is a matter of one preemption.",
  ["pkg/backend/dist_memory_events.go", "internal/eventbus/bus.go", "internal/cluster/membership.go", "hypercache_dist.go"], [("installEventBusObserver, startHeartbeatEventPublisher", "pkg/backend/dist_memory_events.go"), ("OnStateChange", "internal/cluster/membership.go")],
  "Virtual time, in-process transport; the wire is C37, the bus alone C06 and C07.", SCH + "; " + SEQ, ["DistMemory.EventBus", "HyperCache.EventBus", "HyperCache.DistMembershipSnapshot"])

P("C46", "A cluster-wide key listing has every key once and tells whom it could not ask",
  "A listing of a distributed cache, asked of any node at any time, has exactly the keys held by that node or by a member it sees alive that answers and which match the pattern (a prefix; a glob when it has *, ? or [), sorted, each once however many nodes hold it. The members named as partial are exactly the alive ones whose answer failed; suspect and dead ones are not asked. If more keys match than the limit (10000 without one), exactly as many as the limit come back, marked truncated; else not. A malformed pattern is an error. A key that is there before, during and after a listing is in it, and one that never was is not, whatever writes, failures or membership changes happen meanwhile. HyperCache.ClusterKeys gives the same, and nil for a cache that is not distributed.",
  ["inputs", "histories", "schedules"],
  "all placements of keys on up to 2 (3) peers in 7 states x patterns x limits; all histories of 3 (4) operations with a listing at every node after each; all schedules of a listing and writes, losses, membership changes or other listings up to 1-2 preemptions; up to 1100 (5200) keys around every limit",
  "Tests list a handful of keys with all peers up or one gone.",
  ["pkg/backend/dist_keys.go", "hypercache_dist.go", "pkg/backend/dist_transport.go"], [("ListKeys, listKeysAccumulator", "pkg/backend/dist_keys.go"), ("ClusterKeys", "hypercache_dist.go")],
  "In-process transport and virtual time (paging over HTTP is C35 and C39). Whether an item that expired and was not swept yet is listed is not judged.", INP + "; " + SCH, ["DistMemory.ListKeys", "HyperCache.ClusterKeys"])

P("C47", "What a distributed node counts, times and traces is what it did",
  "After any history the counters of a distributed node are its history: every accepted set is an attempt; every call it sent to a primary (and every read it forwarded at level ONE) is a forward; every copy of a write it coordinated, its own included, is an ack, and fewer than its level needs are a quorum failure; each write or removal it took over from an unreachable primary is a promotion; each probe a success or failure, each transition of a peer and each differing copy settled is counted once. Every Get, Remove and Set of a valid item is in the latency histogram once, in the bucket of the time it took, on the node the caller asked. Each has one span, ended once, which has the error exactly if the operation has and says whether it hit; each copy sent has one within it. With a meter every counter is exposed under its name, as counter or gauge, with its value of that moment, until Stop; an instrument that is refused costs no other. With fault injection each transport call is dropped or delayed at the rate asked for, never otherwise, and is counted.",
  ["histories", "inputs", "schedules"],
  "all histories of 2 (3) of 6 operations at 3 nodes x replication 1-3 x levels x unreachable sets; durations around every bucket bound; all sequences of 4 (6) rounds of reachability x relays; 8 preludes x all histories of 2 (3) of 11 events for 61 instruments, each refused once; all pairs (triples) of 6 kinds of call x drop and delay rates x every roll; concurrent operations, rates and stops up to 1-2 preemptions",
  "Tests look at single counters after single operations.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_latency.go", "pkg/backend/dist_chaos.go"], [("distMetrics, distMetricSpecs, setupOTelMetrics", "pkg/backend/dist_memory.go"), ("distLatencyCollector", "pkg/backend/dist_latency.go"), ("Chaos, chaosTransport", "pkg/backend/dist_chaos.go")],
  "Virtual time, in-process transport, recording meter and tracer. Hint, Merkle, rebalance and read-repair counters are judged by C30, C31, C32 and C34; replica fan-out counters only as exposed.", SEQ + "; " + SCH, ["DistMemory.Metrics", "DistMemory.LatencyHistograms", "backend.WithDistMeterProvider", "backend.WithDistTracerProvider", "backend.WithDistChaos"])

P("C48", "A node's identity is what it was given, or follows from its address",
  "A node given an ID has exactly that ID and address; one known by its address alone has the ID that every build and every process derives from that address - 64 bits of xxhash, little endian, in hex -, so that two nodes, and a node and its restarted self, agree on it, and different addresses get different ones. A new node is alive. Validate accepts exactly the addresses of the form host:port, changes nothing, and its refusal is ErrInvalidAddress. States are called alive, suspect and dead, anything else unknown.",
  ["inputs"],
  "all addresses over an alphabet of 10 pieces up to length 4 (5), 600 usual ones and long ones x 8 IDs; all states from -300 to 300",
  "Tests derive the ID of one address.",
  ["internal/cluster/node.go"], [("NewNode, Validate, NodeState.String", "internal/cluster/node.go")],
  "The reference uses the same hash library; its byte order and length are checked.", INP, ["cluster.NewNode", "cluster.Node.Validate"])

P("C41", "The Redis backends are a map on the server, alone and as a cluster",
  "After every sequence of sets, removals, clears and expirations the Redis and Redis Cluster backends answer like one map: Get finds exactly the live keys with the item last set - value, expiration and all its fields -, Count is their number, List has each of them once and applies its filters in order, ending with the error of one that fails. An item lives exactly as long as its expiration, also one that overwrote another; keys may be anywhere in a cluster; the set that tracks the keys is no item and cannot be replaced or removed. An operation that succeeded reports no error. If a command or its connection fails, the operation reports it or is complete, a single server holds either state and nothing between, and the same operation again completes it. Operations of several clients on a key take effect one at a time. A HyperCache over either backend keeps its own promises: reads, GetOrSet, capacity.",
  ["histories", "crash_points", "schedules"],
  "all sequences of 14 operations up to length 3 (4) on one server and a cluster of two; a failure (refused, connection lost before or after) of every command (every two commands) of 13 operations; all orders of the commands of two clients with 1x1, 2x1 (2x2) operations; all filter sequences up to length 3; all sequences of 3 (4) cache operations with and without a capacity",
  "No test opens a Redis connection: every answer of the server, its cluster slots and its clock is a matter of the environment.",
  ["pkg/backend/redis.go", "pkg/backend/redis_cluster.go", "pkg/backend/redis_common.go", "pkg/backend/filters.go", "hypercache_io.go"], [("hash per item, a set of keys, pipelines and transactions", "pkg/backend/redis_common.go")],
  "The server is a Redis in memory written for this check, with the commands the backends may use, transactions, cluster slots and redirections, a clock that only the check moves, and faults and gates before any command; go-redis runs as it is. Replicas, failover and resharding are not modelled; keys are valid UTF-8 (JSON).", INP + "; " + SCH, ["backend.NewRedis", "backend.NewRedisCluster", "hypercache.New over constants.RedisBackend and RedisClusterBackend"])

P("C42", "Middleware is transparent",
  "Any stack of the logging, statistics, metrics and tracing middlewares passes every call with its arguments and context exactly once to the service and returns its results, errors and panics unchanged; each layer counts and times each call once, every span is ended exactly once, also on panic, spans record errors and hits as they were, and a meter that cannot make its instruments is an error.",
  ["configurations", "inputs"],
  "all stacks up to depth 3 (5) of 4 middlewares x all methods x arguments x answers (success, refusal, panic)",
  "Tests drive a few methods of single middlewares.",
  ["pkg/middleware/logging.go", "pkg/middleware/stats.go", "pkg/middleware/otel_metrics.go", "pkg/middleware/otel_tracing.go", "service.go"], [("decorators of hypercache.Service", "pkg/middleware/")],
  "Full enumeration within the depth.", INP, ["hypercache.ApplyMiddleware", "middleware.New*"])

P("C43", "Listings are filtered and ordered as asked, and are copies",
  "A listing with any chain of filters contains exactly the items every filter function accepts, each once, in the order of the last sort field (key, size, last access, access count or expiration), reversed once per descending order that follows it; an unknown sort field is an error and no items; the listing belongs to the caller, whose changes do not reach the cache.",
  ["inputs", "configurations"],
  "all chains of up to 3 (4) of 13 filters over in-memory and distributed caches of 0 to 6 items with ties in every field",
  "Tests sort by one field at a time.",
  ["pkg/backend/filters.go", "pkg/backend/inmemory.go", "pkg/backend/dist_memory.go"], [("IFilter chain", "pkg/backend/filters.go")],
  "Full enumeration within the length.", INP, ["HyperCache.List", "backend.WithSortBy", "backend.WithFilterFunc", "backend.WithSortOrderAsc"])
