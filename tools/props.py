#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), level_note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, state=state, note=level_note))
M = lambda n, w: dict(name=n, where=w)
S = lambda n, m, w: dict(name=n, meaning=m, where=w)
WIRE = ["server/v2/server.go", "server/v2/session.go", "protocol/decode.go", "protocol/encode.go", "event/handler.go", "event/event_pool.go", "event/worker.go", "redis/command.go"]
SIMNOTE = ("Seeded search, not a proof: every run executes the real main program, gnet, worker pools and command code in one process "
           "under a deterministic scheduler, virtual clock and simulated sockets/epoll. Trusted: the simulated kernel's TCP/epoll model, "
           "the small reference model, and that statement-level preemption is a fine enough interleaving grain. ")

prop("P01", "Every request gets exactly one well-formed reply, in request order",
 "On any connection, each complete request the client sends is answered by exactly one well-formed RESP reply, and the replies come back in the order of the requests, however the requests are pipelined, batched or cut into packets and whatever the other connections do. No reply is lost, doubled, merged, delivered to another connection or answered with another request's result, a reply does not have to wait for something else to happen on the connection or for a timer to come, and the server does not hang up on a client that keeps to the protocol, not even one that is idle for hours or sends slowly. An unknown command, a wrong argument or an execution error is answered with an error reply like any other request.",
 ["inputs", "schedules", "fault_sequences"], "all pipelines, packet boundaries, numbers of connections, thread schedules, network delays, losses, short reads and partial writes",
 "The tests send one request per round trip over one loopback connection; they never pipeline, never split a request over packets, never run two connections and control no schedule.",
 WIRE, [M("per-connection receive buffer and serial handling", "server/v2/session.go"), M("request decoder", "protocol/decode.go"), M("reply encoder", "protocol/encode.go"), M("request/reply pairing", "event/handler.go")],
 ["the byte stream each client receives"], [S("session data", "received but unhandled bytes of a connection", "server/v2/session.go")])
prop("P02", "Arguments are binary safe and independent of packet boundaries",
 "Keys, values, list elements, set members, hash fields and sorted-set members are arbitrary byte strings of any length the protocol admits, including empty ones and ones that contain CR, LF, NUL, invalid UTF-8 or text that looks like protocol. Elements that come as simple strings, errors or integers, which the decoder accepts as well, mean the same. What a client stores is returned byte for byte, and the effect and the replies do not depend on how the stream was cut into packets, reads or writes.",
 ["inputs", "fault_sequences", "schedules"], "all byte strings as arguments and all segmentations of the stream in both directions",
 "The tests use short ASCII words that arrive in a single packet; splits inside a length line, inside a value or inside CRLF never occur.",
 WIRE + ["util/strings.go", "datastruct/string.go", "datastruct/hash_table.go"], [M("length-prefixed decoding", "protocol/decode.go"), M("reply encoding", "protocol/encode.go")],
 ["replies to reads of what was written"])
TYPED = "Concurrent clients see the commands take effect one at a time: every history of requests and replies equals some sequential execution of the reference model that respects real time and each connection's request order. "
for id, title, cmds, extra, f in [
 ("P03", "String and counter commands are linearizable against the sequential model",
  "SET, GET, MSET, MGET, INCR, DECR, INCRBY, DECRBY, APPEND",
  "SET replaces a value of any type; counters are exact 64-bit signed integers, a missing key counts as 0, and an operation whose argument or stored value is no integer or whose result does not fit is an error and changes nothing; MGET answers nil for a missing key or another type; MSET sets all pairs; APPEND creates or extends and returns the new length.",
  ["datastruct/string.go", "redis/string.go", "util/strconv.go"]),
 ("P04", "List commands are linearizable against the sequential model",
  "LPUSH, RPUSH, LPOP, RPOP (with and without count), LLEN, LINDEX, LRANGE, LSET, LREM, LINSERT",
  "A list is an ordered sequence: pushes add at the named end in argument order, pops remove and return from the named end, negative indexes count from the tail and ranges are clipped, LREM removes count occurrences in the direction of its sign, and lengths always equal the number of elements.",
  ["datastruct/list.go", "redis/list.go"]),
 ("P05", "Set commands are linearizable against the sequential model",
  "SADD, SREM, SISMEMBER, SMEMBERS, SCARD, SPOP, SMOVE, SDIFF, SINTER, SUNION and their STORE forms",
  "A set holds each member once: counts report real changes, SPOP removes exactly what it returns, SMOVE never loses or doubles a member, set algebra treats missing keys as empty, and a STORE replaces the target by a result that is independent of its sources, or removes it when the result is empty.",
  ["datastruct/set.go", "redis/set.go"]),
 ("P06", "Hash commands are linearizable against the sequential model",
  "HSET, HMSET, HSETNX, HGET, HMGET, HGETALL, HKEYS, HVALS, HLEN, HEXISTS, HDEL, HINCRBY, HINCRBYFLOAT",
  "A hash maps fields to values: writes and deletions report what they added or removed, HGETALL lists exactly the present fields with their last values, HSETNX never overwrites, and increments are exact, start from 0 and are errors without effect when argument, stored value or result is not a valid number.",
  ["datastruct/hash_table.go", "redis/hash_table.go"]),
 ("P07", "Sorted-set commands are linearizable against the sequential model",
  "ZADD (with NX, XX, INCR), ZINCR, ZREM, ZSCORE, ZCARD, ZRANK, ZCOUNT, ZRANGE and ZREVRANGE (WITHSCORES, BYSCORE), ZRANGEBYSCORE (with exclusive and infinite bounds), ZPOPMIN, ZPOPMAX",
  "Members are unique and always ordered by (score, member) under any sequence of inserts, score changes and removals, at every size; ranks, ranges, counts and pops all agree with that one order, and scores are never NaN.",
  ["datastruct/sorted_set.go", "redis/sorted_set.go"])]:
    prop(id, title,
     f"{cmds}: every reply and the final contents are those of a sequential reference model of the Redis data type. " + TYPED + extra,
     ["histories", "schedules", "inputs", "fault_sequences"], "all sequences of these commands with all arguments, from any number of concurrent clients, under all schedules and network behaviours",
     "The tests check a few fixed examples per function, single-threaded, mostly on fresh keys; they reach no long operation sequences, no interleavings and hardly any boundary.",
     f + ["datastruct/keys.go", "lib/shard_map/shard_map.go", "event/worker.go"],
     [M("data structure", f[0]), M("command parsing and replies", f[1]), M("single execution worker", "event/worker.go")], ["replies", "a full read-back of every key at the end of the run"])
prop("P08", "One keyspace: existence, type, deletion and listing always agree",
 "At every moment each key either does not exist or exists with exactly one type, and EXISTS, TYPE, DEL, KEYS and every typed command agree on it. A command of another type on a key is an error (or the documented nil) and leaves the key untouched; SET replaces any type; DEL and EXISTS count every key given; a list, set, hash or sorted set whose last element is removed, by whatever command, no longer exists; KEYS lists exactly the existing keys that match.",
 ["histories", "schedules", "inputs"], "all sequences of commands over keys of all types, from concurrent clients, over all shards",
 "Each test uses its own key and one type; cross-type histories, emptied containers and multi-key forms are not exercised.",
 ["datastruct/keys.go", "lib/shard_map/shard_map.go", "redis/keys.go", "datastruct/list.go", "datastruct/set.go", "datastruct/hash_table.go", "datastruct/sorted_set.go"],
 [M("key table", "lib/shard_map/shard_map.go"), M("type check", "datastruct/keys.go")], ["replies", "final read-back with every command on every key"], [S("cache", "key to typed value", "datastruct/keys.go")])
prop("P09", "Commands that touch several keys or elements are atomic",
 "A command that reads or writes several keys or several elements (MSET, MGET, DEL, EXISTS, SMOVE, set algebra and its STORE forms, multi-element push, pop, HSET and ZADD) takes effect at one instant: no concurrent client ever sees part of it. Elements moved or popped by concurrent clients are neither lost nor duplicated, and no increment is lost.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of multi-key commands and readers at statement granularity",
 "The tests have no concurrent clients at all.",
 ["event/event_pool.go", "event/worker.go", "event/handler.go", "redis/command.go", "datastruct/string.go", "datastruct/set.go"],
 [M("single execution worker", "event/event_pool.go"), M("worker waits for each command", "event/worker.go")], ["replies of concurrent readers", "final contents"])
prop("P10", "No input and no disconnect can crash the server or disturb other clients",
 "Whatever bytes a client sends (malformed, oversized or negative lengths, nested or truncated requests, garbage, odd KEYS patterns) and however it leaves (close, half close, reset, in the middle of a request or without reading its replies), the process keeps running, memory and processor use stay bounded, and other clients are answered correctly and promptly. A connection whose stream cannot be a request is answered with an error or closed, not left hanging, and nothing after the malformed bytes is executed wrongly.",
 ["inputs", "schedules", "fault_sequences"], "all byte streams and all disconnect points, concurrently with honest clients",
 "The tests send only well-formed requests and never disconnect early.",
 ["protocol/decode.go", "server/v2/session.go", "server/v2/server.go", "redis/command.go", "redis/keys.go"],
 [M("length validation", "protocol/decode.go"), M("panic recovery", "redis/command.go"), M("connection close handling", "server/v2/session.go")], ["process liveness", "other clients' replies", "the hostile connection's end"])
prop("P11", "A refused command changes nothing",
 "A request that is answered with an error, because of its command name, number of arguments, argument values, key type, or a result that is out of range, leaves every key exactly as it was: no key is created, changed, removed or re-typed, not even partly.",
 ["inputs", "histories", "schedules"], "all invalid requests in all reachable states",
 "The tests check a handful of error returns and never look at the state afterwards.",
 ["redis/string.go", "redis/list.go", "redis/set.go", "redis/hash_table.go", "redis/sorted_set.go", "redis/keys.go", "datastruct/string.go", "datastruct/hash_table.go", "datastruct/sorted_set.go"],
 [M("argument validation before change", "redis/*.go")], ["reads after each error", "final read-back"])
prop("P12", "Stalled execution is bounded: everybody is answered, nothing runs twice",
 "When execution stalls, even for longer than the server's 10 second limit, every waiting client still gets exactly one reply (its result or an error) soon after the limit, a request answered with a timeout takes effect at most once, and results computed late are never delivered to another request. After the stall ends the server serves new requests normally and no goroutine, connection or queue slot stays behind.",
 ["schedules", "fault_sequences"], "stalls of any goroutine at any statement for 1 ms to 60 s, with any load",
 "Tests run in real time and cannot stall a goroutine at a chosen point.",
 ["event/handler.go", "event/event_pool.go", "event/worker.go", "redis/command.go"],
 [M("request timeout", "event/handler.go"), M("result hand-over", "redis/command.go")], ["replies and their virtual times", "final contents", "goroutines left"])
prop("P13", "SIGTERM or SIGINT stops the server cleanly at any moment",
 "After a termination signal (SIGTERM or SIGINT) at any moment, also during start-up, under load, or a second one, the process ends by itself within a bounded time, without a crash and with exit status 0. Every request the server had taken in before the signal is executed and answered before its connection is closed, and no reply is cut off.",
 ["schedules", "crash_points", "fault_sequences"], "all moments of the signal relative to all server activity, with slow, idle and hostile connections present",
 "The tests never stop the server.",
 ["cmd/server/main.go", "server/v2/server.go", "server/v2/session.go", "event/event_pool.go"],
 [M("signal handling", "cmd/server/main.go"), M("drain", "server/v2/server.go"), M("event pool stop", "event/event_pool.go")], ["replies before the end of each connection", "process exit"])
prop("P14", "Slow, idle, partitioned or greedy clients do not hold up the others",
 "Clients that stay idle, stop in the middle of a request, ask for much data and do not read it, lose their network for a while, or send thousands of requests at once do not delay the requests of other clients beyond a small bound: nobody waits for the whole backlog of another connection. Once such a client reads again or its network heals, it receives every reply it is due, complete and in order.",
 ["schedules", "fault_sequences"], "all mixes of slow, idle and partitioned clients, window sizes and partition times",
 "Tests have one fast client on loopback.",
 ["server/v2/server.go", "server/v2/session.go", "event/handler.go"], [M("asynchronous writes", "server/v2/session.go"), M("event loops", "server/v2/server.go")], ["virtual latency of the honest clients", "late replies of the slow ones"])
prop("P15", "Connections and deleted data leave nothing behind",
 "After any sequence of connections, requests and disconnects (orderly, half-closed, reset, in the middle of a request, during execution), every descriptor, goroutine and per-connection state the server took for them is released within a bounded time, and new connections are served. Memory does not grow with the number of past connections or requests (answered, refused or unknown), and values that were deleted, popped or overwritten are not held on to.",
 ["histories", "schedules", "fault_sequences"], "all numbers and orders of connects and disconnects at all points of a request, all ways to delete data",
 "Tests open one connection and never look at resources.",
 ["server/v2/server.go", "server/v2/session.go", "event/handler.go"], [M("OnClosed", "server/v2/server.go"), M("session close", "server/v2/session.go")], ["simulated descriptor table", "goroutine profile after everybody left", "live heap after everybody left"])
prop("P16", "The goroutine-per-connection server (v1) serves, survives and cleans up",
 "The v1 server (package server/v1, build tag v1, started and stopped through its Start and Stop as cmd/server does) gives every request exactly one reply in order with binary-safe arguments under any segmentation, answers all that came before malformed bytes or before the client shuts down its sending side, survives any malformed input and any disconnect without affecting other clients, is not held up by slow, idle or non-reading clients, and releases every connection and goroutine afterwards.",
 ["inputs", "schedules", "fault_sequences"], "as P01, P02, P10, P14 and P15, for the v1 server",
 "No test builds the v1 server.",
 ["server/v1/server.go", "server/v1.go", "protocol/decode.go", "event/handler.go"], [M("receive loop", "protocol/decode.go"), M("connection handler", "server/v1/server.go")], ["client byte streams", "descriptors and goroutines"])
prop("P17", "The v1 server stops cleanly on SIGTERM at any moment",
 "The v1 server (package server/v1, build tag v1, run by Start and told to Stop on the signal as cmd/server does) ends by itself within a bounded time after a termination signal (SIGTERM or SIGINT) at any moment, without a crash, also with idle, slow or hostile connections open, and requests it had received completely before the signal are answered first.",
 ["schedules", "crash_points", "fault_sequences"], "as P13, for the v1 server",
 "No test builds or stops the v1 server.",
 ["cmd/server/main.go", "server/v1/server.go", "event/event_pool.go", "protocol/decode.go"], [M("Stop", "server/v1/server.go")], ["process exit", "replies before it"])
exec(open(os.path.join(here, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(here, 'tools', 'more_props.py')) else None
NA = []
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=p['mech'], observe_at=p['observe'], hook_needed=None)
        if p['state']: a['state'] = list(p['state'])
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=a)) + "\n")
        assert len(p['title']) <= 80, p['title']
m = dict(version=1, setup_cmd="./check.sh setup",
 checks=[dict(property=p['id'], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
   technique="deterministic simulation with fault injection: seeded search over schedules, network and fault sequences",
   level="exploration", level_note=SIMNOTE + p['note']) for p in P],
 not_applicable=NA,
 notes="No hooks in /repo: seams are the system-call layer (golang.org/x/sys/unix under gnet, package net and os/signal under godis), the Go runtime's scheduler and clock (GOROOT overlay), and yield points added to a generated copy of the sources at build time.")
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
