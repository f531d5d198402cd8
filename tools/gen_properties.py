#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids, titles and anchors stay consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

RESP = ["the RESP reply bytes of each command"]
prop("C01", "Requests decode exactly, whatever their bytes and however they arrive",
 "Every well-formed RESP request (an array of bulk strings, or a single simple-string or bulk-string value) decodes to exactly its elements, byte for byte, including empty elements and elements that contain CR, LF, NUL or protocol marker characters. The result is the same however the underlying reader splits the bytes into reads, decoding consumes exactly the bytes of that request so that the next request in the stream decodes too, and the request text recorded with it is exactly those bytes.",
 ["inputs", "fault_sequences"], "all request shapes and element contents in a bounded alphabet, all concatenations of two requests, all ways the reader may split the stream into short reads",
 "TestDecodeFromReader decodes four fixed messages from an in-memory buffer that never returns a short read; no test has binary content, a second request in the stream or a segmented reader.",
 ["protocol/decode.go", "protocol/api.go"],
 [("length-prefixed bulk reads", "protocol/decode.go:readBulkStrings"), ("array header loop", "protocol/decode.go:readArray")],
 [("Receive.Elements / OrgStr", "decoded arguments / recorded wire text", "protocol/decode.go")],
 ["protocol.DecodeFromReader"])
prop("C02", "Malformed or truncated requests are rejected, never crash or fabricate",
 "For every byte sequence, decoding terminates without a panic and returns either an error or a request that the bytes really spell out under the RESP grammar. A request that is cut off before its last byte, has a non-numeric, negative, missing or overflowing length, a line not ended by CRLF, or a bulk body not followed by CRLF always yields an error and never a request. A hostile length never makes the decoder allocate or loop without bound before the corresponding bytes exist.",
 ["inputs"], "all byte strings up to a bounded length over the protocol alphabet, and every strict prefix and every single-byte corruption of well-formed requests",
 "Every input in the existing decoder tests is well-formed and complete; the error paths (short body, missing CR, bad digit, huge length) are never executed.",
 ["protocol/decode.go"],
 [("length parsing", "protocol/decode.go:readBulkOrArrayLength"), ("line validation", "protocol/decode.go:decodeSingleLine")],
 None, ["protocol.DecodeFromReader result or error"])
prop("C03", "Every reply is one well-formed RESP value that means what the command returned",
 "Encoding any reply yields exactly one complete RESP value: simple string, error, integer, bulk string (any bytes), nil, or array of those, with correct lengths and terminators and nothing after it. A client that parses it gets back the same kind, values, order and nil positions the reply was built from. Encoding the same reply again yields the same bytes.",
 ["inputs"], "all replies built through the public constructors with up to a bounded number of items over a bounded set of values, including empty, nil, binary, negative and extreme integers",
 "There is no encoder test at all; the e2e test only checks that some bytes come back.",
 ["protocol/encode.go", "util/strings.go"],
 [("length computation and CRLF framing", "protocol/encode.go:encode"), ("nil and empty cases", "protocol/encode.go:Encode")],
 None, ["Response.Encode bytes"])
prop("C04", "The asynchronous request stream delivers every request once, in order, then ends",
 "Reading requests asynchronously from a connection hands the consumer every complete request exactly once and in stream order, whatever the pace of reader and consumer. When the stream ends or fails, the consumer is told after at most the requests that were complete, both result channels are then closed, and the reading activity ends rather than spinning or blocking for ever while the consumer keeps receiving.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings of reader and consumer for short streams, with the stream ending by end-of-file, closed connection or another persistent read error at every position",
 "No test calls the asynchronous reader; only a scheduler-controlled run can cover its interleavings with the consumer.",
 ["protocol/decode.go"],
 [("reader goroutine with one-slot channels", "protocol/decode.go:ReceiveDataAsync")],
 None, ["ReceiveChan / ErrorChan of the asynchronous receive"])
prop("C05", "String keys always read back exactly what was last written",
 "After any sequence of SET, MSET, APPEND and deletes, GET and MGET return for every string key exactly the bytes last written, with appended bytes at the end, and nil for keys that do not exist; APPEND replies with the resulting length. MSET writes all its pairs, later pairs winning, and is rejected without effect when a value is missing. MGET replies with one entry per requested key in request order, nil for keys that are missing or not strings.",
 ["histories", "inputs"], "all command histories (closure of the reachable states) over two or three keys and values including empty and binary ones",
 "There is no test of any string command: redis/string_test.go only calls strconv.",
 ["datastruct/string.go", "redis/string.go", "lib/shard_map/shard_map.go"],
 [("string value stored per key", "datastruct/string.go:Set/Append/Get/MGet")],
 [("keys", "global key table", "datastruct/keys.go:defaultCache")], RESP)
prop("C06", "Counters are exact: an increment is applied fully or rejected unchanged",
 "INCR, DECR, INCRBY and DECRBY change the integer stored at a string key by exactly the requested amount and reply with the new value, a missing key counting as 0, and the new value reads back as its decimal text. If the stored text is not an integer, the amount is not an integer, or the result would not fit a signed 64-bit integer, the command replies with an error and the key keeps its old value (a missing key stays missing).",
 ["histories", "inputs"], "all histories over boundary values around zero and both 64-bit limits, non-integer texts and all four commands",
 "No existing test runs a counter command; overflow and rejection paths are unreachable from the suite.",
 ["datastruct/string.go", "redis/string.go"],
 [("parse, add, store as text", "datastruct/string.go:IncrBy"), ("sign handling of decrements", "redis/string.go:decrBy")],
 None, RESP)
prop("C07", "Lists behave as an ordered sequence under every operation history",
 "A list key always behaves like the sequence obtained by applying its command history to a plain array: pushes on either end, pops (with counts) from either end, index get and set with negative indices, ranges clamped to the list, insertion before or after the first matching element, and removal of the first or last n or all matching elements. Every reply (lengths, removed counts, elements and their order) matches that array, read from either end, also after the list was emptied and refilled. An index set or insertion that does not apply (bad index, pivot not found) replies with an error or non-positive number and changes nothing.",
 ["histories", "inputs"], "all reachable lists up to a bounded length over two or three element values, every command with every relevant index, count and pivot in each of them",
 "list_test.go checks fixed lists once, never continues after a removal, never walks the list backwards after an edit, and never goes through the commands.",
 ["datastruct/list.go", "redis/list.go"],
 [("doubly linked list relinking", "datastruct/list.go"), ("argument handling", "redis/list.go")],
 [("head/tail/length", "the linked sequence", "datastruct/list.go:List")], RESP)
prop("C08", "Hashes behave as a field-to-value map with a correct field count",
 "A hash key always behaves like a map from field to value: values set by HSET, HMSET or HSETNX (which writes only an absent field) are read back with the same text by HGET, HMGET, HVALS and HGETALL; HEXISTS, HKEYS and HLEN agree with the fields present; HDEL removes exactly the named fields and replies with how many it removed. Hashes come into existence on first write. HSET replies with the number of field/value pairs written.",
 ["histories", "inputs"], "all reachable hashes over a small field and value universe (numeric-looking and plain texts), all commands in each state",
 "hash_table_test.go calls internal set/incr helpers on a detached table once each; no command, deletion, existence, counting or creation path is tested.",
 ["datastruct/hash_table.go", "redis/hash_table.go", "util/strconv.go"],
 [("field table and separate length counter", "datastruct/hash_table.go"), ("value typing on write, text on read", "util/strconv.go, redis/hash_table.go")],
 [("length", "number of fields", "datastruct/hash_table.go:hashTable")], RESP)
prop("C09", "Hash field increments are exact or rejected without effect",
 "HINCRBY adds exactly the given integer to an integer field and HINCRBYFLOAT adds the given number to a floating-point field, creating the hash and field when absent, replying with the new value that HGET then returns and HLEN counts once. A field of another kind, a malformed amount, a result outside the signed 64-bit range or one which is not finite gives an error and leaves hash, field and field count as they were.",
 ["histories", "inputs"], "all reachable hashes over fields holding boundary integers, floats and texts, with increments crossing zero and both limits",
 "The unit tests increment a detached table once per case and never look at the field count, the key or the command reply.",
 ["datastruct/hash_table.go", "redis/hash_table.go", "lib/shard_map/shard_map.go"],
 [("upsert with abort", "lib/shard_map/shard_map.go:Upsert"), ("typed addition", "datastruct/hash_table.go:incrBy/incrByFloat")],
 None, RESP)
prop("C10", "Sets hold each member once and membership, count and removal always agree",
 "A set key behaves as a mathematical set: SADD and SREM reply with the number of members actually added or removed, SISMEMBER, SCARD and SMEMBERS agree with the members present, SPOP removes and returns the requested number of distinct members (one by default, all if fewer), and SMOVE moves a member between sets atomically. SMOVE of a non-member, or to a destination of another type, leaves both keys unchanged.",
 ["histories", "inputs"], "all reachable pairs of sets over a small member universe with forced shard collisions, every command in each state, and every choice of popped members",
 "All of datastruct/set_test.go is commented out; no set command is ever executed by the suite.",
 ["datastruct/set.go", "redis/set.go", "lib/shard_map/shard_map.go"],
 [("member table and separate length counter", "datastruct/set.go:set"), ("pop by range-and-delete", "datastruct/set.go:sPop")],
 [("length", "number of members", "datastruct/set.go:set")], RESP)
prop("C11", "Set difference, intersection and union are exact and stored results independent",
 "SDIFF, SINTER and SUNION over any one or more keys return exactly the mathematical result, a missing key counting as the empty set and the same key being allowed several times. The STORE forms put exactly that result at the destination, replacing whatever was there (also when the destination is one of the sources), reply with its size, and leave no key behind when it is empty. The sources are not changed, and later changes to a source or to the destination never show up in the other.",
 ["histories", "inputs"], "all triples of small sets (including missing and equal ones), all operand lists up to three keys, store destinations that are sources, followed by further writes",
 "No test runs any set-algebra command; aliasing between stored result and source needs a multi-step history to show.",
 ["datastruct/set.go", "redis/set.go"],
 [("pairwise folding of operands", "datastruct/set.go:SDiff/SInter/SUnion"), ("storing the result set", "datastruct/set.go:SDiffStore/SInterStore/SUnionStore")],
 None, RESP)
prop("C12", "Sorted sets keep one score per member, in step across every access path",
 "After any history of ZADD (with NX, XX or INCR), ZINCR, ZREM, ZPOPMIN and ZPOPMAX, each member is present exactly once with its last score: ZSCORE, ZCARD, ZRANGE with scores and pops all agree, removed or popped members are gone everywhere and can be added again, and pops return the lowest or highest members with their scores and nothing else. ZADD replies with the number of members added or whose score changed, ZINCR with the new score, ZREM with the number removed. Scores that are not numbers (including NaN) are rejected without effect, and all of this holds whatever the internal randomisation does.",
 ["histories", "inputs"], "all reachable sorted sets over a small member and score universe, for every tower height the random level generator may give each node up to a bound",
 "sorted_set_test.go inserts one fixed set and only reads it; nothing is ever removed or popped, and the random tower heights are whatever the run happens to draw.",
 ["datastruct/sorted_set.go", "redis/sorted_set.go"],
 [("member table pointing at node scores", "datastruct/sorted_set.go:zSet.m"), ("skip list with random levels", "datastruct/sorted_set.go:insert/deleteNode/updateScore")],
 [("m / zsl", "member-to-score table / ordered skip list", "datastruct/sorted_set.go:zSet")], RESP)
prop("C13", "Sorted set order, rank and index ranges are consistent",
 "Members are always ordered by ascending score, ties by member text. ZRANGE returns exactly the members at the given positions of that order, and ZREVRANGE those of the exact reverse order, with negative positions counting from the end and out-of-range positions clamped; with WITHSCORES each member is followed by its score. ZRANK is the zero-based position of the member in the ascending order, so that ranging at a member's rank returns that member, and nil for a non-member.",
 ["histories", "inputs"], "all reachable sorted sets up to a bounded size with ties and score updates, every tower-height assignment up to a bound, every pair of positions around the ends",
 "One fixed six-member set without ties is ranged with six position pairs; reverse ranges, rank through the command, ties and post-update order are untested.",
 ["datastruct/sorted_set.go", "redis/sorted_set.go"],
 [("span bookkeeping", "datastruct/sorted_set.go:insert/deleteNode/findElementByRank/rank"), ("in-place score update", "datastruct/sorted_set.go:updateScore")],
 None, RESP)
prop("C14", "Score ranges select exactly the members inside the interval",
 "ZCOUNT, ZRANGEBYSCORE and ZRANGE BYSCORE select exactly the members whose score lies in the interval from min to max, each bound inclusive, or exclusive when prefixed with '(', or infinite (-inf, +inf), in ascending order. Bounds need not be scores in the set, several members may share a score, and an interval containing no member (including min above max) gives zero or an empty reply. A malformed bound gives an error.",
 ["histories", "inputs"], "all sorted sets up to a bounded size over a small score grid with ties, all bounds on, between and outside the grid points, open, closed and infinite, every tower-height assignment up to a bound",
 "The existing cases use one set with distinct scores and bounds chosen on its members; ties, bounds between scores, empty intervals and single infinities are not covered.",
 ["datastruct/sorted_set.go", "redis/sorted_set.go"],
 [("rank of first and last in range", "datastruct/sorted_set.go:minScoreRank/maxScoreRank/count/zRangeByScore"), ("bound parsing", "datastruct/sorted_set.go:handleFloatScoreStr")],
 None, RESP)
prop("C15", "A command for one data type never touches a key of another type",
 "A command that works on a string, list, hash, set or sorted set and is applied to an existing key of a different type replies with an error, and leaves every key exactly as it was. The exceptions are SET and MSET and the destination of set STORE commands, which replace the key whatever its type, and MGET, which reports such a key as nil.",
 ["inputs", "histories"], "every implemented key command, with every argument shape, against a key of every other type, in every operand position",
 "No test ever applies a command to a key of another type.",
 ["datastruct/keys.go", "datastruct/string.go", "datastruct/list.go", "datastruct/hash_table.go", "datastruct/set.go", "datastruct/sorted_set.go", "redis"],
 [("type tag check on load", "datastruct/keys.go:loadKeyInfo"), ("error to reply mapping", "redis/*.go")],
 None, RESP)
prop("C16", "Key existence, type, listing and deletion always agree",
 "A key exists exactly while it holds a value: EXISTS, TYPE and KEYS * agree for every key at every moment, TYPE naming the type of the commands that filled it (string, list, hash, set, zset) or none. A collection whose last element is removed, popped or moved away ceases to exist, so its name can be reused with any type. DEL removes exactly the named keys whatever their type and replies with how many existed, EXISTS counts how many of the named keys exist, and a key created again after a delete starts empty.",
 ["histories"], "all reachable key spaces over a few keys and all five types with collections of up to two elements, every creating, emptying and deleting command",
 "No test covers EXISTS, TYPE, KEYS or DEL, nor a collection that becomes empty.",
 ["datastruct/keys.go", "redis/keys.go", "datastruct/list.go", "datastruct/set.go", "datastruct/hash_table.go", "datastruct/sorted_set.go"],
 [("global key table", "datastruct/keys.go:defaultCache"), ("type names", "datastruct/consts.go")],
 None, RESP)
prop("C17", "A command changes only the keys it names",
 "Executing any command never changes the value, type or existence of any key that is not among its arguments, and a command that only reads changes nothing at all. Two keys never share a value: a later change through one key name is never visible through another.",
 ["histories", "inputs"], "every command from every small multi-type key space, with full dumps of bystander keys before and after, keys chosen to collide in the internal table",
 "No test has more than one key, and none compares the rest of the key space before and after a command.",
 ["datastruct/keys.go", "datastruct/set.go", "lib/shard_map/shard_map.go"],
 [("sharded key table", "lib/shard_map/shard_map.go:GetShard"), ("per-key value objects", "datastruct/keys.go:KeyInfo")],
 None, RESP)
prop("C18", "Any command with any arguments gets one reply and never crashes the server",
 "For every command name, known or unknown, and every argument list (missing, surplus, empty, non-numeric, extreme or malformed), executing the command terminates, does not panic and yields exactly one encodable reply. Too few arguments, unparsable numbers and unknown commands yield an error reply. A command that yields an error reply leaves the whole key space unchanged.",
 ["inputs", "histories"], "every implemented command (and unknown names) with every argument list up to a bounded length over a hostile argument alphabet, in several start states",
 "No test calls a command with wrong arguments; a panic in a command goroutine terminates the whole process and no test would notice.",
 ["redis", "datastruct", "protocol/encode.go"],
 [("arity checks", "redis/*.go"), ("error to reply mapping", "redis/command.go:setRsp")],
 None, RESP)
prop("C19", "Concurrent commands take effect one at a time, atomically",
 "When several clients issue commands at the same time, the replies and the final data are those of some one-at-a-time execution of the same commands that respects each client's own order and never reorders a command before one that had already been answered. No increment, push, pop, add or move is lost, duplicated or seen half done.",
 ["schedules", "histories"], "all interleavings, up to a stated deviation bound, of two or three clients issuing one or two conflicting commands each, with scheduling points at every synchronisation operation and at every statement of the command implementations",
 "No test runs two commands concurrently; the data structures have no locks and rely entirely on being executed by one worker.",
 ["event/event_pool.go", "event/worker.go", "event/handler.go", "redis/command.go", "datastruct"],
 [("single worker draining the event channel", "event/worker.go:run"), ("request waits for its event", "event/handler.go:HandleRequest")],
 [("eventChan", "queue of pending commands", "event/event_pool.go:EventPool")],
 ["event.HandleRequest call/return history"])
prop("C20", "Every request gets exactly one reply, and it is its own",
 "Each request handed to the request handler returns exactly one reply, and it is the reply to that very request, no matter how many other requests are in flight, how they are scheduled, or how their commands fail. Requests never deadlock each other.",
 ["schedules"], "all interleavings, up to a stated deviation bound, of several requests with pairwise distinguishable replies, including failing and unknown commands",
 "The e2e test sends one request at a time and ignores the content of the replies.",
 ["event/handler.go", "event/event.go", "event/worker.go", "redis/command.go"],
 [("per-event done channel and response slot", "event/event.go"), ("result channel per command", "redis/command.go:ExecuteAsync")],
 None, ["event.HandleRequest return value"])
prop("C21", "Stopping is graceful: accepted requests are answered, nothing hangs or crashes",
 "When the server's request processing is stopped while requests are in flight, every request already accepted is executed and gets its real reply before stopping completes, stopping itself always completes, and nothing panics. A request that arrives during or after the stop gets an error reply or a real reply promptly; it neither hangs, nor is left to time out, nor crashes the process.",
 ["schedules"], "all interleavings, up to a stated deviation bound, of a stop with one to three requests at every stage of processing, and requests issued after the stop",
 "The e2e test stops an idle server; the race between stop and in-flight requests needs particular schedules.",
 ["event/event_pool.go", "event/worker.go", "event/handler.go", "server/v2/server.go"],
 [("closing the event queue and waiting for workers", "event/event_pool.go:Stop"), ("worker drain loop", "event/worker.go:run")],
 None, ["event.Stop, event.HandleRequest"])
prop("C22", "A request that times out gets a timeout error and harms nobody else",
 "If a command has not been answered within the request timeout, its request returns a timeout error reply instead of hanging; otherwise it returns the command's own reply. The timed-out command still takes effect at most once, its late result is never delivered to another request, and later requests are processed normally.",
 ["schedules"], "all interleavings, up to a stated deviation bound, of two or three requests with the timeout firing at any point relative to queueing and execution",
 "The timeout is ten seconds of real time; no test reaches it, and only a controlled clock can place it at every point.",
 ["event/handler.go", "event/worker.go", "event/event.go"],
 [("select on context and event completion", "event/handler.go:HandleRequest")],
 None, ["event.HandleRequest return value under a virtual clock"])
prop("C23", "Each connection gets one reply per request, in order, however its bytes arrive",
 "On a server connection, every complete request of the byte stream gets exactly one reply, replies come back in the order of the requests, and the commands of one connection are executed in that order, whether requests arrive one per packet, several in one packet, or cut at any byte across packets. Replies go to the connection that sent the request. Nothing another connection sends, and no disconnect, disturbs this.",
 ["schedules", "inputs", "fault_sequences"], "all segmentations of short pipelined request streams on one or two connections and all interleavings, up to a stated deviation bound, of event loop, worker pool and command worker, with a disconnect at any point",
 "The e2e test sends one complete request per connection and waits for the answer; pipelining, split packets and ordering never occur.",
 ["server/v2/server.go", "protocol/decode.go", "event/handler.go"],
 [("frame handling and asynchronous reply", "server/v2/server.go:React")],
 None, ["bytes written to each connection"])
prop("C24", "The goroutine-per-connection server serves, isolates and stops correctly",
 "With the alternative server (build tag v1), every complete request on a connection gets exactly one reply in order however its bytes are split; a client that disconnects, sends garbage or whose socket fails at any moment ends only its own connection and never crashes the process. After a stop, the server no longer accepts connections, every connection handler ends and the call that started the server returns.",
 ["schedules", "fault_sequences", "inputs"], "all interleavings, up to a stated deviation bound, of accept loop, connection handlers, reader goroutines and stop, with read and write faults and disconnects at every position of short request streams",
 "The v1 package is only compiled; no test ever runs it.",
 ["server/v1/server.go", "protocol/decode.go", "event/handler.go"],
 [("per-connection select loop", "server/v1/server.go:handleConn"), ("accept loop and wait group", "server/v1/server.go:handleListener")],
 None, ["bytes written to each connection, Start/Stop return"])
prop("C25", "The sharded map is a map",
 "The sharded map behaves like one plain map from string to value under every sequence of its operations: lookups, conditional and unconditional writes, conditional and unconditional deletes, load-and-delete, upsert with abort (which leaves the map as it was), iteration with early stop, iteration with deletion, and key and item listings all return and leave behind what the plain map would. Listings are copies that later writes do not change.",
 ["histories", "inputs"], "closure of all reachable maps over a small key universe with keys in the same and different shards, all operations with all callback behaviours in each state",
 "The package has no tests.",
 ["lib/shard_map/shard_map.go"],
 [("hash to shard, per-shard Go map", "lib/shard_map/shard_map.go:GetShard")],
 None, ["smap.Map methods"])
prop("C26", "KEYS returns exactly the existing keys that match the pattern",
 "KEYS with a pattern made of literal characters, '*' (any sequence), '?' (any one character), character classes, alternatives in braces like {a,b} and backslash-escaped characters returns each existing key that matches the whole pattern exactly once and no other key. A malformed pattern yields a reply (an error or a listing) and never crashes the server.",
 ["inputs", "histories"], "all patterns up to a bounded length over a small alphabet including the wildcards, brackets, braces and backslash, against all keys up to a bounded length",
 "No test calls KEYS; the pattern goes straight into a compiler that panics on malformed input.",
 ["datastruct/keys.go", "redis/keys.go"],
 [("glob compilation and full-table scan", "datastruct/keys.go:Keys")],
 None, RESP)
prop("C27", "Every command is dispatched under its documented name, case-insensitively",
 "Each implemented command is reachable by its own name in any mixture of upper and lower case and runs its own handler; any other name is answered with an unknown-command error without effect. The command table generator emits, for any handler source file, exactly one entry per handler function, named by the handler's comment or else by the function, so that regenerating the checked-in tables reproduces them.",
 ["inputs", "programs"], "all case variants of every command name, all near-miss names, and all small handler source files up to a bounded number of lines from a line alphabet",
 "The only generator test matches one regular expression; no test sends a mixed-case or unknown command or regenerates a table.",
 ["redis/command.go", "redis/*.cmd.go", "cmd/gen_redis_cmd/main.go"],
 [("lower-casing dispatch table", "redis/command.go:NewCommandFromReceive"), ("line scanner and template", "cmd/gen_redis_cmd/main.go")],
 None, ["reply to each name; generated file text"])
prop("C28", "Configuration is replaced atomically and falls back to defaults",
 "After any sequence of configuration loads, the effective default timeout is that of the last load that succeeded, or five seconds when that load left it unset or none succeeded. A load that fails reports an error and changes nothing.",
 ["histories", "inputs"], "all sequences up to a bounded length of loads of valid, partial, empty and malformed documents",
 "The package has no tests.",
 ["config/config.go"],
 [("decode into a fresh value, then publish", "config/config.go:InitConfig")],
 None, ["config.GetDefaultTimeout"])
prop("C29", "The server process serves until it is told to stop, then ends gracefully",
 "The server process listens on the address of its -addr option (tcp://:7379 by default), starts empty (a debug build: with its prepared data in place before it serves) and keeps serving until it receives SIGTERM, SIGINT or SIGQUIT. Whenever such a signal arrives after the process has begun to handle signals, even while the server is still starting or is stopping already, the server is stopped gracefully and the process ends: not before the server has stopped and not in the middle of a command. When the server cannot start, the process ends.",
 ["schedules", "configurations", "fault_sequences"], "all placements of one or two signals in the life of the process, for every way the start can go, and all interleavings up to a bounded number of preemptions",
 "No test runs the main program; a signal at an unlucky moment is a race a test would not hit.",
 ["cmd/server/main.go", "server/v2/server.go"],
 [("signal handling and the wait for the end", "cmd/server/main.go:main"), ("stop of a server which is starting", "server/v2/server.go:Stop"), ("prepared data", "cmd/server/main.go:insertPreData")],
 None, ["end of the process, address served, replies at start"])

prop("C30", "Diagnostics are exact and harmless: the command log and the debug build",
 "Every request handed to the request handler is written to the command log (the standard output) exactly once by the time it is answered, byte for byte as it was received, whatever bytes it holds and however many requests are handled at the same time; the requests of one client appear in the order they were made. A debug build, which also logs requests and replies, gives the replies of a release build and has the same effects on the data, for every request and every reply.",
 ["inputs", "schedules", "configurations"], "all requests up to a bounded number of elements of an alphabet with line ends, format directives and binary bytes, every command in its usual and damaged forms in a debug build, and all interleavings of several clients up to a bounded number of delays",
 "No test reads what is logged, and no test runs a debug build.",
 ["persistence/persistence.go", "event/handler.go", "debug/strings.go", "protocol/decode.go"],
 [("command log", "persistence/persistence.go:WriteCommand"), ("debug output of requests and replies", "event/handler.go:HandleRequest"), ("text kept with a request", "protocol/decode.go:Receive.OrgStr")],
 None, ["lines written to the standard output; replies"])
prop("C31", "Serving leaves nothing behind",
 "When a request has been answered and when a connection has ended, however it ended (the client closes or resets it in the middle of a request, sends garbage, or stops reading so that replies cannot be written), nothing remains that worked for it: no goroutine, no armed timer and no bookkeeping. What the server holds depends on the data stored and on the connections that are open, not on how many requests or connections it has served: repeating a history which leaves the data unchanged, on new connections or on one which stays open, does not make its memory, its goroutines or its timers grow. This includes requests which are refused because the server is stopping.",
 ["histories", "inputs", "schedules"], "all sequences of commands of a type up to a bounded length, every command in usual and shortened forms, all pairs of ways in which connections begin and end, every way of cutting requests into packets, repeated up to 1500 times with the memory reachable from the server weighed; all interleavings of connections up to a bounded number of delays",
 "A test serves a few requests and ends; what stays behind shows only after very many of them, or on the paths a test does not take.",
 ["event/handler.go", "event/worker.go", "server/v1/server.go", "server/v2/server.go", "protocol/decode.go", "datastruct"],
 [("deadline of a request", "event/handler.go:HandleRequest"), ("reader of a connection", "protocol/decode.go:ReceiveDataAsync"), ("end of a connection", "server/v1/server.go:handleConn"), ("queue and unfinished bytes of a connection", "server/v2/server.go:session")],
 None, ["bytes reachable from the package variables, the server and its open connections; goroutines and timers of the code under test"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
