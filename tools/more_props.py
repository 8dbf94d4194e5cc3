prop("P18", "Concurrent requests never race on memory",
 "Whatever clients send concurrently, whenever connections come and go and whenever the server is told to stop, no two goroutines of the server (default and v1 build) access the same memory without synchronisation where one of them writes, so no schedule on any number of cores can corrupt data, mix up replies or crash the process through a data race.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings of all goroutines, with any workload, disconnects, stalls and shutdown at any moment",
 "The tests run one client and are not built with the race detector; a race shows up only under particular schedules.",
 ["server/v2/session.go", "server/v2/server.go", "server/v1/server.go", "event/event_pool.go", "event/worker.go", "event/handler.go", "redis/command.go", "lib/shard_map/shard_map.go", "protocol/decode.go", "cmd/server/main.go"],
 [M("single execution worker", "event/event_pool.go"), M("session lock", "server/v2/session.go"), M("pool lock", "event/event_pool.go")],
 ["happens-before race reports of the real Go race detector on simulated schedules", "process liveness"],
 level_note="The race detector (vector clocks, so it needs no real parallelism) watches godis and its dependencies inside the simulator; simulator code is not instrumented, its wake-ups create no ordering, and only reports in which godis code makes an access count.")
prop("P19", "The debug build serves its prepared data completely from the start",
 "Built with the debug tag, the server has its whole prepared data set (list1, key1, key2, zset) loaded, exactly and in order, before its first client is served, whatever the scheduling and stalls during start-up, and leaves nothing of the loading running. Apart from that data it behaves like the default build: same replies, same tolerance of hostile clients and stalls, same clean stop on SIGTERM.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings and stalls of the start-up, followed by any workload",
 "No test builds with the debug tag; the loading runs before main listens and only some schedules expose it.",
 ["cmd/server/main.go", "debug/consts_debug.go", "event/handler.go", "redis/command.go", "event/event_pool.go"],
 [M("prepared data", "cmd/server/main.go"), M("debug logging", "event/handler.go")], ["first replies and final read-back against the prepared state", "goroutines left", "replies, process exit"])
prop("P20", "A failing system call costs at most what it hits",
 "If the server cannot start listening (socket, bind, listen, epoll or eventfd fails, address in use, no descriptors), its process ends by itself within a bounded time instead of lingering without a listener. If accept fails for a while (descriptor limit, aborted connection, no memory), open connections are not affected and waiting clients are served once it works again. If read or write fails on a connection, at most that connection is lost and released; every other client is answered correctly. If standard output, to which every request is printed, has no space, no client notices. In all cases the server still stops cleanly on SIGTERM.",
 ["fault_sequences", "schedules", "histories"], "any single or repeated failure of any of these calls at any occurrence, under load, disconnects and shutdown (v2 and v1)",
 "Tests cannot make a system call fail at a chosen occurrence.",
 ["cmd/server/main.go", "server/v2/server.go", "server/v2/session.go", "server/v1/server.go", "protocol/decode.go"],
 [M("start error", "cmd/server/main.go"), M("accept loop", "server/v1/server.go"), M("OnClosed", "server/v2/server.go")], ["process exit after a failed start", "replies of the connections not hit", "descriptors and goroutines afterwards"])
