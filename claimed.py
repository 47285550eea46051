NA = {}
CLAIMED["C01"] = (T_HIST, "Bound: sequences of 5 (memory) and 4 (Redis) lifecycle operations over two tickets, two longer in the thorough tier.")
CLAIMED["C02"] = (T_SCHED, "Bound: 2 deviations from the deterministic schedule (3 in the thorough tier), all lifecycle operations running against the snapshot of InvokeMMF.")
CLAIMED["C03"] = (T_FAULT, "Bound: every single fault position of a request (two in the thorough tier) in a faulty store, and dial, write, reject and read faults of the Redis connection.")
CLAIMED["C04"] = (T_SCHED, "Bound: 2-3 deviations, 2-3 concurrent requests of up to 3 updates, batches of 1-3 updates, both storages, faults of single updates.")
CLAIMED["C05"] = (T_SCHED, "Bound: 1-2 deviations, two instances over one Redis, connection losses at every read; instances started before and after the history.")
CLAIMED["C06"] = (T_INPUT, "Bound: all combinations of the enumerated ticket fields and time stamps, through both storages.")
CLAIMED["C07"] = (T_INPUT, "Bound: all combinations of the enumerated filters, bounds and ticket values (every representative of an equivalence class of the filter semantics, NaN and infinities included).")
CLAIMED["C08"] = (T_INPUT, "Bound: a grid of creation times and creation-time filters around the boundaries. Three known findings (see known_findings.txt).")
CLAIMED["C09"] = (T_INPUT, "Bound: all profiles of up to 3 pools of 6 kinds, all triples of ticket sizes around the splitting points, extreme sizes.")
CLAIMED["C10"] = (T_INPUT, "Bound: all distributions of up to 3 pools and 3 tickets over up to 3 messages, and the stream failing or ending at every point, for every copy of the reader.")
CLAIMED["C11"] = (T_SCHED, "Bound: 1-3 functions with up to 3 matches each and every one of 7 ways to end, 1-3 deviations, connection loss at every operation; up to 450 matches in one schedule.")
CLAIMED["C19"] = (T_INPUT, "Bound: all pools around the sizes that make 0, 1 or 2 matches, overlapping pools, all ways to chunk the request, and the stream failing or ending at every point.")
CLAIMED["C20"] = (T_SCHED, "Bound: queues of 0 to 2500 tickets, all failures of single calls, 1-2 deviations.")
CLAIMED["C12"] = (T_SCHED, "Bound: 1-3 deviations, 1-2 functions with matches sharing tickets, the wait option on and off, both storages, every way of a function to end.")
CLAIMED["C13"] = (T_SCHED, "Bound: every request shape and every function script over the enumerated alphabet of missing, empty and malformed parts, 0-2 deviations, callers leaving at every moment, followed by a full probe of the server.")
CLAIMED["C14"] = (T_SCHED, "Bound: callers leaving at every step of a run, run lengths below, at and above several configured timeouts, 1-2 deviations.")
CLAIMED["C15"] = (T_HIST, "Bound: operation histories with time steps at, just before and just after each limit, several configured lifetimes, both storages, instances that read late.")
CLAIMED["C16"] = (T_SCHED, "Bound: 1-3 watched tickets, assignments before, during, after and never, re-assignments, 1-2 deviations, both storages.")
CLAIMED["C17"] = (T_INPUT, "Bound: every request over the enumerated alphabet of parts, list lengths around several configured limits, all placements of malformed ids among valid ones.")
CLAIMED["C18"] = (T_SCHED, "Bound: mixes of up to 7 concurrent requests with 1 deviation, abandoned callers with 2, all single and up to triple connection faults, all pairs of 10 kinds of requests repeated, 720 updates in bulk, 1200 requests in one history.")

CLAIMED["C24"] = (T_HIST, "Bound: histories of 3 cache operations (4 in the thorough tier), every ending of 1-2 functions and of 1-3 watches with 3 events, two overlapping RPCs of every kind and order, samples at every step with 2 deviations; the running program's metrics address after each of 13 requests over both ways.")
CLAIMED["C25"] = (T_SCHED, "Bound: two cycles of 0-2 matches with every ending and decision, 8 cycles with and without matches, 0-1 deviations (2 in the thorough tier), up to 25000 rejected tickets, 1-3 simulated players per second with every creation failing.")
CLAIMED["C23"] = (T_HIST, "Bound: all histories of 5 writes and waits around the lifetime (7 in the thorough tier) x 4 lifetimes, connection loss at every command of every write, an instance starting at every moment of a trim (2 deviations), up to 20000 updates in one lifetime.")
CLAIMED["C21"] = (T_INPUT, "Bound: every variable x every one of its representative values (unset included), all pairs of variables, and for the variables that change behaviour the running server (port, storage type, read and write Redis, credentials, waits, timeouts, limits) under every combination of their representatives; the real process with a real socket for port and Redis addresses.")
CLAIMED["C22"] = (T_INPUT, "Bound: the real gateway on a real loopback socket: every field subset and representative value of every message, every status code, every stream length and ending, every unknown path, verb and body, in both copies of the generated gateway.")
CLAIMED["C26"] = (T_FAULT, "Bound: SIGKILL, SIGINT and SIGTERM at 3 points of each of the 13 updates of a life of 3 tickets and after each of its calls; both signals with 8 sets of calls in flight x 2 storages; 5 values of PORT x 0-5 tickets x 2 ways of calling; requests of up to 33 MB.")
