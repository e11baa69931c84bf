"""What each property's check runs. See DESIGN.md."""

# The harness decides how time passes (harness/slow.h).
TIMES = ("nanosleep", "clock_nanosleep", "poll", "select", "pthread_cond_timedwait", "pthread_cond_clockwait",
         "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv",
         "_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE",
         "_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE")
TIME = ["-Wl" + "".join(",--wrap=" + f for f in TIMES)]

# The harness stands between the library and libc (harness/chaos.h).
WRAP = ["-Wl" + "".join(",--wrap=" + f for f in (
    "send", "write", "read", "recv", "socket", "setsockopt", "bind", "listen", "accept", "connect", "close") + TIMES)]

CONN_WRAP = ["-Wl" + "".join(",--wrap=" + f for f in ("connect", "bind", "setsockopt", "listen", "accept"))]

PROPS = {
    "C01": dict(
        runs=[dict(harness="h_field", flavors=["o2", "asan"], shards={"o2": 8, "asan": 4},
                   scale={"asan": 0.15})],
        rule="pairs of elements (all pairs of ~700 boundary values per field, random, shaped), integers around "
             "multiples of the prime and powers of two, odd and even words for every modulus 2^K; every result is "
             "compared with integer arithmetic. Distinct: operand pair. Non-trivial: every pair with its own operands.",
    ),
    "C02": dict(
        runs=[dict(harness="h_codec", flavors=["o2", "asan"], shards=4, scale={"asan": 0.3})],
        rule="elements (shaped and random) at every buffer offset, vectors of length 0..200 and up to 70000, shares of "
             "every (n,t) up to 9 and some larger, one vector and one list of more than 4 GB, arbitrary byte patterns, decimal texts; compared with a byte-level "
             "model, guard bytes around every buffer. Distinct: value/pattern/offset or shape.",
    ),
    "C03": dict(
        runs=[dict(harness="h_prg", flavors=["o2", "asan"], shards={"o2": 3, "asan": 2}, scale={"asan": 0.3}),
              dict(harness="h_prg", flavors=["o2"], shards=1, tag="c31", defs=["-DPRG_INITIAL_COUNTER=0x7fffff00"]),
              dict(harness="h_prg", flavors=["o2"], shards=1, tag="c32",
                   defs=["-DPRG_INITIAL_COUNTER=0xffffff80", "-DPRG_NONCE=0xfedcba9876543210"]),
              dict(harness="h_prg", flavors=["o2"], shards=1, tag="c63",
                   defs=["-DPRG_INITIAL_COUNTER=0x123456789abcfff0", "-DPRG_NONCE=0"])],
        rule="histories of requests (all four ways to ask, lengths 0..4096, up to 3 MB and once more than 4 GB), copies, assignments, resets "
             "over several generators and counter positions (0, around 2^31, 2^32 and beyond, by the initial-counter "
             "setting); every byte is compared with AES-128 written from FIPS 197. Distinct: seed and history.",
        assumptions=["counter positions that cannot be reached by running are reached with PRG_INITIAL_COUNTER"],
    ),
    "C04": dict(
        runs=[dict(harness="h_hash", flavors=["o2", "asan"], shards={"o2": 6, "asan": 4}, scale={"asan": 0.3})],
        rule="all message lengths over four blocks with all two-way splits, random messages with random splits (empty, "
             "word- and block-aligned ones included), interleaved and copied objects, messages up to 1 MB and one update of more than 4 GB, three "
             "variants; digests are compared with SHA-3 written from FIPS 202. Distinct: message and split.",
    ),
    "C05": dict(
        runs=[dict(harness="h_rep", flavors=["o2", "asan"], shards={"o2": 8, "asan": 8}, scale={"asan": 0.1})],
        rule="all thresholds for 2..16 parties and some larger sizes, both fields: the maps against subsets enumerated "
             "independently, sharings of shaped and random secrets against the definition (holders, equal copies, sum), "
             "lists against one by one, unusable sizes rejected. Distinct: sharing (size, secret, seed).",
    ),
    "C06": dict(
        runs=[dict(harness="h_rep", flavors=["o2"], shards=8)],
        rule="every coalition of t and t+1 parties for all thresholds of 2..14 parties; sharings made singly, as "
             "lists and mixed with plain sharings are matched, piece by piece, to places of the generator's output (each used once), repeated with "
             "other secrets and the same randomness, and checked for biased bits. Distinct: sequence of sharings.",
    ),
    "C07": dict(
        runs=[dict(harness="h_rep", flavors=["o2", "asan"], shards={"o2": 8, "asan": 8}, scale={"asan": 0.1})],
        rule="for all thresholds of 2..12 parties: every single copy and every pair of copies changed (up to 8 "
             "parties), coalitions, cancelling changes, swapped shares, all copies changed alike, changes invisible to "
             "truncation; acceptance and value against the model. Distinct: tampering.",
    ),
    "C08": dict(
        runs=[dict(harness="h_shr", flavors=["o2", "asan"], shards=8, scale={"asan": 0.05})],
        rule="random programs of local operations over shares made by the library or with arbitrary pieces, executed at "
             "all parties (3..16 parties and a few larger sizes, all usable thresholds up to 10 parties); every intermediate result is checked "
             "for agreement of all copies and against the value computed on the secrets. Distinct: step with operands.",
    ),
    "C09": dict(
        runs=[dict(harness="h_shr", flavors=["o2", "asan"], shards=8, scale={"asan": 0.05})],
        rule="the multiplication tables of all parties against each other and the complete list of cross products; "
             "products of random sharings and of single pieces (which must land in one piece, once). Distinct: product.",
    ),
    "C10": dict(
        runs=[dict(harness="h_shr", flavors=["o2", "asan"], shards=8, scale={"asan": 0.05})],
        rule="the plans of all parties: for every piece and party what arrives from whom, and reconstruction by following "
             "the plan. Distinct: entry of a plan.",
    ),
    "C11": dict(
        runs=[dict(harness="h_shr", flavors=["o2", "asan"], shards=8, scale={"asan": 0.05})],
        rule="rounds of random-share generation at all parties, keyed like after a key distribution (and re-keyed, copied, "
             "mixed with dummies, in any order of the parties); consistency, sums, zero shares, and each piece matched to "
             "a place of its generator's output used once. Distinct: round.",
    ),
    "C12": dict(
        runs=[dict(harness="h_proto", flavors=["o2", "asan"], shards=8, scale={"asan": 0.03})],
        rule="random input programs, run by all parties (4..16, several thresholds, up to a thousand pieces) over a recording network under seeded "
             "schedules; oracle: counts, agreement and value of every party's view of every input. Distinct: program and schedule.",
    ),
    "C13": dict(
        runs=[dict(harness="h_proto", flavors=["o2", "asan"], shards=8, scale={"asan": 0.03})],
        rule="random multiplication programs (chained results, several batches and instances), run by all parties (4..16, several thresholds, up to a thousand pieces) over a recording network under seeded "
             "schedules; oracle: agreement, threshold, value and order of all products. Distinct: program and schedule.",
    ),
    "C14": dict(
        runs=[dict(harness="h_proto", flavors=["o2", "asan"], shards=8, scale={"asan": 0.03})],
        rule="random multiplication programs, run by all parties (4..16, several thresholds, up to a thousand pieces) over a recording network under seeded "
             "schedules; oracle: the record of every party against the bytes on the links, the parties' correlated randomness and the products. Distinct: program and schedule.",
    ),
    "C15": dict(
        runs=[dict(harness="h_proto", flavors=["o2", "asan"], shards=8, scale={"asan": 0.03})],
        rule="random programs of multiplications and checks, run by all parties (4..16, several thresholds, up to a thousand pieces) over a recording network under seeded "
             "schedules; oracle: coefficients, compressed values and the exchanged messages recomputed from the recorded traffic. Distinct: program and schedule.",
    ),
    "C16": dict(
        runs=[dict(harness="h_proto", flavors=["o2", "asan"], shards=8, scale={"asan": 0.03})],
        rule="random programs of all protocols, run by all parties (4..16, several thresholds, up to a thousand pieces) over a recording network under seeded "
             "schedules; oracle: bytes per link and outputs under five schedules, with free-running threads and over TCP; deadlocks and unread bytes. Distinct: program and schedule.",
    ),
    "C17": dict(
        runs=[dict(harness="h_net", link=WRAP, flavors=["o2", "asan"], shards={"o2": 6, "asan": 4}, scale={"asan": 0.3})],
        rule="networks of 1..14 parties (bytes) and 4..7 parties (elements, shares, bytes) as threads over TCP, every link "
             "carrying a stream of its own cut differently by sender and receiver, transfers shortened and delayed below "
             "the library, sockets with small buffers, parties that are slow for minutes (in dilated time); messages of any size, up to 8 GB in one piece; in half of the rounds nobody receives before everybody has sent everything (up to 25 MB on a "
             "link). Every received byte is compared with the stream; at the end a link holds nothing more. Distinct: round.",
    ),
    "C18": dict(
        runs=[dict(harness="h_net", link=WRAP, flavors=["o2", "asan"], shards={"o2": 6, "asan": 4}, scale={"asan": 0.3})],
        rule="parties that send, read and close or are destroyed while a late party still reads (up to 12 MB queued); "
             "plain-socket peers that leave orderly, half-closed, by reset or with unread data, at any byte, before or "
             "during receives and while being sent to; peers that are away for minutes (in dilated time). Distinct: round.",
    ),
    "C19": dict(
        runs=[dict(harness="h_net", link=WRAP, flavors=["o2", "asan"], shards={"o2": 8, "asan": 4}, scale={"asan": 0.3})],
        rule="every order in which up to four parties can start and random start times for up to 28 (apart by minutes of dilated time, too), on the same ports "
             "again and again; each link is checked with a tag of its own; torn down closed, open, never opened, with "
             "messages pending, after a peer was lost and after a failed connect; descriptors (by inode) and threads are "
             "compared with those before, and foreign descriptors must survive. Distinct: start order and way down.",
    ),
    "C20": dict(
        runs=[dict(harness="h_net", link=WRAP, flavors=["o2", "asan"], shards={"o2": 6, "asan": 4}, scale={"asan": 0.2})],
        rule="every system call of the connectors failing with each of 31 errnos, through connector, channel and network, "
             "with cleanup calls that fail or change errno too and transfers (to 8 GB) completed in parts or not at all; the error "
             "raised, its cause, the state and the descriptors left are checked. Distinct: call, errno and circumstances.",
    ),
    "C21": dict(
        runs=[dict(harness="h_builder", link=CONN_WRAP, flavors=["o2", "asan"], shards=4, scale={"asan": 0.3})],
        rule="sequences of builder settings in every order, complete or not, valid or not (identifiers, sizes, address "
             "files, ports, transports), compared with a model of what must be built or refused; what the built networks "
             "do is observed at bind, listen, connect and accept for all parties of a configuration. Distinct: sequence.",
    ),
    "C22": dict(
        runs=[dict(harness="h_alg", flavors=["o2", "asan"], shards={"o2": 8, "asan": 4}, scale={"asan": 0.1})],
        rule="vectors of length 0..2000 and matrices up to 40x40 over both fields, operands that are the same object or "
             "own elements, mismatching sizes in exact-size blocks, all ways to leave a matrix; every result is compared "
             "with integer arithmetic. Distinct: operands.",
    ),
    "C23": dict(
        runs=[dict(harness="h_net", link=WRAP, flavors=["o2", "asan"], shards={"o2": 6, "asan": 3}, scale={"asan": 0.3})],
        rule="networks of 4..20 parties exchanging random amounts of elements, shares and bytes (some pairs nothing) in "
             "several phases; every printed summary is parsed and compared with counters kept by the harness and with the "
             "other end, also mid-way, after failed receives, beyond 4 GB and for one message of over 2 GB. Distinct: phase.",
    ),
    "C24": dict(
        runs=[], python=["experiments"],
        rule="every experiment for every supported number of parties, several amounts (0, 1, random, the largest for 4 "
             "parties), one process per party started in random order and at random times; the summaries all parties "
             "print against each other and against the traffic computed from the protocol; unsupported arguments; the "
             "launcher with programs that end at random times. Distinct: start, refusal or launch.",
    ),
    "C25": dict(
        runs=[dict(harness="h_text", flavors=["o2", "asan"], shards={"o2": 6, "asan": 4}, scale={"asan": 0.2})],
        rule="messages of every level with up to 9 arguments of mixed types (placeholders inside arguments, too many, too "
             "few) to a recording, the silent and the printing loggers; integers of all sizes, lists through vectors, "
             "arrays, lists and read-once iterators of up to 2^63 items, byte strings up to 20000. Distinct: case.",
    ),
    "C26": dict(
        runs=[
            dict(harness="h_state", link=WRAP, flavors=["asan"], shards=5),
            dict(harness="h_state", link=WRAP, flavors=["vg"], shards=2, prop="C27", scale=0.05),
        ] + [
            dict(harness=h, link=link, flavors=["asan", "vg"], shards={"asan": sa, "vg": sv}, prop=p, mode=m,
                 scale={"asan": a, "vg": v}, crash_only=True, tag="x" + p + m)
            for h, link, p, m, sa, a, sv, v in (
                ("h_field", (), "C01", "", 2, 0.05, 1, 0.003),
                ("h_codec", (), "C02", "", 2, 0.1, 1, 0.01),
                ("h_prg", (), "C03", "", 2, 0.1, 1, 0.01),
                ("h_hash", (), "C04", "", 2, 0.1, 1, 0.005),
                ("h_rep", (), "C05", "", 2, 0.05, 1, 0.003),
                ("h_rep", (), "C07", "", 2, 0.05, 1, 0.003),
                ("h_shr", (), "C08", "", 2, 0.03, 1, 0.002),
                ("h_shr", (), "C11", "", 2, 0.03, 1, 0.002),
                ("h_proto", (), "C12", "", 1, 0.02, 1, 0.002),
                ("h_proto", (), "C15", "", 2, 0.02, 1, 0.002),
                ("h_proto", (), "C15", "tcp", 1, 0.01, 1, 0.002),
                ("h_alg", (), "C22", "", 2, 0.05, 1, 0.005),
                ("h_text", (), "C25", "", 2, 0.1, 1, 0.01),
                ("h_queue", TIME, "C28", "", 2, 0.1, 1, 0.01),
                ("h_net", WRAP, "C17", "", 2, 0.1, 1, 0.01),
                ("h_net", WRAP, "C18", "", 2, 0.1, 1, 0.01),
                ("h_net", WRAP, "C20", "", 2, 0.1, 1, 0.01),
                ("h_net", WRAP, "C23", "", 2, 0.1, 1, 0.01),
                ("h_builder", CONN_WRAP, "C21", "", 2, 0.1, 1, 0.01),
            )
        ],
        python=["experiments_asan"],
        rule="the workloads of C01-C05, C07, C08, C11, C12, C15, C17, C18, C20-C23, C25 and C28 at a smaller scale under the address and "
             "undefined-behaviour sanitizers and (for uninitialised memory) valgrind, the experiments under the sanitizers, and "
             "every kind of operation repeated while the bytes in use at quiescent points are watched; the leak sanitizer at the end of each workload. Distinct: cases of "
             "the workloads.",
        assumptions=["valgrind runs the library compiled for x86-64-v2"],
    ),
    "C27": dict(
        runs=[
            dict(harness="h_state", link=WRAP, flavors=["tsan"], shards=6),
        ] + [
            dict(harness=h, link=link, flavors=["tsan"], shards=sh, prop=p, mode=m, scale=sc, crash_only=True, tag="x" + p + m)
            for h, link, p, m, sh, sc in (
                ("h_proto", (), "C12", "free", 2, 0.1),
                ("h_proto", (), "C15", "free", 2, 0.1),
                ("h_proto", (), "C12", "tcp", 2, 0.1),
                ("h_proto", (), "C15", "tcp", 2, 0.1),
                ("h_net", WRAP, "C17", "", 3, 0.2),
                ("h_net", WRAP, "C18", "", 3, 0.2),
                ("h_net", WRAP, "C19", "", 3, 0.2),
                ("h_net", WRAP, "C20", "", 3, 0.1),
                ("h_net", WRAP, "C23", "", 2, 0.2),
                ("h_queue", TIME, "C28", "", 3, 0.3),
            )
        ],
        rule="parties as free-running threads over a recording network and over TCP running inputs, multiplications and "
             "checks; networks in all phases of their life with shortened and delayed transfers and failing calls; queues; "
             "threads doing unrelated operations, small and large, on their own objects and copies of common objects, whose results are "
             "compared with those of one thread; all under the thread sanitizer. Distinct: program, round or operation.",
        assumptions=["only the synchronisation of executions that happened is judged; the sanitizer orders accesses by "
                     "happens-before, so a race is seen in most schedules that run both accesses"],
    ),
    "C28": dict(
        runs=[dict(harness="h_queue", link=TIME, flavors=["o2", "asan"], shards={"o2": 6, "asan": 4}, scale={"asan": 0.3})],
        rule="rounds of up to several producers, consumers and observers on one queue with seeded delays (of minutes, in dilated time), and queues of up to 4 million items; the recorded "
             "history is checked offline for exactly-once, order, real-time precedence and plausible sizes; stuck threads "
             "are hangs. Distinct: round.",
    ),
    "C29": dict(
        runs=[dict(harness="h_proto", flavors=["o2", "asan"], shards=8, scale={"asan": 0.03})],
        rule="random programs of inputs and multiplications, run by all parties (4..16, several thresholds, up to a thousand pieces) over a recording network under seeded "
             "schedules; oracle: messages per link and phase; masks recovered from the traffic of two runs with the same randomness and other secrets. Distinct: program and schedule.",
    ),
}
