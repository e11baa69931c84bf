#!/usr/bin/env python3
"""Writes ../properties.jsonl. Kept so that the statements can be edited readably."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
L = "src/frn/lib/"
prop("C01", "Field and ring arithmetic is exact and canonical",
 "Every operation on elements of the fields of order 2^61-1 and 2^127-1 (construction from any integer, +, -, *, /, negation, inversion, comparison, and their in-place forms) gives exactly the result of integer arithmetic modulo the prime, and every element is always held as its unique representative below the prime, so that equal field values compare, print and serialize equal. "
 "Inverting or dividing by zero raises an error instead of giving a value, and the inverse modulo a power of two of any odd number is a true inverse while even numbers are rejected.",
 ["inputs"], "all pairs of elements of both fields, all 64- and 128-bit integers they are built from, all odd/even words and moduli 2^K",
 "The suite only ever computes with a handful of small values (10, 20, 100, 200) in the 61-bit field; carries, reductions at the prime, and the 127-bit field are never exercised.",
 [L+"math/fp.h", L+"math/p.h", L+"math/ring.h", L+"math/arithmetic.h", L+"math/arithmetic.cc"],
 [("modular add/sub/neg/inverse", L+"math/arithmetic.h"), ("Mersenne reductions", L+"math/arithmetic.cc")],
 [("element value", "representative below the prime", L+"math/fp.h")],
 ["result of each public operator, read back through the byte encoding"])
prop("C02", "Encodings of elements, vectors and shares are lossless and exact in size",
 "Encoding a field element, a vector of elements or one or many replicated shares to bytes and decoding the result gives back the same values in the same order, for any position of the buffer in memory, and the decimal text form of an element reads back as the same element. "
 "Encoding writes and decoding reads exactly the advertised number of bytes, elements use a fixed-width little-endian form of the representative below the prime, and any byte pattern decodes to the element congruent to it.",
 ["inputs"], "all elements, vector lengths, share counts, buffer alignments and byte patterns",
 "No test encodes anything directly; the network tests move a few small elements through aligned buffers.",
 [L+"math/fp.h", L+"math/vec.h", L+"secret_sharing/rep.h", L+"tools.h", L+"tools.cc"],
 [("element encode/decode", L+"math/fp.h"), ("vector encode/decode", L+"math/vec.h"), ("share encode/decode", L+"secret_sharing/rep.h")],
 observe=["bytes written, guard bytes around the buffer, decoded values"])
prop("C03", "The pseudorandom generator is AES-128 in counter mode over its seed",
 "The n-th 16-byte block a generator produces is the AES-128 encryption, under its seed (all zero by default), of a block whose low half is the counter n and whose high half is the fixed nonce, and each request starts at the next unused block and uses up whole blocks. "
 "Hence the output is a function of the seed and the sequence of request lengths only: copies continue identically and independently, a reset generator starts over, no block is ever given out twice, and exactly the requested bytes are written.",
 ["inputs", "histories"], "all seeds, all sequences of request lengths, copies, resets and counter positions",
 "No test checks the output of the generator against AES at all; protocol tests pass with any deterministic generator.",
 [L+"primitives/prg.h", L+"primitives/prg.cc"],
 [("key schedule and block encryption", L+"primitives/prg.cc"), ("counter update", L+"primitives/prg.cc")],
 [("counter", "index of the next unused block", L+"primitives/prg.h")], ["bytes produced per request"])
prop("C04", "Hashing is SHA-3 for every message and every way of feeding it",
 "The digest of a message is its FIPS 202 SHA3-256, SHA3-384 or SHA3-512 digest, according to the variant chosen. "
 "It depends only on the concatenation of the bytes fed in, not on how they are split into updates, and distinct hash objects do not influence each other.",
 ["inputs", "histories"], "all messages of any length and all ways to split them into updates, three variants",
 "No test computes a digest.",
 [L+"primitives/hash.h"], [("absorb, pad, permute", L+"primitives/hash.h")],
 [("sponge state, partial word", "what was absorbed so far", L+"primitives/hash.h")], ["digest bytes"])
prop("C05", "A replicated sharing reconstructs to its secret, for every size and threshold",
 "For every number of parties n and threshold 0 < t < n, sharing a secret gives each party one piece for each of the additive pieces it is entitled to: every additive piece belongs to exactly one set of n-t parties, every such set has exactly one piece, all its members hold equal copies, and the pieces sum to the secret, so reconstruction returns it. "
 "The maps between pieces, party sets and positions in a party's share are mutually consistent and the advertised sizes are the true ones; sharing a list of secrets is sharing each in turn; unusable sizes or thresholds are rejected.",
 ["inputs", "configurations"], "all (n, t), secrets, generator seeds and list lengths",
 "Tests use n = 4, 7, 8 and 10 with the largest threshold below n/3 and one fixed seed.",
 [L+"secret_sharing/rep.h", L+"secret_sharing/additive.h"],
 [("combination enumeration", L+"secret_sharing/rep.h"), ("sharing", L+"secret_sharing/rep.h"), ("additive sharing", L+"secret_sharing/additive.h")],
 [("piece <-> party set tables", "which parties hold which piece", L+"secret_sharing/rep.h")],
 ["shares handed to each party", "reconstruction result"])
prop("C06", "No coalition up to the threshold learns anything from a sharing",
 "For every set of t parties there is an additive piece none of them holds, and any t+1 parties together hold all pieces. "
 "All pieces of a sharing but the one that closes the sum are fresh generator output, never reused within or across sharings made from one generator and uniformly distributed whatever the secret, so the joint view of t parties is the same for all secrets; the same holds for plain additive sharings and all but one of their shares.",
 ["inputs", "configurations", "histories"], "all coalitions of all (n, t), all secrets, long histories of sharings from one generator",
 "Tests only reconstruct from all shares; a scheme that hands the secret to one party would pass.",
 [L+"secret_sharing/rep.h", L+"secret_sharing/additive.h"],
 [("randomness of all additive pieces but the last", L+"secret_sharing/additive.h"), ("who holds which piece", L+"secret_sharing/rep.h")],
 observe=["shares of coalitions under paired secrets with equal generator state"])
prop("C07", "Error detection rejects exactly the inconsistent sharings",
 "Reconstruction with error detection returns the secret when all copies of every additive piece agree, and raises an error whenever any two copies of any piece differ, whichever parties changed whichever positions by whatever amounts. "
 "It never returns a value for an inconsistent sharing and never rejects a consistent one.",
 ["inputs", "fault_sequences"], "all sharings and all sets of tampered positions",
 "Tests only ever run error detection on consistent sharings; no test has an inconsistent one.",
 [L+"secret_sharing/rep.h"], [("comparison of redundant copies", L+"secret_sharing/rep.h")],
 observe=["result or error"])
prop("C08", "Local linear operations on shares compute on the shared values",
 "When every party applies the same additions, subtractions, additions and subtractions of public constants (on either side) and multiplications by public constants to its shares, the results are again a consistent sharing of the same threshold, of exactly the value these operations give on the secrets. "
 "This holds for every number of parties, threshold, values and sequence of operations, including operands that are the same share, and operands are left unchanged.",
 ["inputs", "configurations", "programs"], "all straight-line programs of linear operations over any sharings, all n > 3d",
 "Tests apply each operation once, to 10 and 20, for 10 parties, and check only the sum of first copies, not consistency.",
 ["src/frn/shr.h", "src/frn/shr.cc"], [("element-wise operations", "src/frn/shr.cc"), ("who adds a constant, and where", "src/frn/shr.cc")],
 observe=["shares of all parties after each operation"])
prop("C09", "Local multiplication gives a sharing of the product",
 "When all parties multiply their shares of x and y locally, the results form a consistent sharing of x*y of twice the threshold, and the additive results of the first 2d+1 parties sum to x*y while all other parties contribute zero. "
 "Every cross product of pieces is counted exactly once, and all parties that hold it agree on the piece it goes into and on who accounts for it.",
 ["inputs", "configurations"], "all n > 3d, all secrets and sharings",
 "Tests multiply 10 by 20 with 8 parties, and reconstruct from first copies only.",
 ["src/frn/shr.h", "src/frn/shr.cc"], [("multiplication table", "src/frn/shr.cc")],
 [("multiplication table", "which products a party forms and where they go", "src/frn/shr.h")],
 ["double-degree and additive results of all parties", "published table and index query"])
prop("C10", "The reconstruction plan gives every party what it lacks, once",
 "For sharings of twice the threshold, the plan lists for each piece a party holds exactly the parties that do not hold the piece, each once. "
 "Over all parties, everyone who lacks a piece is sent its value by exactly one holder and a digest of it by each of the other holders, so following the plan everyone can reconstruct and verify.",
 ["configurations"], "all n > 3d, all parties and pieces",
 "The table is not looked at by any test.",
 ["src/frn/shr.h", "src/frn/shr.cc"], [("reconstruction table", "src/frn/shr.cc")],
 [("reconstruction table", "who is sent which piece, and how", "src/frn/shr.h")], ["published table of all parties"])
prop("C11", "Correlated randomness is consistent across parties and fresh",
 "When the parties' generators are seeded with shares of per-party keys, each round of random-share generation gives a consistent replicated sharing of a value r, additive shares of the first 2d+1 parties that sum to r, zero for all other parties, and for each of those additive shares a consistent replicated sharing of it. "
 "Rounds are in step at all parties, every round uses fresh generator output, and the dummy variants give the same structure with every value zero.",
 ["inputs", "configurations", "histories"], "all n > 3d, key seeds and numbers of rounds",
 "Tests draw one round for n = 10 with all generators on the same all-zero key, so mixed-up parties, pieces or rounds are invisible.",
 ["src/frn/corr.h", "src/frn/corr.cc"], [("random share generation", "src/frn/corr.cc")],
 [("per-party generators", "position in each keyed stream", "src/frn/corr.h")], ["shares of all parties per round"])
prop("C12", "The input protocol shares every input correctly",
 "When parties input any numbers of values, announced in any order and in any grouping, then after the protocol all parties hold, for each inputting party and in the order of its inputs, a consistent sharing of exactly the value input, and nothing for parties without inputs. "
 "This holds for any number of parties, any seeds, repeated setups and any scheduling of the parties, and the protocol completes.",
 ["inputs", "configurations", "histories", "schedules"], "all n, numbers of inputs per party, values, seeds, interleavings of announcements and parties",
 "Tests input at most one value end to end, for 4 parties; the other test checks only how many shares come out.",
 ["src/frn/input.h", "src/frn/input.cc", "src/frn/input_corr.h", "src/frn/input_corr.cc"],
 [("key setup", "src/frn/input_corr.cc"), ("masks and mask shares", "src/frn/input_corr.h"), ("masked broadcast", "src/frn/input.cc")],
 [("mask generators", "position in each keyed stream", "src/frn/input_corr.h")], ["outputs of all parties", "messages on each link"])
prop("C13", "The multiplication protocol outputs sharings of all products, in order",
 "For any batch of pairs of shared values, running the multiplication protocol gives every party its share of a consistent sharing, of the original threshold, of each product, in the order the pairs were given. "
 "This holds for any number of parties and batch size, for shares that are themselves results of earlier multiplications, inputs or local operations, for consecutive batches, and for any seeds and scheduling of the parties, and the protocol completes.",
 ["inputs", "configurations", "programs", "schedules"], "all circuits, batch sizes, n > 3d, seeds and schedules",
 "Tests run one multiplication of 100 by 200 (or 10 by 20) for 7 parties.",
 ["src/frn/mult.h", "src/frn/mult.cc", "src/frn/corr.cc", "src/frn/shr.cc"],
 [("masking and local product", "src/frn/mult.h"), ("opening to and by the first party", "src/frn/mult.cc")],
 [("prepared batch", "masks and masked shares in batch order", "src/frn/mult.h")], ["output shares of all parties"])
prop("C14", "The check data is a faithful record of the multiplications",
 "After any sequence of multiplication batches, the data kept for the later check has one entry per multiplication, in order, at every party: the share it sent, for the first party all shares it received, the opened value it received, and the shares of each sender's contribution. "
 "Entries equal what really went over the network; each recorded contribution is a consistent sharing of twice the threshold, the contributions of a multiplication sum to the product, and each differs from what that sender sent by exactly the sender's random mask.",
 ["inputs", "histories", "configurations"], "all sequences of batches, n > 3d, values and seeds",
 "Tests never look at the recorded data.",
 ["src/frn/mult.h", "src/frn/mult.cc"], [("recording", "src/frn/mult.h"), ("recording of received values", "src/frn/mult.cc")],
 [("check data", "record of sent, received and replicated values", "src/frn/mult.h")], ["recorded data vs. messages on each link"])
prop("C15", "The check compresses the record correctly and exchanges what is needed",
 "All parties draw the same coefficients, one per recorded multiplication, all independent generator output. Every party in charge compresses exactly the values it sent and received as the linear combination of the record with these coefficients, and every party's compressed contributions are sharings of the combination of the contributions. "
 "In the exchange every party receives, for each piece it lacks, the compressed values from exactly one holder and one digest from each other holder, and nothing else; all parties complete the exchange for any number of multiplications, including none.",
 ["inputs", "configurations", "histories", "schedules"], "all records, n > 3d, schedules",
 "The only test runs the check once after one multiplication, and asserts nothing.",
 ["src/frn/check.h", "src/frn/shr.cc"], [("coefficients, compression, exchange", "src/frn/check.h")],
 [("compressed data", "linear combinations of the record", "src/frn/check.h")],
 ["messages on each link", "compressed data through the hook"], "read-only access to coefficients and compressed data (FRN_VERIF_HOOKS)")
prop("C16", "Protocol results do not depend on scheduling or transport",
 "For fixed inputs and seeds, the bytes sent on each link between two parties, in order, and the outputs of all parties are the same whatever the relative speed of the parties and whatever the transport, and no party ever waits for something that no other party is going to send. "
 "When a protocol ends, everything that was sent to a party has been received by it.",
 ["schedules", "inputs", "configurations"], "all interleavings of the parties, over TCP and in memory",
 "Each test runs one schedule; a dependence on arrival order would show only now and then.",
 ["src/frn/input.cc", "src/frn/input_corr.cc", "src/frn/mult.cc", "src/frn/check.h", "src/frn/tcp_network.h"],
 [("fixed receive order per party", "src/frn/mult.cc"), ("asynchronous sends", L+"net/channel.cc")],
 observe=["byte stream per link and outputs across schedules"])
prop("C17", "Links deliver every byte once, intact and in order",
 "On every link between two parties of a connected network, including a party's link to itself, the receiver gets exactly the bytes sent to it on that link, once, in order and unchanged, however the sender grouped them into messages of bytes, elements or shares and however the receiver groups its receives. "
 "This holds for messages of any size including empty ones, for all links used at the same time, and whatever part of a transfer the operating system completes at a time; sending never waits for the receiver.",
 ["inputs", "schedules", "histories", "fault_sequences"], "all message sizes and groupings, concurrent traffic on all links, short reads and writes",
 "One test sends four bytes to one party; kernel-level partial transfers and mixed groupings do not occur.",
 ["src/frn/tcp_network.h", L+"net/network.h", L+"net/channel.h", L+"net/channel.cc", L+"net/connector.h", L+"net/connector.cc", L+"net/shared_deque.h"],
 [("transfer loops", L+"net/connector.cc"), ("send queue", L+"net/channel.cc"), ("local queue", L+"net/connector.h")],
 [("send queue", "messages accepted but not yet written", L+"net/channel.h")], ["bytes sent and received per link"])
prop("C18", "Closing loses nothing, and a lost peer is never mistaken for data",
 "Everything a party sent before it closed its network, having read what was sent to it, arrives at a peer that goes on receiving, no matter how much was still queued when it was closed. "
 "A receive either returns bytes the peer really sent or raises an error: when the peer has gone before sending enough, the receiver gets an error and not made-up data, it does not hang, and the process is not killed.",
 ["histories", "fault_sequences", "schedules"], "all amounts of queued data at close, all points at which a peer can disappear",
 "Tests close only after all parties have finished with everything received, and no peer ever disappears.",
 [L+"net/channel.cc", L+"net/connector.cc", L+"net/sysi.cc"], [("drain on close", L+"net/channel.cc"), ("end of stream handling", L+"net/connector.cc")],
 [("connector state", "idle, active, closed, error", L+"net/connector.h")], ["bytes received up to and after the end of stream"])
prop("C19", "Networks come up in any order and leave nothing behind",
 "Whatever the order and the times at which the parties start connecting, all of them end up connected, each link joining exactly the two parties it belongs to. "
 "Tearing a network down, by closing it or by destroying it open, never-opened or after an error, finishes, and releases every descriptor and thread the network had and no other; the same ports can be used again right away.",
 ["schedules", "histories", "configurations"], "all start orders and delays, numbers of parties, repeated set-ups on the same ports",
 "Tests connect once per port range, with all parties starting at the same time, and do not look at what is left.",
 [L+"net/network.h", L+"net/channel.cc", L+"net/connector.cc", L+"net/builder.cc"],
 [("connection order and retry", L+"net/connector.cc"), ("tear-down", L+"net/channel.cc")],
 observe=["descriptors and threads of the process", "peer identity per link"])
prop("C20", "A failing system call surfaces as an error, with its cause",
 "When a system call needed to set up, use or close a connection fails, the operation raises an error that carries the cause reported by the system, the connection reports that it is in the error state, and no descriptor acquired on the way is leaked. "
 "It never returns as if it had succeeded, and calls that complete only part of a transfer are continued until all of it is done. The one exception is a connection attempt to a peer that is not there yet, which is repeated until the peer is there.",
 ["fault_sequences"], "every system call of every operation, failing at each position with each cause, and all partial transfers",
 "No test makes a system call fail.",
 [L+"net/connector.h", L+"net/connector.cc", L+"net/sysi.h", L+"net/sysi.cc"], [("error conversion", L+"net/connector.h")],
 [("connector state", "error after a failed call", L+"net/connector.h")], ["exception type, code and state after each injected fault"])
prop("C21", "Only consistent network configurations are built, and they address peers right",
 "Building a network from settings given in any order yields a network of that size for that party, or raises an error if something is missing, out of range or contradictory (identifier not below size, too few or too many addresses, unusable address or port); there is no other outcome. "
 "For every pair of parties the two ends agree on one port, different pairs use different ports, exactly one end listens, and the other connects to the address configured for its peer.",
 ["configurations", "inputs"], "all orders and values of settings, connection files, identifiers, sizes and base ports",
 "Tests build only valid local networks through one helper.",
 [L+"net/builder.h", L+"net/builder.cc", L+"net/connector.h", "src/frn/tcp_network.h"], [("validation", L+"net/builder.cc"), ("port assignment", L+"net/builder.cc")],
 observe=["exception or network", "addresses and ports passed to the system"])
prop("C22", "Vector and matrix algebra matches its definition",
 "Element-wise sums, differences, products, scalings, dot products and sums of vectors, and the corresponding operations, products, submatrices, Vandermonde matrices and text forms of matrices of any shape, over both fields, give exactly the mathematically defined results, in-place and copying forms agree, and copying forms leave their operands unchanged. "
 "Operands with mismatching sizes and ranges outside the matrix are rejected with an error and never read outside of the operands.",
 ["inputs"], "all shapes, values and index ranges, both fields",
 "No test touches the vector and matrix modules directly.",
 [L+"math/vec.h", L+"math/mat.h"], [("vector operations", L+"math/vec.h"), ("matrix operations", L+"math/mat.h")],
 observe=["results against a model over plain integers"])
prop("C23", "Reported communication equals actual communication",
 "For every party and peer, the communication summary reports exactly the number of payload bytes sent to and received from that peer through the network so far, whichever kinds of messages were used, and mentions no peer without traffic. "
 "Summaries of two connected parties agree with each other once all messages have been received.",
 ["histories", "inputs"], "all sequences of sends and receives of all kinds, sizes and peers",
 "Summaries are printed by tests but not compared with anything.",
 ["src/frn/tcp_network.h"], [("per-peer counters", "src/frn/tcp_network.h")], [("counters", "bytes per peer and direction", "src/frn/tcp_network.h")],
 ["printed summary vs. bytes counted at the sockets and at the caller"])
prop("C24", "The experiments complete for every supported size with the expected traffic",
 "For every supported number of parties (4 to 16) and amount of work including none, starting one process per party in any order, each of the three experiments runs to completion at all parties, and the reported traffic of each pair of parties agrees at both ends and is the amount the protocol prescribes. "
 "Unsupported numbers of parties, identifiers or amounts are refused, and the launcher script starts every party and returns only when all of them are done.",
 ["configurations", "schedules"], "all numbers of parties, amounts of work and start orders",
 "The experiments are only compiled, never run, by the tests.",
 ["src/frn/exp_input.cc", "src/frn/exp_mult.cc", "src/frn/exp_check.cc", "run.sh"],
 [("argument validation and main flow", "src/frn/exp_mult.cc"), ("launcher", "run.sh")], observe=["exit codes and summaries of all processes"])
prop("C25", "Log messages and text forms say exactly what they are given",
 "A log message is its format string with each placeholder replaced, in order, by the text of the corresponding argument, emitted once between the start and end marks of its level, with surplus arguments ignored and surplus placeholders left as they are; the silent logger emits nothing. "
 "Text forms of integers of up to 128 bits are their decimal digits, hex dumps show every byte as two upper-case digits in order, lists show at most their first five items and the true number of items left out, and decimal strings parse to the number they denote.",
 ["inputs"], "all format strings, argument lists, integers, byte strings and list lengths",
 "Tests log a few lines and look at none of them.",
 [L+"logging/logger.h", L+"logging/stdout.h", L+"logging/nowhere.h", L+"tools.h", L+"tools.cc"],
 [("interpolation", L+"logging/logger.h"), ("conversions", L+"tools.cc")], observe=["emitted text"])
prop("C26", "No memory error, undefined behaviour or leak under any valid use",
 "No valid use of any part of the library (arithmetic, sharing, protocols, networking, logging, experiments), with any sizes and values, reads or writes outside of objects, uses freed or uninitialized memory, overflows signed arithmetic or shifts, misaligns accesses, or otherwise runs into undefined behaviour. "
 "Repeating any operation does not make the memory in use grow, beyond what its objects are there to keep (the record for the check, messages not yet received).",
 ["inputs", "histories", "configurations"], "all valid call sequences over all parts",
 "The tests run without instrumentation on a few small inputs, where such errors usually stay silent.",
 ["src/frn/", "src/frn/lib/"], [("bounds of tables, buffers and conversions", "src/frn/lib/math/vec.h")],
 observe=["reports of address, undefined-behaviour and definedness instrumentation", "bytes allocated at quiescent points"])
prop("C27", "No data races between the threads of a party or between parties",
 "Parties that run as threads of one process share no unsynchronized state through the library, and within a party the sending job and the thread using the network never access the same data without synchronization, while connecting, sending, receiving, logging, failing and closing. "
 "This holds for all protocols and for all schedules.",
 ["schedules"], "all interleavings of party threads and sender jobs, in all phases of a network's life",
 "Tests run without race detection and compare only final values.",
 [L+"net/channel.cc", L+"net/channel.h", L+"net/shared_deque.h", L+"net/connector.h", L+"logging/stdout.h", "src/frn/tcp_network.h"],
 [("queue locking", L+"net/shared_deque.h"), ("atomic connector state", L+"net/connector.h")],
 observe=["race detector reports over stress workloads"])
prop("C28", "The shared queue is a linearizable FIFO queue",
 "Any number of threads may push to a shared queue while one or more threads take from it: every pushed item is taken exactly once, items of one producer are taken in the order pushed, an item is never seen before it was pushed or after it was removed, and the reported size is the number of items in the queue at some moment during the call. "
 "A thread waiting on an empty queue always wakes up once an item is there.",
 ["schedules", "histories"], "all interleavings of producers and consumers",
 "The queue is only used by tests through one producer and one consumer with a handful of messages.",
 [L+"net/shared_deque.h"], [("mutex and condition variable", L+"net/shared_deque.h")],
 [("queue content", "items pushed and not yet removed", L+"net/shared_deque.h")], ["operation history with call and return times"])
prop("C29", "Protocol messages follow the prescribed pattern and are masked",
 "To input a value, a party sends exactly one element per value to each party, and setting up sends one share of the key to each; to multiply, each of the first 2d+1 parties sends one element per multiplication to the first party, which sends one element per multiplication to each of the first n-d parties; nobody sends anything else. "
 "Every such element is the value concerned minus a mask that does not depend on any secret, and every mask is fresh: no two inputs of a party and no two multiplications are covered by the same mask.",
 ["inputs", "histories", "configurations"], "all n > 3d, values, batch sizes and seeds",
 "One test counts the messages of a single multiplication; masks are never looked at.",
 ["src/frn/input.h", "src/frn/input.cc", "src/frn/input_corr.h", "src/frn/input_corr.cc", "src/frn/mult.h", "src/frn/mult.cc"],
 [("mask generation", "src/frn/input_corr.h"), ("masked opening", "src/frn/mult.cc")], observe=["messages on each link in paired runs"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
