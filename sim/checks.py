# What each property runs (executed by check.py).
HARNESS = {}      # stack -> harness sources (default h_gkr.cpp)
EXTRA_SRC = {}    # stack -> further sources
COMMON_OF = {}    # stack -> common repo sources
OWN_OBJS = set()  # stacks whose repo objects cannot be shared
XFLAGS = {}
REPO_FLAGS = {}   # stack -> flags for the repository's sources only
LINK = {}

ENV = "virtual rand()/srand(), virtual clock, filled fresh memory, fixed addresses; the scheduler's choices all come from the seed"
HON = "each run draws a circuit, inputs, file layout, random-source behaviour, clock behaviour and fresh-memory contents from its seed and drives the real prover against the real verifier; a run counts when its history of calls, messages, challenges and verdict is distinct"
SND = "each run draws a circuit and environment, rehearses the session, then plays one to four cheating-prover or wire-fault strategies against the real verifier; a run counts when its history of calls, messages, challenges and verdicts is distinct"
A0 = ["the reference protocol in sim/circ.h states the protocol the repository documents", "circuits up to a few hundred gates per layer are representative (thorough: same sizes, more seeds)", "inputs are machine integers in [0,2^31)"]
A1 = ["a strategy space of lies steered past every check but one covers the ways a check can be missing", "challenges have 93 random bits: a lie survives by luck with negligible probability"]

check("C01", jobs(["linear"]), HON, REAL, ENV, A0)
check("C03", jobs(["linear"]), HON, REAL, ENV, A0)
check("C05", jobs(["traditional"]), HON, REAL, ENV, A0)
check("C07", jobs(["dataparallel"]), HON, REAL, ENV, A0)
SR = "verifier, circuit reader, field arithmetic; the real prover in a quarter of the attacks (with altered messages)"
SS = ENV + "; the cheating prover (sim/adversary.h) on the reference prover"
check("C02", jobs(["linear"]), SND, SR, SS, A1, "fault_enumeration")
check("C06", jobs(["traditional"]), SND, SR, SS, A1, "fault_enumeration")
check("C08", jobs(["dataparallel"]), SND, SR, SS, A1, "fault_enumeration")
H4 = "each run draws a circuit, then replays it under the same, a continued, a different and a bit-flipped entropy stream and with other messages, comparing all challenges the prover sees; a run counts when its history is distinct"
H9 = "each run draws a circuit file, a read-size pattern and a fault (missing, truncated, read error, lost/duplicated/zeroed/flipped bytes, torn write, replaced numbers) and runs the whole program in a child process on the simulated file; a run counts when delivered bytes and outcome are distinct"
H10 = "each run draws two to four sessions (honest, wire-faulted, false wire, abandoned, object reuse), runs each alone in a fresh process and then all interleaved by a seeded scheduler at every call between verifier and prover; a run counts when schedule and histories are distinct"
H15 = "each run draws a circuit and a hostile reply policy (garbage, zeroes, stale, off by one, foreign circuit, unreduced representations) and counts requests, their order and what follows a failed check; a run counts when its history is distinct"
check("C04", jobs(ALL3, 8000, 1000, 600000, 60000) + jobs(["parallel"], 3000, 400, 300000, 30000), H4, REAL, ENV + "; rand() modelled as libc's stream fixed by its seed, random_device/getrandom as the entropy of the session", ["entropy sources are random_device, getrandom, rand (others are left real and would show as not reproducible)", "two draws of a 90-bit challenge do not coincide"])
check("C09", jobs(ALL3 + ["parallel"], 20000, 4000, 1500000, 300000), H9, "the whole programs (main, reader, prover, verifier)", "file delivery (fopen and reads), entropy, clock, allocator limit of 64 MB", ["trailing text after the circuit, operands wired to padding and ignored operands may be accepted or refused", "a refusal may use any exit status or abort()"])
check("C10", jobs(ALL3, 6000, 1000, 600000, 60000) + jobs(["parallel"], 1500, 250, 150000, 15000), H10, REAL, ENV + "; in half of the sessions the prover's messages are altered or come from the reference prover", ["sessions interleave at the calls between verifier and prover (the code has no other suspension point)"])
check("C15", jobs(ALL3, 120000, 12000, 10000000, 1000000) + jobs(["parallel"], 60000, 6000, 5000000, 500000), H15, "verifier, circuit reader, field arithmetic; the real prover behind a third of the runs", ENV + "; the hostile prover", ["the prover replies to every request (in-process calls cannot be lost)"])

# the multi-threaded prover: every load and store of the repository's code is a scheduling point
EXTRA_SRC["parallel"] = [os.path.join(SIM, "threads.cpp")]
OWN_OBJS.add("parallel")
REPO_FLAGS["parallel"] = ["-fsanitize-coverage=func,trace-loads,trace-stores"]
H11 = "each run draws a circuit and environment, runs the session with the worker threads one after the other (recording accesses and conflicts), then under one to three seeded schedules (explicit pauses, random preemption, a stalled thread in every batch, preemption at conflicting accesses; any creation/run order) and now and then with a failing pthread_create; a run counts when its schedule and history of messages are distinct"
check("C11", jobs(["parallel"], 30000, 6000, 6000000, 600000), H11, "multi-threaded prover, its verifier and reader, field arithmetic; std::thread down to pthread calls", ENV + "; pthread calls are fibers switched at loads and stores of the repository's code", A0 + ["memory is sequentially consistent (no weak-memory reordering), loads and stores as the compiler emits them", "copies of whole elements are not split"])
check("C18", jobs(["parallel"], 60000, 6000), SND, SR, SS, A1, "fault_enumeration")

# the zero-knowledge protocol on an ideal pairing group
HARNESS["zk"] = ["h_zk.cpp"]
EXTRA_SRC["zk"] = [os.path.join(SIM, "pairing", "bn_stub.cpp")]
XFLAGS["zk"] = ["-I" + os.path.join(SIM, "pairing")]
OWN_OBJS.add("zk")
ZR = "zk_prover, zk_verifier, the transcript and its hash, all three polynomial commitments, circuit reader, main_zk, field arithmetic"
ZS = ENV + "; random_device as the entropy of the session; file writes; the pairing library (absent here) replaced by an ideal bilinear group in the exponent (sim/pairing)"
ZA = ["the pairing group behaves like an ideal bilinear group (exponent arithmetic modulo its order); nobody solves discrete logarithms in it", "keys are set up honestly, in the verifier's process, as the program does"]
Z12 = "each run draws a circuit with its meta file, inputs, random-source behaviour, clock and memory contents; the session runs in process (every claimed output against the reference), as the whole program on a good, missing, short or damaged circuit or meta file, or with a write or open error at a drawn byte of proof.bin or the result file, or in a forked session whose circuit or meta file is read in short pieces, missing, cut, failing to read at a drawn byte or damaged, against a parser of the format of our own; a run counts when its history is distinct"
Z13 = "each run draws a circuit and plays one to three cheating strategies on the real prover (a lie carried past every check but one: rounds, masks, mask sums, openings, commitments, late choices, foreseen challenges, cancelling claims, oversized answers), or one altered or missing element; a run counts when its history of messages, challenges and verdicts is distinct"
Z14 = "each run draws a scheme, sizes, one to three polynomials, points and random-source behaviour, then a sequence of commit, open, verify steps with altered, foreign or missing parts; a run counts when its history is distinct"
Z19 = "each run proves one circuit twice (same or other inputs) under different entropy, or commits to one polynomial twice, and relates everything the prover sent to the unmasked protocol at the same challenges; a run counts when its history is distinct"
check("C12", jobs(["zk"], 14000, 1400, 1000000, 100000), Z12, ZR, ZS, A0 + ZA)
check("C13", jobs(["zk"], 12000, 1200, 800000, 80000), Z13, ZR, ZS + "; the cheating prover is the real one with altered messages and state", A1 + ZA, "fault_enumeration")
check("C14", jobs(["zk"], 60000, 6000, 5000000, 500000), Z14, "vpdR, vpd_test, inputvpd", ZS, ZA, "fault_enumeration")
check("C19", jobs(["zk"], 9000, 900, 800000, 80000), Z19, ZR, ZS, ZA + ["two independent uniform field elements never coincide", "relations sought: a mask that is zero, equal to or a power of two times another, the R mask of two layers, the same element under different randomness"])
