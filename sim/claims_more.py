CLAIMS["C04"] = ("exploration", "seeded sessions replayed under the same, continued, different and bit-flipped entropy streams and with altered messages; relations over the recorded challenges", "Differential runs of the real verifiers; freshness, independence, entropy per challenge and order of revelation are relations over recorded histories. Bounded circuits; trusts the entropy seam.")
CLAIMS["C09"] = ("fault_enumeration", "whole programs in child processes on simulated files with seeded disk faults, against a reference parser", "Missing files, truncation, read errors, torn/zeroed/lost/duplicated bytes and short reads at drawn positions; under the address sanitizer too.")
CLAIMS["C10"] = ("exploration", "seeded scheduler interleaving sessions as coroutines, compared with each session alone", "Every call between verifier and prover is a scheduling point; histories and verdicts compared bit for bit with the session alone in a fresh process.")
CLAIMS["C15"] = ("fault_enumeration", "seeded hostile provers with request-order, request-count and stop-after-failed-check monitors, address sanitizer", "All reply kinds in any representation; trusts the reference protocol for which check fails first.")
NA["C16"] = "Pure functions of their operands: no schedule, time, I/O, randomness or second party for a simulator to control. Exercised indirectly by every message comparison in C03, C05 and C07."
NA["C17"] = "One-shot text translators: no concurrency, time, faults or parties; what remains is input-output testing, which is not this technique."
CLAIMS["C11"] = ("exploration", "seeded thread schedules of the real multi-threaded prover (preemption at every load and store, stalls, failing thread creation) against a reference protocol", "Worker threads run as fibers under a seeded scheduler that can switch at any memory access of the repository's code; every message is compared with the reference. Sequentially consistent memory; bounded circuits and a sample of schedules.")
CLAIMS["C18"] = ("fault_enumeration", "seeded cheating provers and wire faults against a reference verifier", "As C02 for the verifier of the multi-threaded program.")

CLAIMS["C12"] = ("exploration", "seeded honest zero-knowledge sessions and whole-program runs under random-source, clock, memory and disk faults, against a reference model", "Real prover, verifier, transcript and commitments on an ideal pairing group; reads and writes of circuit, meta, proof and result files fail at drawn points. Bounded circuits.")
CLAIMS["C13"] = ("fault_enumeration", "seeded cheating strategies and altered or missing elements, each lie carried past all checks but one", "Every kind of check, message and commitment is attacked at drawn layers and rounds, including messages chosen with knowledge of a rehearsal's challenges; ideal pairing group, honest key setup.")
CLAIMS["C14"] = ("fault_enumeration", "seeded commit/open/verify sequences with altered, foreign and missing parts against reference evaluations", "All three commitment schemes, driven directly; ideal pairing group.")
CLAIMS["C19"] = ("exploration", "pairs of seeded sessions under different entropy, related to the unmasked protocol at the same challenges", "Finds unmasked, re-used or predictable masks and blinding; not a proof of zero knowledge.")
