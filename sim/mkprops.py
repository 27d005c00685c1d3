import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]="LIBRA_SIM: prover message functions virtual" if hook else None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
LV="src/linear_gkr/verifier_fast_track.cpp"; LP="src/linear_gkr/prover_fast_track.cpp"
TV="src/traditional_gkr/verifier_traditional.cpp"; TP="src/traditional_gkr/prover_clogc.cpp"
BV="src/traditional_gkr/verifier_bc_clogc.cpp"; BP="src/traditional_gkr/prover_bc_clogc.cpp"
EV="src/linear_gkr/verifier_fast_para_track.cpp"; EP="src/linear_gkr/prover_fast_para_track.cpp"
PF="src/linear_gkr/prime_field.cpp"; PO="src/linear_gkr/polynomial.cpp"
json_out="/verif/properties.jsonl"
add("C01","Linear GKR completeness: an honest proof is always accepted",
 "For every well-formed layered circuit (any mix of the documented gate types, any depth, any layer widths including one-gate layers and widths that are not a power of two, any non-negative machine-integer inputs and dummy inputs) the linear-time prover's proof is accepted by the linear-time verifier. This holds for every sequence of values the random source can deliver, including zeros, maxima, tiny and repeating values, and no matter how the clock behaves.",
 ["inputs","programs","configurations"],"for all circuits, inputs, random-source outputs and clock behaviours",
 "The tests run one fixed challenge sequence (the random source is never seeded) over a few generated circuits; degenerate challenges, unusual shapes and gate mixes are never reached.",
 [LV,LP,PF,PO],[("interactive verification loop","verifier_fast_track.cpp: verify"),("sumcheck prover phases","prover_fast_track.cpp: sumcheck_*"),("gate predicates","verifier_fast_track.cpp: add, mult, not_gate, xor_gate, ...")],hook=True)
add("C02","Linear GKR soundness: no prover gets a false output accepted",
 "Whatever messages a prover sends in any round, the linear-time verifier accepts only if the claimed output vector equals the true output of the circuit on the verifier's own input (up to the negligible chance of guessing a random challenge). In particular each consistency check (output claim, every sumcheck round, every layer-to-layer claim, the final input check) is enforced on every run, with values the verifier computes or has already received, never values the prover can change afterwards.",
 ["fault_sequences","inputs","programs"],"for all adversarial prover strategies, circuits, inputs and random challenges",
 "No test contains a dishonest prover; every test only checks that an honest run passes, so deleting any check in the verifier leaves all tests green.",
 [LV,LP],[("round checks","verifier_fast_track.cpp: verify, phase1/phase2 comparisons"),("layer reduction","verifier_fast_track.cpp: semi-final comparison"),("input check","verifier_fast_track.cpp: V_in and final comparison")],hook=True)
add("C03","Linear GKR outputs and prover messages match the documented semantics",
 "The output vector the linear-time prover reports is the value of the circuit under the documented meaning of every gate type (addition, multiplication, dummy, input, range sum, NOT, minus, XOR, NAAB, relay) over the prime field. Every message it sends (output claim, each round polynomial, each pair of end-of-layer evaluations) equals the value the protocol defines for that circuit and the challenges received so far, in canonical reduced form.",
 ["inputs","programs","histories"],"for all circuits, inputs and challenge histories",
 "Tests only look at Pass/Fail; an evaluator and a verifier that share the same wrong gate meaning still print Pass.",
 [LP,LV,PF,PO],[("circuit evaluation","prover_fast_track.cpp: evaluate"),("round polynomials","prover_fast_track.cpp: sumcheck_phase1_update, sumcheck_phase2_update"),("end-of-layer evaluations","prover_fast_track.cpp: sumcheck_finalize")],hook=True)
add("C04","Verifier challenges are fresh, independent and revealed only after commitment",
 "In all four interactive verifiers (linear, multi-threaded linear, traditional, data-parallel) every challenge is drawn anew from the system's random source (some 90 bits or more each), is not a function of earlier messages, challenges or constants, and no two challenges of a run or of different sessions coincide except by chance. A prover never learns a challenge, or anything that determines it, before it has sent the message that challenge is meant to test, and every sumcheck variable, the output point and every layer combination get their own challenge.",
 ["histories","inputs","configurations"],"for all circuits, sessions and random-source outputs",
 "A verifier with constant, reused or prematurely revealed challenges accepts every honest proof exactly as before, so the tests cannot see it.",
 [LV,TV,BV,EV,PF],[("challenge generation","generate_randomness in the four verifiers"),("random field element","prime_field.cpp: random"),("round loop ordering","verify in the four verifiers")],hook=True)
add("C05","Traditional GKR completeness: honest proofs accepted, outputs correct",
 "For every well-formed circuit of addition, multiplication and dummy gates over integer and dummy inputs, and for every sequence of random-source values, the traditional prover's proof is accepted by the traditional verifier, for each of any number of copies verified in one process (circuits of at most 1000 layers). The output vector it reports and every message it sends equal what the protocol defines for that circuit and those challenges.",
 ["inputs","programs","configurations"],"for all circuits, copy counts and random-source outputs",
 "The tests run it with the one unseeded challenge sequence on a few generated circuits and only read the Pass line.",
 [TV,TP,"src/traditional_gkr/bclogc.cpp",PF,PO],[("verification loop","verifier_traditional.cpp: verify"),("prover phases","prover_clogc.cpp: sumcheck_*")],hook=True)
add("C06","Traditional GKR soundness: no prover gets a false output accepted",
 "Whatever messages a prover sends, the traditional verifier accepts only if the claimed output vector equals the true output of the circuit on the verifier's own input (up to the negligible chance of guessing a challenge). Every check (output claim, each round in both halves of each layer, the layer-to-layer claim on both evaluation points, the final input check on both points) is enforced on every run with values the prover cannot influence afterwards.",
 ["fault_sequences","inputs","programs"],"for all adversarial prover strategies, circuits, inputs and challenges",
 "No test contains a dishonest prover.",
 [TV],[("round checks","verifier_traditional.cpp: verify"),("input check","verifier_traditional.cpp: V_in and final comparison")],hook=True)
add("C07","Data-parallel GKR completeness: honest proofs accepted, outputs correct",
 "For every well-formed circuit of addition, multiplication and dummy gates, every power-of-two number of copies (including a single copy, and copies with the same or different inputs) and every sequence of random-source values, the data-parallel prover's proof is accepted by the data-parallel verifier without reading outside its own memory. The output vector it reports (copy by copy) and every message it sends equal what the protocol defines for that circuit and those challenges.",
 ["inputs","programs","configurations"],"for all circuits, copy counts and random-source outputs",
 "The tests use a couple of copy counts with one fixed challenge sequence and only read the Pass line.",
 [BV,BP,"src/traditional_gkr/bc_clogc.cpp",PF,PO],[("block-index rounds","prover_bc_clogc.cpp: sumcheck_phase0_*"),("verification loop","verifier_bc_clogc.cpp: verify")],hook=True)
add("C08","Data-parallel GKR soundness: no prover gets a false output accepted",
 "Whatever messages a prover sends, the data-parallel verifier accepts only if the claimed output of every copy equals the true output of the circuit on the verifier's own input (up to the negligible chance of guessing a challenge). Every check (output claim over all copies, each block-index round, each round in both halves of each layer, the layer-to-layer claim including the block-index factor, the final input check on both points) is enforced on every run with values the prover cannot influence.",
 ["fault_sequences","inputs","configurations"],"for all adversarial prover strategies, circuits, copy counts and challenges",
 "No test contains a dishonest prover.",
 [BV],[("round checks","verifier_bc_clogc.cpp: verify"),("block factor","verifier_bc_clogc.cpp: semi-final comparison"),("input check","verifier_bc_clogc.cpp: V_in and final comparison")],hook=True)
add("C09","Circuit files are ingested faithfully or refused, under any I/O fault",
 "If the circuit file is delivered intact, in whatever read sizes, each of the four interactive programs works on exactly the circuit the file describes. If it is missing, truncated at any byte, hit by a read error, or damaged so that it is no longer a well-formed circuit (gates out of order, operands outside the previous layer, unknown gate types, bad counts), the run ends without reporting success, in bounded time and without touching memory it does not own; damage that still parses is verified as the circuit it now describes.",
 ["fault_sequences","inputs","crash_points"],"for all circuit files, all byte positions of truncation or damage, all read-error positions and read sizes",
 "The tests only ever feed complete, well-formed, freshly generated files.",
 [LV,TV,BV,EV],[("file reading","verifier_fast_track.cpp: read_circuit; verifier_traditional.cpp: read_circuit_from_FILE; verifier_bc_clogc.cpp: read_circuit")],hook=False)
add("C10","Sessions are isolated: interleaving and history never change a verdict",
 "Several prover/verifier sessions of the four interactive systems (linear, multi-threaded linear, traditional, data-parallel) in one process, interleaved at any message boundary, running different circuits, some honest, some cheating, some abandoned midway, behave exactly as each would alone: same messages, same challenges from its own random stream, same verdict. Earlier sessions, whether accepted or rejected, and reuse of the same objects for another circuit, never change a later result.",
 ["schedules","histories","fault_sequences"],"for all interleavings of sessions at message boundaries and all histories of earlier accepted, rejected or abandoned sessions",
 "Each test is one process that runs honest sessions one after another to completion.",
 [LV,LP,TV,TP,BV,BP,EV,EP,PF],[("per-session state","prover and verifier members in the four programs"),("process-wide state","prime_field.cpp globals")],hook=True)
add("C11","Parallel prover: thread scheduling never changes messages or verdict",
 "For every circuit of addition, multiplication and dummy gates and every interleaving of its worker threads, the multi-threaded prover sends exactly the messages the protocol defines (the same as a sequential prover), and its honest proof is accepted. No schedule deadlocks or touches memory outside its arrays.",
 ["schedules","inputs"],"for all interleavings of the worker threads, circuits and challenges",
 "The parallel program is only compiled by the baseline, never run; and a run samples one schedule.",
 ["src/linear_gkr/prover_fast_para_track.cpp","src/linear_gkr/verifier_fast_para_track.cpp"],[("worker fork/join","prover_fast_para_track.cpp: phase1_init_func, phase1_update_func, phase2_init_func, phase2_update_func, V_res")],hook=True)
ZV,ZP="src/linear_gkr/zk_verifier.cpp","src/linear_gkr/zk_prover.cpp"
VP=["src/VPD/vpdR.cpp","src/VPD/vpd_test.cpp","src/VPD/inputvpd.cpp"]
add("C12","Zero-knowledge proofs are complete: honest runs pass and leave their files",
 "For every well-formed circuit and meta file (including exponent-sum and bit-test gates and repeated blocks), input assignment and random-source output, the zero-knowledge prover's proof is accepted by the zero-knowledge verifier, and the claimed outputs equal the documented gate semantics. A run reported as passed has written its proof file and result file completely; a file error, or a circuit or meta file that is missing, cut or malformed, never ends in a pass for something else or a memory error.",
 ["inputs","programs","fault_sequences"],"for all circuits, inputs, blinding values, challenges and file faults",
 "The zero-knowledge program is not even built by the baseline (its pairing library is absent).",
 [ZP,ZV]+VP+["include/linear_gkr/transcript.h","src/linear_gkr/main_zk.cpp"],[("zk verification loop","zk_verifier.cpp: verify"),("reader","zk_verifier.cpp: read_circuit"),("zk prover phases","zk_prover.cpp: sumcheck_*"),("proof file","transcript.h: output_to_file")],hook=True)
add("C13","Zero-knowledge verifier soundness: no false output is accepted",
 "Whatever a prover sends, in whatever order it makes its choices, the zero-knowledge verifier accepts only if the claimed outputs are the circuit's outputs on the committed inputs (up to the negligible chance of guessing a challenge). Every message counts: if one round polynomial, claim, mask sum, commitment or opening of an honest run is altered or missing, the verifier rejects. No challenge can be known before the messages it tests.",
 ["fault_sequences","inputs","programs"],"for all adversarial prover strategies, message alterations, circuits and challenges",
 "The zero-knowledge program is not built by the baseline and no test has a dishonest prover.",
 [ZV]+VP+["include/linear_gkr/transcript.h"],[("round checks","zk_verifier.cpp: verify"),("challenges","transcript.h: random"),("opening checks","vpdR.cpp, vpd_test.cpp, inputvpd.cpp: verify, check_commit")],hook=True)
add("C14","Polynomial commitments: openings verify exactly when correct",
 "For the three polynomial commitments (mask of the claims, mask of the sum-check, inputs), an honestly produced commitment and opening verifies at every evaluation point, for every polynomial and blinding, and opens to the true value of the committed polynomial (the inputs: plus the mask factor times their mask). If any part of the commitment, the claimed value, the point or any opening element is altered, missing or belongs to another commitment, point or polynomial, verification fails.",
 ["inputs","fault_sequences"],"for all polynomials, points, blindings and alterations",
 "None of the commitment code is built or run by the baseline.",
 VP,[("key generation, commit, open, verify","src/VPD/*.cpp")],hook=False)
add("C15","Every interactive run ends within its message bound, safely, with a verdict",
 "For any prover behaviour (garbage, unreduced values, stale or duplicated replies, zeroed replies after a crash, replies for another circuit), each of the four interactive verifiers ends within the number of messages fixed by the circuit's shape, never asks for a message out of order, never accesses memory outside its own, and returns a definite accept or reject. After a rejection it asks the prover for nothing more.",
 ["fault_sequences","inputs","programs"],"for all prover behaviours and circuits",
 "No test has a misbehaving prover, and none runs with memory checking.",
 [LV,TV,BV,EV],[("verification loop","verify in the four verifiers")],hook=True)
add("C16","Field arithmetic is exact modulo the prime for all operand values",
 "Addition, subtraction, multiplication and reduction of field elements give the canonical residue for all reduced operands.",
 ["inputs"],"for all pairs of operands",
 "Tests reach it only through whole proofs.",
 [PF],[("Barrett reduction","prime_field.cpp: u512b operator %")],hook=False)
add("C17","Circuit generators emit circuits that compute the intended function",
 "The circuit generators and parsers translate their input program into a layered circuit whose output is that program's result.",
 ["programs","inputs"],"for all source programs and sizes",
 "Only a few fixed sizes are generated.",
 ["parser.cpp","bin/gen.cpp","parser_sha.cpp","parser_lanczos.cpp"],[("layer emission","parser.cpp")],hook=False)
add("C18","Parallel GKR soundness: no prover gets a false output accepted",
 "Whatever messages a prover sends, the verifier of the multi-threaded program accepts only if the claimed output vector equals the true output of the circuit on the verifier's own input (up to the negligible chance of guessing a challenge). Every check (output claim, each round in both halves of each layer, the layer-to-layer claim on both evaluation points, the final input check) is enforced on every run with values the prover cannot influence afterwards.",
 ["fault_sequences","inputs","programs"],"for all adversarial prover strategies, circuits, inputs and challenges",
 "The parallel program is only compiled by the baseline, never run, and no test contains a dishonest prover.",
 [EV],[("round checks","verifier_fast_para_track.cpp: verify"),("input check","verifier_fast_para_track.cpp: V_in and final comparison")],hook=True)
add("C19","Zero-knowledge proofs hide the inputs: all that is sent is freshly masked",
 "With a good random source, everything an honest zero-knowledge prover sends besides the outputs is masked by fresh randomness: each round-polynomial coefficient and each claimed evaluation differs from its unmasked value by a mask used nowhere else, commitments and openings of the same polynomial are unrelated each time, and no element repeats in two proofs of the same statement. The number and size of the messages depend on the circuit only, not on the inputs. Masks, blinding and keys come from a source no one can predict.",
 ["inputs","programs","histories"],"for all circuits, inputs, challenges and random-source outputs",
 "The zero-knowledge program is not built by the baseline, and hiding is invisible in a single run.",
 [ZP]+VP,[("masks","zk_prover.cpp: generate_maskR, generate_maskpoly_pre_rho, keygen_and_commit"),("blinding","vpdR.cpp, vpd_test.cpp, inputvpd.cpp: commit, prove")],hook=True)
open(json_out,"w").write("".join(json.dumps(p)+"\n" for p in P))
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
