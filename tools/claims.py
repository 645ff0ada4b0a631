HOOK_GUARD = "none"
HOOK_ENABLE = "No hook was needed in /repo: generators, parameter sources, tempering algorithms and output streams are interfaces of the library, and the allocator, the clocks, locks and static guards are interposed at link time. The simulator compiles /repo/include and /repo/lib with -fsanitize-coverage so that every basic block and memory access of the real code is a scheduling point."
HOOK_COMMITS = []
NOTES = "Every check: ./check.sh <id> builds sim/ with /repo's current headers, lib/ and samples/ and runs a seeded batch; ./replay.sh <file> re-executes a replay file. See DESIGN.md."
T = "deterministic simulation with fault injection: "
CLAIMED = {
 "C12": ("exploration", "The real main() of each program runs as a simulated process; every record is recomputed by independent models, and the output is compared between executions under different clocks, memory contents, chunking, verbosity, output failures and kills, and across kill-and-restart chains.", T + "seeded executions of the real programs under clock, memory, output and kill faults, with restarts; records recomputed by independent models"),
 "C15": ("exploration", "Sessions of period analyses on simulated generators in arbitrary states with failures injected part-way; every polynomial, verdict and resulting state compared with independent polynomial algebra on the state.", T + "seeded search over sessions of analyses, caller actions and failing generator operations or allocations; reference: Berlekamp-Massey on future outputs, polynomial arithmetic on the state, own factorisation"),
 "C14": ("exploration", "The real main() of each analysis program runs as a simulated process on parameters of maximal period and changed ones; the whole report is recomputed by independent models, and compared between executions with other clocks, seeds, memory contents, argument spellings, chunking, output failures and kills.", T + "seeded executions of the real programs under clock, memory, output and kill faults; reports recomputed by independent models"),
 "C10": ("exploration", "Every job's complete outcome is compared between 2-4 fresh processes with different memory contents, clocks, layouts, formatting states, verbosity and preceding operations.", T + "seeded disturbance of everything that is not an input, outcomes compared between processes"),
 "C09": ("exploration", "Every fault of a seeded set of allocations, generator operations and draws is checked for the exception that arrives, blocks and copies left behind, read-only inputs and the repeated result.", T + "seeded failures of allocations, generator operations and parameter draws inside every kind of job"),
 "C01": ("exploration", "Seeded schedules over real threads, preempting at basic blocks and memory accesses of the instrumented library; every job's outcome is compared with the same job alone in a fresh process.", T + "seeded thread interleavings with failing jobs, outcomes compared with solo executions"),
 "C02": ("exploration", "Seeded search over call histories and fault positions; the drawing order, the count and the budget are compared with the simulated source's own record after every call.", T + "seeded histories of budgeted, interrupted searches checked against the simulated source's log"),
 "C03": ("exploration", "Every candidate examined in a simulated search is judged by an independent GF(2) reference (no NTL).", T + "seeded candidate streams with interruptions, verdicts compared with an independent reference model"),
 "C04": ("exploration", "As C03, for reducible generators, with an independent GF(2) factorisation.", T + "seeded reducible candidate streams with interruptions, verdicts compared with an independent reference model"),
 "C05": ("exploration", "Every vector calculated in a simulated history is checked against a basis of the short-period component computed by independent GF(2) algebra, and against a fresh calculator.", T + "seeded histories of reused and interrupted parity calculations checked against an independent reference"),
 "C06": ("exploration", "Every table is compared with the rank of 2n output words captured when the analysis was constructed.", T + "seeded interleavings of analyses with caller actions and failures, compared with an independent reference"),
 "C11": ("exploration", "Random values are compared with independent reference models of the sources after every operation of the history.", T + "seeded operation histories of several interleaved sources checked against reference models"),
 "C13": ("exploration", "Corruption is injected into the simulated generator; each verdict is compared with what the test compared.", T + "seeded corruption and failure of the tested generator's operations"),
 "C07": ("exploration", "Outcome of every simulated tempering search compared with an undisturbed search on an equal generator, and its total defect with every alternative of the last group of bits, computed by rank.", T + "seeded histories of reused and interrupted tempering searches under failing diagnostic streams, judged by an independent reference"),
 "C08": ("exploration", "Every reported value recomputed from the generator as it is left by independent GF(2) algebra, and the whole outcome compared with undisturbed new objects on a copy of the source.", T + "seeded histories of combined searches under clock, stream and interruption faults, judged by an independent reference"),
}
NA = {
 "N01": "Pure functions of one polynomial and constant tables: no schedule, time, I/O, randomness, fault or history for a simulator to control. (The searches that use them are decided under C03 and C04.)",
 "N02": "Pure functions of one machine word: nothing nondeterministic and no multi-step behaviour to simulate.",
}
