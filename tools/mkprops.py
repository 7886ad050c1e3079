#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Any input is processed or cleanly rejected; never memory-unsafe or undefined",
  "For every sequence of shell lines and API sentences, of any bytes and length, the reasoner either processes each line or rejects it with a diagnostic and a non-zero exit. It never reads or writes outside an object, never reads freed or uninitialised memory, never executes undefined arithmetic, never dies from a signal and never hangs.",
  ["inputs", "histories"], "all byte strings as shell lines / Narsese sentences and all sequences of them",
  "The .nal examples contain only well-formed sentences and the unit tests parse a dozen terms; no malformed, over-long, deeply nested or out-of-range line is ever tried and nothing is built with a sanitizer.",
  ["src/Shell.c", "src/Narsese.c", "src/NAR.c", "src/NAL.c", "src/Variable.c", "src/Term.c", "src/Globals.c"],
  [("Globals_assert: message and exit(1) on invalid input", "src/Globals.c"), ("length and size asserts in the parser", "src/Narsese.c")],
  observe=["exit status, stderr of sanitizer builds", "stdout diagnostic 'Test failed.'"])

p("C02", "Narsese terms round-trip: printing and re-parsing gives the same term",
  "Every term the system accepts is printed as Narsese which, parsed again, yields exactly the same term, and so does every derived term up to the naming of its variables. The documented notational variants (infix or prefix copula, round or pointed brackets, commas or blanks, old or new truth-value format, surplus white space) of one statement denote the same term and values, and statements that differ structurally or differ in an atom, a copula, tense, punctuation or truth value are never conflated.",
  ["inputs"], "all parseable terms and sentences within the size limits",
  "The parser tests check a handful of literal strings; round trip over arbitrary nesting, sets, images, products and derived terms is not exercised.",
  ["src/Narsese.c", "src/Term.c", "src/Variable.c"],
  [("canonical copula replacement, prefix transform, binary tree encoding", "src/Narsese.c"), ("pretty printer", "src/Narsese.c"), ("atom interning", "src/Narsese.c")],
  observe=["printed Input:/Derived: lines", "parsed term structure"])

p("C03", "Truth values stay finite and in range everywhere, always",
  "Every truth value that is stored in memory, selected, derived, printed or used for a decision has a finite frequency in [0,1] and a finite confidence in [0,1). A priority is always finite and in [0,1].",
  ["inputs", "histories"], "all input truth values the system accepts and all reasoning histories",
  "Tests look at single truth values of a few conclusions; an out-of-range or NaN value appears only for particular operand combinations (0/1/extreme confidence, long revision chains, zero total evidence).",
  ["src/Truth.c", "src/Narsese.c", "src/Memory.c", "src/Inference.c", "src/Decision.c", "src/Cycle.c"],
  [("clamping in revision", "src/Truth.c"), ("range asserts at table insertion", "src/Table.c"), ("input truth parsing", "src/Narsese.c")],
  observe=["all live concepts, tables, queues after every cycle", "every trace line"])

p("C04", "Truth functions compute the NAL-defined values for every operand",
  "For all operand truth values, each truth function (deduction, induction, abduction, exemplification, comparison, analogy, resemblance, intersection, union, difference, negation, structural and decomposition variants, anonymous analogy, goal deduction, frequency comparison, revision, eternalization, temporal projection, expectation) returns the frequency and confidence given by its NAL definition with evidential horizon 1, projection decay 0.8 and reliance 0.9. In particular no inference result is more confident than allowed by its premises, and expectation is c*(f-0.5)+0.5.",
  ["inputs"], "all operand truth values in [0,1]x[0,1)",
  "Only one or two operand pairs per function occur in tests and most functions are never observed numerically; a wrong operand order or sign shows only for asymmetric operands.",
  ["src/Truth.c", "src/Truth.h"],
  [("truth function definitions", "src/Truth.c")],
  observe=["direct calls over a dense operand grid", "truth values of conclusions in live runs"])

p("C05", "Evidence is never counted twice and always traced",
  "Every input gets a fresh evidence id (or the explicitly imported stamp), and every conclusion, revision or sequence carries evidence ids drawn only from its premises, interleaved from both and truncated to the stamp size. Two pieces of information that share an evidence id are never combined by declarative inference, revision of events, beliefs or implications, sequence building or temporal induction, or used for a prediction, so no knowledge lists an id twice.",
  ["inputs", "histories"], "all input histories",
  "Tests compare final answers; double counting raises confidence only slightly and only when premises share a common ancestor several derivation steps back.",
  ["src/Stamp.c", "src/Event.c", "src/Inference.c", "src/Cycle.c", "src/Decision.c"],
  [("Stamp_checkOverlap before combination", "src/Cycle.c, src/Inference.c, src/Decision.c"), ("Stamp_make interleaving", "src/Stamp.c"), ("base counter", "src/Event.c")],
  state=[("evidentialBase", "ids of the inputs a conclusion rests on", "src/Stamp.h"), ("base", "next input id", "src/Event.c")],
  observe=["Stamp=[...] of trace lines", "calls combining two stamps"])

p("C06", "Declarative derivations are exactly those the NAL rules license",
  "Applying inference to a premise (or premise pair) yields precisely the conclusions the documented NAL 1-6 rule set and term reductions give for it, each with the truth value of the rule's truth function on the premises in the rule's order. No conclusion appears that no rule licenses, and none a rule gives is lost except by the documented term-validity filters and size limits. In a cycle each selected belief is combined with the belief that each related, attended concept holds (its current event, projected, if that is near enough in time, and its eternal belief otherwise).",
  ["inputs", "programs"], "all premise terms, truth values, and premise pairs",
  "The .nal tests check that some expected conclusion appears in some context; the rule table is generated code of ~200 rules in both premise orders, and a swapped truth argument, a missing equality constraint or a rule firing on a wrong pattern is invisible to them.",
  ["src/NAL.h", "src/NAL.c", "src/Cycle.c", "src/Term.c", "src/Variable.c"],
  [("rule table generator and generated RuleTable.c", "src/NAL.c"), ("special inferences with unification", "src/Cycle.c"), ("term validity filters", "src/NAL.c")],
  observe=["conclusions handed to memory per rule table application"])

p("C07", "Memory stays bounded and its indices stay consistent under forgetting",
  "However much is input and derived, the number of concepts, buffered events, table entries and index entries never exceeds the configured capacities, and forgetting only ever frees room for new content. At all times every concept held is found by its term, no two concepts have the same term, a forgotten concept is found by no lookup, and associative recall for a term reaches exactly the held concepts sharing one of its leading atoms.",
  ["histories", "configurations"], "all input histories, in particular those that overflow each store",
  "The tests hold a few hundred of 16384 concepts, so eviction and recycling code runs in no test.",
  ["src/Memory.c", "src/HashTable.c", "src/InvertedAtomIndex.c", "src/PriorityQueue.c", "src/OccurrenceTimeIndex.c", "src/Stack.c"],
  [("recycling in Memory_Conceptualize", "src/Memory.c"), ("chain bookkeeping", "src/InvertedAtomIndex.c"), ("free stacks", "src/Stack.c, src/HashTable.c")],
  state=[("concepts", "ranked concept store", "src/Memory.c"), ("HTconcepts", "term to concept map", "src/Memory.c"), ("invertedAtomIndex", "atom to concepts recall", "src/InvertedAtomIndex.c")],
  observe=["whole-store walk after each input in small-capacity builds"])

p("C08", "Ranked stores evict the lowest and select the highest, losing nothing else",
  "The attention buffers and the concept store behave as bounded priority collections for every operation sequence: selection removes an item of maximal priority, a push into a full store evicts an item of minimal priority if the new one is not ranked lower (ties evict) and is refused otherwise, and every other item is kept with its own priority. A popped or refused item is never duplicated and storage of distinct items is never shared.",
  ["histories", "inputs"], "all sequences of push, pop-max, pop-min, pop-at, re-prioritisation and rebuild, with ties",
  "The unit test pushes a few increasing priorities once; ties, full queues, interleaved pops at both ends and rebuild after decay are not covered.",
  ["src/PriorityQueue.c", "src/PriorityQueue.h"],
  [("interval heap", "src/PriorityQueue.c")],
  observe=["queue contents and feedback after each operation"])

p("C09", "Lookup by name and by term is an exact map",
  "Interning an atom name always returns the same identity for the same name and different identities for different names (up to the documented name length), and lookup of stored content by term returns the item last stored for an equal term and nothing else, for every sequence of insertions and deletions including hash collisions and full stores. Hashing and equality agree: equal terms hash equally, whichever way they were built.",
  ["histories", "inputs"], "all sequences of set/get/delete and all keys, including colliding ones",
  "The unit test inserts and deletes a couple of keys; collision chains, deletion inside a chain and exhaustion are not reached.",
  ["src/HashTable.c", "src/Globals.c", "src/Narsese.c", "src/Term.c"],
  [("chained hash table with free stack", "src/HashTable.c"), ("Globals_Hash and cached term hash", "src/Globals.c, src/Term.c")],
  observe=["return values of get/set/delete against a model map"])

p("C10", "Implication tables are bounded, ranked, duplicate-free and sound",
  "Every table of learned implications holds at most its capacity, is ordered by decreasing truth expectation, contains no two entries for the same implication, contains only implications whose consequence is the concept it is stored under and whose operation is the one of its slot, and a weaker entry never displaces a stronger one. Adding evidence for a known implication revises its entry (evidence adds up, time offset averages by evidence) instead of adding another; entries whose precondition concept was forgotten are never used.",
  ["histories", "inputs"], "all sequences of additions, revisions and removals",
  "Tests insert two or three implications; full tables, equal expectations, revision that changes rank and forgotten preconditions do not occur.",
  ["src/Table.c", "src/Memory.c", "src/Inference.c", "src/Decision.c", "src/Cycle.c"],
  [("Table_Add / Table_AddAndRevise", "src/Table.c"), ("source concept id validation", "src/Memory.c")],
  observe=["all tables of all concepts after each cycle", "table contents against a model list"])

p("C11", "Questions get the best matching answer known, and nothing else",
  "A question is answered with a stored belief or implication that unifies with it and has the highest truth expectation among all matching ones (for tensed questions, after projection to the current time), reporting exactly that item's term, truth, stamp, occurrence and creation time, and with None exactly when nothing in memory matches. A query lists precisely the matching items above its threshold, and asking changes no belief.",
  ["inputs", "histories"], "all questions over all memory contents",
  "Expected answers are checked for a few dozen fixed questions whose best answer is the only one; ties, several candidates, tense and None are barely covered.",
  ["src/NAR.c", "src/Shell.c", "src/Variable.c"],
  [("answer scan", "src/NAR.c")],
  observe=["Answer: lines against an independent scan of memory"])

p("C12", "Revision pools independent evidence; otherwise the stronger belief is kept",
  "Whenever two pieces of information about the same statement and time with disjoint evidence meet, the result has the summed evidence of both (so confidence never falls below either one and the order does not matter), and when their evidence overlaps or their times differ, the one with higher confidence after projection is kept unchanged, the old one on ties. The belief held for a statement therefore never loses confidence in its eternal form, and is never influenced by a different statement.",
  ["inputs", "histories"], "all orders and truth values of evidence for a statement",
  "Tests revise two or three fixed values in one order.",
  ["src/Inference.c", "src/Truth.c", "src/Memory.c"],
  [("Inference_RevisionAndChoice", "src/Inference.c"), ("Truth_Revision", "src/Truth.c")],
  observe=["belief of each concept before and after each input"])

p("C13", "Time advances exactly as specified and projection decays only confidence",
  "Each input sentence advances the clock by one step, as does each requested inference step and each executed operation's feedback; questions and commands do not advance it. An input event occurs now, derived events get the occurrence time their rule dictates, events in the past weaken only in confidence by the projection decay per step of distance, and eternal knowledge does not weaken.",
  ["inputs", "histories"], "all interleavings of inputs, steps, executions and commands",
  "Tests never look at the clock except through outcomes of a few scripted scenarios.",
  ["src/NAR.c", "src/Event.c", "src/Truth.c", "src/Inference.c", "src/Shell.c", "src/Memory.c"],
  [("currentTime", "src/NAR.c"), ("Truth_Projection / Truth_Eternalize", "src/Truth.c")],
  observe=["clock after each line", "occurrenceTime of trace lines"])

p("C14", "Temporal learning records what was observed, with the observed delay",
  "Whenever two independent events (optionally with an operation executed in between) are observed within the temporal window, the system derives the temporal implication from the earlier to the later with the delay actually observed and induction truth from the projected events, and forms their sequence with intersection truth at the later event's time. It never derives an implication or sequence backwards in time, from overlapping evidence, beyond the window or length limits, or with a different operation than executed.",
  ["inputs", "histories"], "all event streams",
  "A few scripted streams check that a known contingency is eventually exploited, not which implications are formed and with what delay and truth.",
  ["src/Cycle.c", "src/Inference.c", "src/OccurrenceTimeIndex.c", "src/Memory.c"],
  [("Cycle_ProcessBeliefEvents, Cycle_ReinforceLink", "src/Cycle.c"), ("Inference_BeliefInduction/Intersection", "src/Inference.c")],
  observe=["Derived: dt=... lines and induction calls against the recorded event history"])

p("C15", "Operations run only by justified decisions and are reported faithfully",
  "An operation is executed only if motor babbling is enabled and chose it among the configured babbling operations and arguments, or if a learned or given implication for a current goal with its precondition matched and a recomputable desire of at least the decision threshold calls for it. It is executed exactly once per decision with the arguments of that decision, at most one decision per goal processing step, and the execution is fed back as an event input that names the same operation and arguments.",
  ["inputs", "histories", "configurations"], "all knowledge, goals, thresholds and operator configurations",
  "Procedure tests score average success of learning; a single unjustified, duplicated or wrongly parameterised execution does not change the verdict.",
  ["src/Decision.c", "src/Cycle.c", "src/NAR.c", "src/Shell.c"],
  [("Decision_Suggest, Decision_BestCandidate, Decision_ConsiderImplication, Decision_Execute", "src/Decision.c")],
  observe=["operation callbacks, 'executed with args' and 'decision expectation' lines, feedback input events"])

p("C16", "Failed predictions weaken hypotheses, fulfilled ones strengthen them",
  "When a hypothesis' precondition (and operation) occurs, its anticipated consequence is predicted at the time given by its delay and the hypothesis receives a small amount of negative evidence (frequency 0, the configured anticipation confidence through induction) that can only lower its frequency; observing the consequence adds positive evidence outweighing it. Hypotheses whose precondition, operation or arguments do not match the situation are left untouched.",
  ["inputs", "histories"], "all hypotheses and event histories",
  "Tests only see the long-run outcome of learning scenarios.",
  ["src/Decision.c", "src/Table.c", "src/Inference.c", "src/Cycle.c"],
  [("Decision_Anticipate, Decision_AddNegativeConfirmation", "src/Decision.c")],
  observe=["implication truths before and after each cycle, predicted beliefs"])

p("C17", "Runs are reproducible and depend on nothing but the input",
  "The same program given the same input produces byte-identical output every time, in any environment, memory layout, locale, optimisation level or build directory, and no decision or output depends on uninitialised memory, addresses or wall-clock time.",
  ["inputs", "histories", "configurations"], "all input scripts; all process environments and builds",
  "Tests run every script once in one environment.",
  ["src/Globals.c", "src/Memory.c", "src/Narsese.c", "src/Shell.c", "src/main.c", "src/HashTable.c"],
  [("own pseudo random generator with fixed seed", "src/Globals.c"), ("zero initialisation of all stores", "src/Memory.c")],
  observe=["stdout of repeated runs, memory-perturbed runs, different compilers, valgrind/MSan builds"])

p("C18", "A reset is equivalent to a fresh start",
  "After *reset the system behaves, for every following input, as a freshly started one with the same session parameters: no belief, goal, concept, operator, value, time, evidence id or statistic from before influences later output (only the pseudo-random sequence of motor babbling continues, and session parameters such as thresholds and output volume are kept). Two resets in a row equal one.",
  ["histories"], "all histories before the reset and all inputs after it",
  "No test issues *reset.",
  ["src/NAR.c", "src/Memory.c", "src/Narsese.c", "src/Event.c", "src/Cycle.c", "src/InvertedAtomIndex.c", "src/Shell.c", "src/Stats.c"],
  [("NAR_INIT and the module INIT functions", "src/NAR.c")],
  observe=["output after *reset against output of a new process"])

p("C19", "The network server is race-free and equivalent to the shell",
  "Under every schedule of datagram arrival, timer ticks and shutdown, the UDP server processes each received command whole, in order and exactly once, with the same effect as the same line in the shell, advancing time in between only at its timer. Reasoner state is never accessed concurrently, and stopping and restarting terminates cleanly. Derivations are printed as the command line asked.",
  ["schedules", "inputs"], "all arrival orders, datagram contents/sizes and thread schedules",
  "The system test sends two commands with sleeps around them; races and unterminated buffers do not show.",
  ["src/NetworkNAR/UDPNAR.c", "src/NetworkNAR/UDP.c", "src/main.c"],
  [("mutex around reasoner access", "src/NetworkNAR/UDPNAR.c"), ("Stopped flag and join", "src/NetworkNAR/UDPNAR.c")],
  observe=["ThreadSanitizer reports", "echo of each command and its output over loopback"])

p("C20", "Goals are pursued by licensed subgoals only, without duplicates",
  "Every derived goal is the first unfulfilled step of a selected sequence goal, or the precondition (without operation) of a valid implication whose consequence matches the pursued goal, with goal-deduction truth and combined evidence, occurs now, and is placed exactly one layer deeper (bounded by the last layer). No goal or belief already being considered with the same truth, time and evidence is added twice, and after an operation is executed no pending goal remains.",
  ["inputs", "histories"], "all knowledge bases, goals and belief histories",
  "Procedure tests observe only which operation is finally executed.",
  ["src/Cycle.c", "src/Memory.c", "src/Inference.c"],
  [("Cycle_GoalSequenceDecomposition, Cycle_ProcessAndInferGoalEvents", "src/Cycle.c"), ("Memory_addCyclingEvent", "src/Memory.c")],
  observe=["goals entering the layered goal buffers"])

p("C21", "Unification, substitution and variable introduction are sound",
  "If matching a general term against a specific one succeeds, applying the resulting substitution to the general term yields exactly the specific one, each variable having one consistent binding (a query variable never binding another variable); if a solution of that kind exists within the size limits, it is found. Variable normalisation renames variables consistently and injectively, and introduced variables replace all and only occurrences of a term that occurs at least twice, so instantiating them again gives back the original.",
  ["inputs"], "all pairs of terms",
  "Tests unify a few hand-written pairs.",
  ["src/Variable.c", "src/Variable.h", "src/Term.c"],
  [("Variable_Unify2, Variable_ApplySubstitute, Variable_Normalize, Variable_Introduce*", "src/Variable.c")],
  observe=["direct calls over generated terms and all calls in live runs"])

p("C22", "Term composition and decomposition are exact inverses",
  "Extracting a component of a compound gives exactly that component, inserting a component and extracting it again gives it back and changes nothing else, and an insertion that does not fit (some component would lie beyond the size limit) is refused rather than truncated. Equality is structural, an equivalence, and complexity counts the atoms.",
  ["inputs"], "all terms, positions and components within and beyond the size limit",
  "Unit tests cover two terms.",
  ["src/Term.c", "src/Term.h"],
  [("Term_ExtractSubterm / Term_OverrideSubterm / Term_Equal / Term_Hash / Term_Complexity", "src/Term.c")],
  observe=["direct calls against an explicit tree model"])

p("C23", "Commands set exactly what they name and report the state truthfully",
  "Each shell command changes exactly the parameter, operator registration, argument, time, evidence id or value it names, to the given value, or is rejected; comments and inspection commands change nothing. *opconfig, *concepts, *cycling_*_events and *stats print the complete current state, and feeding an *opconfig listing of operators registered in order to a reset system reproduces the same operator configuration (registering a name which is registered already clears that name and those after it).",
  ["inputs", "histories"], "all commands, arguments and orders",
  "Only a few commands occur in the tests and their listing output is never compared with state.",
  ["src/Shell.c", "src/Stats.c", "src/NAR.c", "src/Memory.c"],
  [("command dispatch", "src/Shell.c")],
  observe=["state snapshot before and after each command, listing output"])

p("C24", "The text protocol is complete and machine-readable",
  "Every line printed by the shell is one well-formed record of the documented kinds; each event or implication line carries a parseable term, time, priority, stamp and truth that equal the reported item, so a client such as NAR.py recovers the same term, truth, stamp and time. Every input belief and goal accepted is echoed once, every newly buffered derivation is reported once when output is on, and with output off none is.",
  ["inputs", "histories"], "all input scripts and volume settings",
  "The Python tests parse a few lines; no test checks the output is complete or consistent with the state.",
  ["src/Memory.c", "src/Narsese.c", "src/Stamp.c", "src/Truth.c", "src/Decision.c", "src/Shell.c", "misc/Python/NAR.py"],
  [("Memory_printAddedKnowledge", "src/Memory.c"), ("NAR.py parsing", "misc/Python/NAR.py")],
  observe=["every stdout line against a grammar and against logged events"])

p("C25", "Forgetting is governed by usefulness: recent and frequent use protects",
  "A concept's rank is use count over recency, normalised; it rises with use, falls with time since last use, and given eternal knowledge is boosted so it outlives incidental content. Priorities of concepts and buffered events decay by their durability factors each step and are otherwise raised only by new activation; nothing leaves concept memory before it is full, and then the concept of lowest rank, as of the last step, gives way.",
  ["histories"], "all usage histories in full memory",
  "No test fills memory or looks at ranks.",
  ["src/Usage.c", "src/Cycle.c", "src/Memory.c", "src/PriorityQueue.c"],
  [("Usage_usefulness, Usage_use", "src/Usage.c"), ("Cycle_RelativeForgetting", "src/Cycle.c")],
  observe=["rank, use count and priority of each concept across steps"])

p("C26", "Numeric values compare by magnitude, graded by distance",
  "A value registered for an atom is what later comparisons use; two valued atoms of the same quantity match in proportion to their closeness (never beyond the similarity distance, exactly for equal values), atoms without value or of different quantities never match by value, and comparative relations (larger, equal) derived for two values state the actual order.",
  ["inputs", "histories"], "all values, granularities, measurement names and similarity distances",
  "Examples with numeric values check a couple of outcomes.",
  ["src/Variable.c", "src/Narsese.c", "src/Shell.c", "src/Cycle.c", "src/NAL.h"],
  [("Variable_UnifyWithAnalogy", "src/Variable.c"), ("Narsese_setAtomValue", "src/Narsese.c"), ("comparative relations", "src/Cycle.c")],
  observe=["match truths over generated values", "derived relation events"])

p("C27", "Restricted mode creates no concept that was not input",
  "With restricted concept creation on, no derived statement enters memory or the attention buffers unless a concept for it already exists, while inputs, temporal implications (with the sequences they are built from) and revisions work as usual; switching it off or resetting restores normal behaviour.",
  ["histories", "configurations"], "all input histories with the mode toggled at any point",
  "No test enables the mode.",
  ["src/Memory.c", "src/Shell.c"],
  [("guard in Memory_AddEvent", "src/Memory.c")],
  observe=["concept set before and after each cycle"])

p("C28", "Every step does bounded work and always returns",
  "Each reasoning step selects at most the configured number of belief and goal events, matches at most the configured number of belief concepts per selected event, processes each related concept at most once per event, and terminates; accepted input of any kind never makes a later step's work grow beyond the store capacities.",
  ["inputs", "histories"], "all input histories",
  "Test scripts are short and wall-clock only.",
  ["src/Cycle.c", "src/InvertedAtomIndex.c", "src/Decision.c", "src/Stats.c"],
  [("selection limits, process ids, match target", "src/Cycle.c")],
  observe=["counts of selections, rule applications and decisions per step"])

p("C29", "Embedding the library equals using the shell",
  "A host program that drives the reasoner through the C/C++ interface with given terms, truth values, operations and steps sees the same beliefs, answers, executions and clock as the shell given the corresponding lines; registered callbacks receive the executed arguments and their feedback substitution or failure is respected: it completes the reported feedback event and the arguments of the operations that follow in a sequence, and a failure gives no feedback and ends the sequence. Result products given on standard input to operations declared so act as the same substitution by a callback.",
  ["programs", "inputs", "histories"], "all interleavings of API calls and callback results",
  "The two embedding examples run one fixed scenario each.",
  ["src/NAR.c", "src/NAR.h", "src/Decision.c", "src/Narsese.c"],
  [("NAR_AddInput*, NAR_AddOperation, NAR_Cycles", "src/NAR.c"), ("Feedback handling", "src/Decision.c")],
  observe=["state digest after equivalent API and shell histories"])

p("C30", "Executed hypotheses yield exactly their functional equivalences",
  "Whenever an operation is executed because of a hypothesis without variables, every other variable-free hypothesis held for the same operation (with the same arguments) and the same outcome, whose precondition is different but of equal length once the parts both have in common are left out, whose evidence is disjoint, and whose precondition is not linked to the other one in time with an expectation above one half, yields that the one precondition implies the other and vice versa, with the truth values of induction and abduction from both hypotheses, the evidence of both, at the current time, and the generalisations of both conclusions; no other conclusion is drawn from an execution.",
  ["inputs", "histories"], "all sets of competing hypotheses, temporal links and executions",
  "The few examples which execute operations hold one hypothesis per operation; no test looks at the equivalences.",
  ["src/Decision.c", "src/Variable.c", "src/Memory.c"],
  [("Decision_Execute", "src/Decision.c"), ("Variable_IntroduceImplicationVariables2", "src/Variable.c"), ("Memory_getTemporalLinkTruth", "src/Memory.c")],
  observe=["hypotheses and temporal links held when an operation is executed, and the events added to memory until the operation is called"])

p("C31", "Whatever is added to memory is held as given, and nothing else changes",
  "Every belief which is accepted (of sufficient confidence and, in restricted mode, about something known) is held afterwards in the concept of its statement: present and past events in its event belief, future ones in its prediction, and all of them, eternalised, in its belief, each pooled or chosen against what was held before and marked with the time of the update; implications are held about their consequence in the slot of the operation they end with, with truth, evidence, delay and precondition, unless stronger ones fill the table, and never when the operation is another agent's. It is buffered for processing with the priority given unless it is already known, buffered or (eternal) held with higher confidence, and taken into account for temporal relations if it is an event which is not a continuous property. Nothing else that is held changes: no other belief, goal or implication, and weaker or goal additions change no belief at all.",
  ["inputs", "histories"], "all additions to memory, in all states of memory",
  "Tests look at single answers or decisions at the end of a script; delays, predictions, update times and unrelated content are not looked at.",
  ["src/Memory.c", "src/Table.c", "src/Inference.c", "src/Event.c"],
  [("Memory_AddEvent, Memory_ProcessNewBeliefEvent", "src/Memory.c"), ("Table_AddAndRevise", "src/Table.c")],
  observe=["all concepts, tables, the buffer and the event index before and after each addition"])

p("C32", "Selected events activate exactly the concepts they match",
  "In every cycle the events taken for processing (beliefs not yet processed, recent and not gradual properties; goals; sequences composed from them) activate all recalled concepts they match and no others: a concept matches an event without variables (or with query variables) which its statement generalises, or an event with variables which applies to its statement. An activated concept counts as selected now and holds what the event says about it, if that occurred later than what it held; goals are then chosen or revised against what their concepts hold. Besides that and declarative or temporal predictions, no belief, prediction, event or goal held by any concept changes in a cycle except through additions to memory; each processed event has a concept afterwards while memory has room; and only composed or given sequences without independent or dependent variables become candidates for temporal relations this way.",
  ["inputs", "histories"], "all selected events and concepts, with all kinds of variables, at all times",
  "Tests look at final answers or decisions; which concepts an event reached, or kept what they held, is not looked at.",
  ["src/Cycle.c", "src/Variable.c", "src/Memory.c", "src/InvertedAtomIndex.c"],
  [("Cycle_ProcessSensorimotorEvent, Cycle_ActivateSensorimotorConcept", "src/Cycle.c"), ("RELATED_CONCEPTS_FOREACH", "src/Memory.h")],
  observe=["what all concepts hold at the start and end of each cycle and around each addition and choice in it, and the events selected in it"])

p("C33", "What was printed or dumped can be put back, with nothing lost",
  "Every belief, event, goal and temporal implication which a session prints (as input, derived, revised, selected or answered, or in the listing of the memory) of at least the minimum confidence is accepted by a fresh system, at the time it is about, after its evidence was imported, and is held, reported and answered there with the same term (up to names of variables and reductions of terms), truth value, time, delay and evidence, and listed the same way. The configuration and memory parts that are extracted from a log by the inspection tool restore the operations and parameters, and, while memory is not full, every belief and implication with at least the confidence it had. The filters and converters for printed output pass on exactly the lines they are for.",
  ["inputs", "histories"], "all sessions, and all sentences and listings they print",
  "No test feeds printed output back; saved memory is used by people across sessions.",
  ["src/Shell.c", "src/Memory.c", "src/Narsese.c", "src/NAR.c", "src/Event.c", "inspection_extract_importable_parts.py", "derivation_priority_filter.py", "concept_usefulness_filter.py", "misc/Python/printed_narsese_to_input.py"],
  [("Memory_printAddedKnowledge", "src/Memory.c"), ("*concepts, *opconfig, *stampimport, *currenttime", "src/Shell.c"), ("Narsese_Sentence", "src/Narsese.c"), ("Event_InputEvent", "src/Event.c")],
  observe=["lines printed by a session, and what a second system reports, answers and lists for each of them; output of the tools"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
