"""Single source of properties.jsonl and MANIFEST.json (python3-vt lib/gen_docs.py)."""
P = []
def p(id, title, statement, over, text, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/" + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech]), na=na))

p("C01", "Truth functions keep truth values admissible",
  "For premises whose frequency lies in [0,1] and whose confidence lies in [0, maximum confidence], every truth function yields a frequency in [0,1] and a confidence in [0, maximum confidence], never NaN; expectation lies in [0,1]. The comparison of two truth values is exact on both components.",
  ["inputs"], "all pairs of truth values representable as IEEE doubles in the admissible range", "the tests use a handful of truth values; rounding and division corner cases are not sampled",
  ["Truth.c", "Truth.h", "Config.h"], [("truth functions", "Truth.c: Truth_*")])
p("C02", "Truth functions are the NAL truth-value formulas",
  "Each inference rule's truth function (deduction, abduction, induction, exemplification, comparison, analogy, resemblance, conversion, intersection, union, difference, negation, the structural and decomposition functions, anonymous analogy, goal deduction, frequency comparison) and the expectation/evidence conversions compute, up to rounding, the formula Non-Axiomatic Logic defines for it with evidential horizon 1. Strength of a conclusion therefore never depends on anything but the two premises' truth values.",
  ["inputs"], "all real truth values in the admissible range", "tests compare a few outputs; a wrong factor that vanishes at frequency 1 (the usual test input) is invisible",
  ["Truth.c"], [("truth functions", "Truth.c: Truth_*")])
p("C03", "Revision, projection and eternalization treat evidence lawfully",
  "Revising two truth values adds up their evidence: the frequency is the evidence-weighted mean of the two, the confidence that of the summed evidence (at least that of either premise, capped at the maximum), independent of premise order. Projecting to another time keeps the frequency and multiplies confidence by the decay factor per time step of distance (eternal truth is unaffected), so it never gains confidence and loses no less over longer distances; eternalization keeps the frequency and never raises confidence.",
  ["inputs"], "all real truth values in the admissible range and all time distances", "a handful of numeric tests",
  ["Truth.c"], [("revision", "Truth.c: Truth_Revision"), ("projection", "Truth.c: Truth_Projection"), ("eternalization", "Truth.c: Truth_Eternalize")])
p("C04", "Evidential bases are merged and compared faithfully",
  "A conclusion's evidential base holds only evidence of its premises, without gaps, uses the full capacity, and when it must be truncated keeps the most recent entries of both premises in alternation. Two bases are reported as overlapping exactly when they share an evidence identifier, symmetrically, and two duplicate-free bases of the same size compare as equal exactly when they hold the same evidence.",
  ["inputs"], "all pairs of stamps (any fill level, any identifiers)", "tests use two short stamps",
  ["Stamp.c", "Stamp.h"], [("merge", "Stamp.c: Stamp_make"), ("overlap", "Stamp.c: Stamp_checkOverlap"), ("equality", "Stamp.c: Stamp_Equal")])
p("C05", "The same evidence is never counted twice in revision",
  "When a new belief or goal event meets the stored one, the two are revised only if their terms are equal, their evidential bases are disjoint, and they speak about the same time (or the stored one is eternal); the revised event then carries the merged evidence of both and the revised truth of both. Otherwise the more confident of the two, compared after projection to the later of their times, is kept unchanged. Nothing stored is overwritten by a less confident event.",
  ["inputs", "histories"], "all pairs of events: stamps, truth values, occurrence times", "overlap with particular truncated stamps and times is not sampled",
  ["Inference.c", "Memory.c", "Cycle.c"], [("revision or choice", "Inference.c: Inference_RevisionAndChoice"), ("adding to a concept", "Memory.c / Cycle.c")])
p("C06", "Term equality, subterm extraction and replacement agree",
  "Two terms are equal exactly when all their positions hold the same atoms, and equal terms hash equally regardless of how they were built. Extracting the subterm below a position yields exactly the tree rooted there, and placing a term at a position replaces exactly that tree and nothing else, failing rather than writing a truncated term when it does not fit.",
  ["inputs"], "all terms (arrays of atoms in tree layout) and all positions", "tests build a few small terms; deep right-hand sides near the size limit are not sampled",
  ["Term.c", "Term.h"], [("equality", "Term.c: Term_Equal"), ("extraction", "Term.c: Term_ExtractSubterm"), ("override", "Term.c: Term_OverrideSubterm")])
p("C07", "Unification is sound and complete on one-sided matching",
  "For a general and a specific term whose variables are named apart: if unification succeeds, substituting the returned bindings into the general term yields exactly the specific term, and each variable is bound consistently; if it fails, no such substitution exists. Variables of every kind may be bound, except that in question answering only the question's query variables are; a query variable is never bound to a variable. Substituting replaces exactly the bound variables, at every position, and nothing else. (Bindings by numeric closeness of measured values are outside this property.)",
  ["inputs"], "all pairs of terms within the size bound", "tests try a few hand-written pairs",
  ["Variable.c", "Variable.h"], [("unification", "Variable.c: Variable_Unify/Variable_Unify2"), ("substitution", "Variable.c: Variable_ApplySubstitute")])
p("C08", "Variable renaming is consistent and canonical",
  "Normalizing the variables of a statement renames variables injectively within each kind, in order of first occurrence, and changes nothing else, so that statements equal up to renaming become identical and normalizing twice changes nothing.",
  ["inputs"], "all terms within the size bound", "only sampled on few statements",
  ["Variable.c"], [("normalization", "Variable.c: Variable_Normalize")])
p("C09", "Variable introduction generalizes and can be undone",
  "Introducing variables into a statement replaces every occurrence of an atom or not at all: an atom occurring on both sides of the implication's arguments becomes an independent variable, one that occurs repeatedly on one side only a dependent variable, all others are left alone; copulas and operators are never replaced. Different atoms get different, fresh variables, so that substituting the replaced atoms back yields the original statement.",
  ["inputs"], "all statements within the size bound", "only sampled on few statements",
  ["Variable.c"], [("introduction", "Variable.c: Variable_IntroduceImplicationVariables, Variable_IntroduceConjunctionVariables")])
p("C10", "Bounded priority queues keep the best items",
  "A queue of fixed capacity accepts every item while there is room and afterwards exactly those not worse than its worst, evicting a worst one and recycling its storage; removal from either end yields an item of highest (or lowest) priority together with its own payload. No item is lost, duplicated or given another item's priority, whatever the history of operations.",
  ["histories", "inputs"], "all priorities, for every listed order of push / pop-min / pop-max / in-place rebuild operations", "the queue test pushes one fixed series",
  ["PriorityQueue.c"], [("push", "PriorityQueue.c: PriorityQueue_Push"), ("pop", "PriorityQueue.c: PriorityQueue_PopMin/PopMax"), ("rebuild", "PriorityQueue.c: PriorityQueue_Rebuild")])
p("C11", "Hash tables behave as maps and hashes are valid bucket indexes",
  "A lookup returns exactly the value last stored under an equal key and nothing after that key was deleted, whatever collisions occur and in whatever order keys are stored, overwritten and deleted; deleting frees capacity for reuse. Hash values are non-negative for every content and equal for equal contents.",
  ["histories", "inputs"], "all hash functions over two buckets, key/value choices and listed operation orders; all 64-bit contents for the hash", "collision chains are hit only by chance in tests",
  ["HashTable.c", "Globals.c"], [("set/get/delete", "HashTable.c"), ("hash", "Globals.c: Globals_Hash")])
p("C12", "The atom index lists exactly the existing concepts",
  "For every simple atom, the related-concept index lists a concept exactly once if the concept exists and its term contains the atom within the indexed depth, and otherwise not at all; forgetting a concept removes all its entries and their storage can be reused.",
  ["histories"], "all terms over a small atom vocabulary and listed add/remove orders", "tests add and remove one concept",
  ["InvertedAtomIndex.c"], [("add/remove", "InvertedAtomIndex.c"), ("lookup", "InvertedAtomIndex.c: InvertedAtomIndex_GetConceptChain")])
p("C14", "Concept memory stays consistent under creation and forgetting",
  "Requesting a concept for a term returns the same concept as long as it is in memory, and looking up a term finds a concept exactly if one with that term is stored. When memory is full, creating a concept forgets a least useful one entirely (it is no longer found by term nor listed under its atoms), and the new concept starts without beliefs, goals or links of the forgotten one.",
  ["histories"], "all usage histories and term sets within the bounds", "eviction under chosen usage patterns is not covered by tests",
  ["Memory.c", "HashTable.c", "InvertedAtomIndex.c", "PriorityQueue.c"], [("creation", "Memory.c: Memory_Conceptualize"), ("lookup", "Memory.c: Memory_FindConceptByTerm")])
p("C15", "Implication tables keep the strongest distinct hypotheses",
  "A table of bounded size holds at most one implication per distinct term, ordered by descending truth expectation; adding one whose term is present replaces that entry by the revision of both (summing their evidence and averaging the time distance by evidence), leaving all others alone, and adding to a full table drops only the weakest, and only for a stronger one. Removing an entry removes exactly that entry and keeps the order.",
  ["inputs", "histories"], "all truth values and term patterns for tables within the bounds", "tests add a few entries",
  ["Table.c", "Inference.c"], [("add", "Table.c: Table_Add"), ("revise", "Table.c: Table_AddAndRevise"), ("remove", "Table.c: Table_Remove")])
p("C16", "The occurrence-time index remembers the latest events",
  "The index of recently active concepts is a ring that holds the most recently added concepts, newest first, up to its capacity: once full, each addition drops exactly the oldest; access to any of its entries stays within the ring.",
  ["histories"], "all insertion histories within the bound and one step from any state at full size", "wrap-around is not tested",
  ["OccurrenceTimeIndex.c"], [("add", "OccurrenceTimeIndex.c")])
p("C17", "No Narsese text can corrupt memory",
  "Whatever bytes are given as a sentence or term, parsing either produces a term or refuses cleanly; it never reads or writes outside its buffers, whatever the nesting, bracket balance, length, number of parts, or number and length of atom names; printing a term stays within the term.",
  ["inputs"], "all byte strings up to the stated length for each parsing stage", "tests feed only well-formed Narsese",
  ["Narsese.c"], [("expansion and prefix transform", "Narsese.c: Narsese_Expand, Narsese_PrefixTransform"), ("tree building", "Narsese.c: buildBinaryTree"), ("sentence", "Narsese.c: Narsese_Sentence")])
p("C18", "Printing and parsing a term are inverse",
  "Parsing the printed form of a term yields the same term, so that what the system reports can be given back to it; each copula and connector is parsed to the same structure in every documented notation.",
  ["inputs"], "all terms of the stated shapes and atoms", "round trips are not tested",
  ["Narsese.c"], [("parse", "Narsese.c: Narsese_Term"), ("print", "Narsese.c: Narsese_PrintTerm")])
p("C19", "Sentences are read with exactly the given punctuation, tense and truth",
  "A sentence's punctuation decides whether it is a belief, goal or question; its tense marker decides whether it is eternal, present, past or future; a leading dt=number is its time offset; frequency and confidence are those written, or the documented defaults (a confidence above the maximum counts as the maximum); and truth values outside the range from 0 to 1 are refused, so that they never enter the system.",
  ["inputs"], "all placements of punctuation, tense and truth within the bounds", "tests use well-formed examples",
  ["Narsese.c", "NAR.c"], [("sentence", "Narsese.c: Narsese_Sentence"), ("input", "NAR.c: NAR_AddInputNarsese")])
p("C20", "Inference rules derive the NAL conclusions with their truth values",
  "For premises matching a rule of the logic (in either order) the system derives that rule's conclusion, with the subject and predicate positions and the truth function Non-Axiomatic Logic assigns, and nothing from these premises beyond what the rules allow: deduction, abduction, induction, exemplification, analogy, comparison and resemblance over inheritance, similarity, implication and equivalence; instance and property statements; composition and decomposition of intersections, differences, sets, conjunctions, disjunctions and negations; product/image transformations and inference on relation components; and generalization of observed statements. Evidence, time and priorities are passed on unchanged.",
  ["inputs"], "all fillings of every rule's premise shapes from three atoms, all truth values", "tests check a few conclusions by example",
  ["NAL.c", "NAL.h", "RuleTable.c (generated)"], [("rule definitions", "NAL.h"), ("rule compiler", "NAL.c: NAL_GenerateRuleTable")])
p("C21", "Derivations never invent content and ill-formed ones are dropped",
  "A derived statement is added exactly if it is well-formed, exactly as derived: as a derived belief with the evidence, truth and time its premises gave it and a priority that is the product of the premises' priorities and its expectation; and not at all if a concept it was derived with has been recycled meanwhile. Not well-formed are: inheritance/similarity mentioning a named term twice (except between relations of relations) or containing dependent variables, implication/equivalence of identical sides, nested implications/equivalences (or more than two temporal ones), junctions nested to the right, intersections of two one-kind sets that are empty by definition, variables occurring once, and declarative conditions starting with an operation. Where generalization is requested, only properly generalized variants (changed, with an independent variable for implications, and no component without variable, without atom, or relating variables only) are added, each at most once, and the statement itself only if it is a temporal implication.",
  ["inputs"], "all derived terms within the bounds", "filters are exercised by example only",
  ["NAL.c", "Memory.c"], [("filters", "NAL.c: NAL_DerivedEvent, NAL_*"), ])
p("C22", "Term reductions preserve meaning",
  "Before a derived statement is added it is simplified: a subject or predicate that is an intersection of a term with itself becomes that term, a conjunction or disjunction of a statement with itself becomes that statement, unions of extensional sets and intersections of intensional sets become one set of their elements. Nothing else is changed, the simplified statement mentions exactly the same atoms, and a statement to which none of this applies is left as it is.",
  ["inputs"], "all statements within the bounds", "not sampled",
  ["NAL.c", "NAL.h", "RuleTable.c (generated)"], [("reductions", "NAL.h: ReduceTerm, ReduceStatement")], )
p("C23", "Operations are executed only when decided",
  "For a goal, each stored hypothesis (a precondition and an operation leading to the goal) whose precondition is still in memory and currently believed makes its operation desired to the degree the temporal deduction of goal, hypothesis and precondition event yields; the most desired operation is selected with the hypothesis, reason and arguments it came from, exactly if that degree reaches the decision threshold; hypotheses with forgotten preconditions are dropped. A trial of a random operation happens exactly when the random number falls below the babbling chance, only with registered operations within the babbling range and one of their registered arguments, and gives way to a hypothesis desired above the suppression threshold. Of two decisions the more desired executable one is taken. Executing calls exactly the decided operation once with the decided arguments and feeds the executed operation (with its arguments) back as a perceived event exactly if it succeeded.",
  ["inputs"], "all truth values of a grid, stamps, times and random seeds", "babbling is random, thresholds and competing hypotheses are only sampled",
  ["Decision.c", "Cycle.c"], [("decision", "Decision.c: Decision_Suggest, Decision_BestCandidate, Decision_MotorBabbling"), ("execution", "Decision.c: Decision_Execute")])
p("C24", "Operation and sequence structure is recognised exactly",
  "A term counts as an operation exactly if it is an operator or <({agent} * arguments) --> operator>, and as executable exactly if its agent is the system itself or a variable. Looking up the operation of a statement finds exactly the operator standing in operation position (at the end of a sequence), and its number is that of its registration (registering it again changes what it calls but not its number, and no more are registered than there is room for). The precondition of a sequence is what remains after removing exactly the operations at its end; collecting operations yields all operations of the sequence in their order; the length of a sequence is its number of parts; building a sequence keeps the order of its parts and fails rather than truncating when it does not fit.",
  ["inputs"], "all terms within the bounds", "few examples",
  ["Narsese.c", "Memory.c"], [("helpers", "Narsese.c: Narsese_isOperation, Narsese_getOperationAtom, Narsese_getOperationTerm, Narsese_GetPreconditionWithoutOp, Narsese_OperationSequenceAppendLeftNested, Narsese_SequenceLength, Narsese_Sequence"), ("number", "Memory.c: Memory_getOperationID")])
p("C25", "Temporal inference orders time and evidence correctly",
  "A sequence of two events occurs at the later event's time with both projected to it; an implication is induced only from an earlier to a later event and records their time difference; deducing a consequence places it that difference after the precondition and deriving a goal places it that difference before, all with merged evidence and the corresponding truth function.",
  ["inputs"], "all truth values, stamps and times within bounds", "few examples",
  ["Inference.c"], [("temporal inference", "Inference.c: Inference_*")])
p("C26", "Failed anticipations only weaken hypotheses",
  "When a predicted event fails to occur, the hypothesis' expectation decreases and confidence in its evidence does not decrease; when the system anticipates, success later restores it by revision with positive evidence.",
  ["inputs"], "all truth values", "few examples",
  ["Decision.c", "Cycle.c", "Memory.c"], [("anticipation", "Decision.c: Decision_Anticipate")])
p("C27", "Only sufficiently confident and novel events are admitted for processing",
  "An event with less than the minimum confidence, or without priority (derived events are penalised by their complexity, input and revised ones are not), leaves memory and queues untouched. An admitted belief updates the belief of its own concept - eternal, current or predicted, according to its time - by revision or choice and raises that concept's priority; it is queued for processing exactly once, with its priority, unless it is already known (an equal event is pending, the stored eternal belief equals or exceeds an eternal event in confidence, or the stored current belief of the same time has the same evidence and no less confidence). A dated event makes its concept the latest entry of the occurrence-time index. With restricted concept creation a derived event without concept changes nothing. An admitted goal is queued once, in the layer after its parent's (at most the last), and creates no concept. When a queue is full the lowest-priority event makes room.",
  ["inputs"], "all truths, priorities, stamps and times within the bounds", "few examples",
  ["Memory.c"], [("admission", "Memory.c: Memory_AddEvent"), ("queueing", "Memory.c: Memory_addCyclingEvent"), ("belief update", "Memory.c: Memory_ProcessNewBeliefEvent")])
p("C28", "Usefulness ranks concepts by frequency and recency of use",
  "A concept's usefulness is its use count discounted by the time since its last use, normalised to [0,1): more use never lowers it, longer disuse never raises it. Each use counts once (eternal input with the configured boost) and records the current time.",
  ["inputs"], "all counts and times up to 2^40 (range: 2^52)", "no test covers usefulness directly",
  ["Usage.c"], [("usefulness", "Usage.c")])
p("C29", "Questions are answered with the best matching knowledge",
  "A question is answered with a stored statement it matches: an eternal question by a concept's eternal belief, a temporal implication question by a hypothesis stored for any operation or none, an implication question by a declarative link, each of highest truth expectation; a question about the present by current or predicted beliefs, about the past by current ones and about the future by predicted ones, of highest expectation when projected to now, the latest among equals. The answer is reported with its own term, truth, evidence, occurrence and creation time; exactly if nothing matches, the absence of an answer is. A query with a threshold reports each match above it once instead. Answering changes no knowledge and takes no time; only the answer's own concept gains attention (at least the priming value) and counts as used.",
  ["inputs", "histories"], "all stored truth values of a grid, times, stamps and match patterns within the bounds", "tests ask a few questions whose answer is the only candidate",
  ["NAR.c"], [("question answering", "NAR.c: NAR_AddInputNarsese2")])
p("C30", "Input gets fresh evidence and the current time, and time only moves forward",
  "Every input is taken in once with exactly the term, kind, truth and time offset it was given (reduced like derived terms are), is dated with the current time or as eternal, and carries one evidence identifier no other input carries, unless evidence was imported for it, which is used once; one cycle follows it. Eternal goals and beliefs about the past or future are refused. Each cycle happens at the current time, which then advances by exactly one. Reset restores the initial state: time, evidence numbering, concepts, indexes, pending events and operations start again.",
  ["histories"], "all kinds and pairs of input and following cycles within the bounds; any time and number of earlier inputs", "not asserted by tests",
  ["NAR.c", "Event.c", "Memory.c"], [("input", "NAR.c: NAR_AddInput, NAR_AddInputNarsese2; Event.c: Event_InputEvent"), ("cycles", "NAR.c: NAR_Cycles"), ("reset", "NAR.c: NAR_INIT, Memory.c: Memory_INIT")])
p("C31", "Random numbers are in range and reproducible",
  "Every pseudo-random number lies in the documented range and the sequence is determined by the seed.",
  ["inputs"], "all seeds", "tests fix the seed",
  ["Globals.c"], [("generator", "Globals.c: myrand, mysrand")])
p("C32", "The UDP input thread and the reasoner never interleave",
  "With the network interface on, the reasoner's cycle and the receiving thread's input processing (including a reset it asks for) never run at the same time, whatever the thread schedule; input is not kept out while the reasoner sleeps, nor the reasoner while the receiver waits; the cycle interval is the one given at start; received datagrams are handled as complete, terminated lines; and stopping ends both threads before their state is used again.",
  ["schedules", "inputs"], "all interleavings of the two threads (by the locks held at each use of the reasoner), all datagrams, stopping at any synchronisation point", "schedules are not controlled by tests",
  ["NetworkNAR/UDPNAR.c"], [("threads", "NetworkNAR/UDPNAR.c")])
p("C33", "Shell commands cannot corrupt the system",
  "No command line given to the shell writes or reads outside a buffer, divides by zero, or names, configures or executes an operation outside the table or with arguments that were not given, whatever its arguments: it is carried out on exactly the given operation, or refused cleanly.",
  ["inputs"], "all argument texts within bounds", "tests use well-formed commands",
  ["Shell.c", "Stats.c", "Decision.c"], [("commands", "Shell.c: Shell_ProcessInput")])
p("C34", "Attention takes the highest-priority events first",
  "Selection takes up to the configured number of pending events, highest priority first, as many as are available; selected events leave the queue with their own priority, and no waiting event has a higher priority than a selected one. In each cycle the priority of waiting events decays by the event durability and the attention of concepts by the concept durability, while concepts are ranked by their usefulness at that time; nothing is dropped by forgetting itself.",
  ["inputs", "histories"], "all priorities (multiples of 1/8) and use statistics for queues within the bounds", "few examples",
  ["Cycle.c", "PriorityQueue.c"], [("selection", "Cycle.c: Cycle_PopEvents"), ("forgetting", "Cycle.c: Cycle_RelativeForgetting")])
p("C35", "Implications are stored where they are used",
  "A derived or input temporal implication whose antecedent ends with a registered operation is stored exactly in the table of that operation at the concept of its consequence, one without operation in that concept's table of plain implications, and a declarative implication among that concept's declarative links; it carries the eternalized truth and its evidence and is linked to the concept of its antecedent without the operation, so that it can be used as long as that concept exists. Temporal implications neither become concepts nor are queued as events.",
  ["inputs"], "all truth values, stamps and times for implications with each registered operation, none, and declarative ones", "tests check a few example implications through behaviour only",
  ["Memory.c", "Table.c"], [("storage", "Memory.c: Memory_ProcessNewBeliefEvent"), ("operation lookup", "Memory.c: Memory_getOperationID")])

p("C36", "Conditional reasoning detaches exactly the matching consequences",
  "From an event or belief and an implication or equivalence, the consequence is derived if it matches the condition (deduction, analogy for equivalence), the condition if it matches the consequence (abduction, analogy), the remaining implication if it matches one part of a conjunctive condition, and the second part of a conjunction if it matches the first (anonymous analogy), each with the bindings of the match applied, with the truth value of its rule, and with the evidence, time and priorities of the premises; nothing else is derived.",
  ["inputs"], "all statements of these forms over a few atoms and variables, all truth values of a grid, stamps and times", "few examples",
  ["Cycle.c", "Variable.c"], [("conditional inference", "Cycle.c: Cycle_SpecialInferences")])
p("C37", "Sequence goals are pursued one unfulfilled component at a time, in order",
  "A goal that is a sequence yields exactly one subgoal, its first component that is not fulfilled, where components count as fulfilled only if they are currently believed strongly enough and occurred in the order of the sequence, at any time the system may have reached; the subgoal's desire follows from the goal and the fulfilled components, with their evidence. If every component is fulfilled no subgoal is derived. Other goals are left alone.",
  ["inputs"], "all truth values, stamps and occurrence times (below and above 2^32) of goal and components", "tests never run long enough for large times, and sample few orders",
  ["Cycle.c", "Inference.c"], [("decomposition", "Cycle.c: Cycle_GoalSequenceDecomposition")])
p("C38", "Temporal hypotheses are learned exactly from supporting experience",
  "When an event is processed, an implication from an earlier event, or from an earlier event followed by an operation, to it is learned exactly if these events were perceived in that order, all within the recency window, with disjoint evidence and enough confidence; it has the induced truth value, the evidence of all events and their time difference. Simultaneous events imply each other. The sequence of both events is perceived with its own time, truth and evidence under the same conditions. An operation by itself is never taken as a consequence or predictor, and an event replaces the current belief of its concept only if it is newer.",
  ["inputs", "histories"], "all presence, occurrence, creation and selection times, truth values and stamps of three concepts", "the tests learn a few fixed sequences",
  ["Cycle.c", "Inference.c"], [("mining", "Cycle.c: Cycle_ProcessBeliefEvents, Cycle_ReinforceLink")])
p("C39", "Events are combined exactly with attended beliefs of disjoint evidence",
  "A selected event is combined once with each related concept that has a belief, enough priority and evidence disjoint from the event's; the belief used is the recent one of the concept projected to the event's time if it is close enough in time to a dated event, otherwise the eternal one. The conclusion is given the merged evidence, the event's time and the priorities of both, and the use counts as one use of the concept.",
  ["inputs"], "all truth values, stamps, times, priorities and thresholds of event and two related concepts", "few examples",
  ["Cycle.c"], [("inference", "Cycle.c: Cycle_Inference")])
p("C40", "A goal is acted on, or else turned into subgoals",
  "For a selected goal one decision is sought; if it says to act, exactly it is executed, all pending goals are dropped and no subgoal is derived. Otherwise each usable hypothesis predicting the goal - with or without operation, or declarative - gives one subgoal, its precondition, at the current time, with the desire the goal and the hypothesis justify and a priority in proportion to it; hypotheses whose precondition was forgotten are dropped instead. The other pending goals keep waiting.",
  ["inputs"], "all truth values, stamps, times and validity of the hypotheses, and decisions", "few examples",
  ["Cycle.c"], [("goal processing", "Cycle.c: Cycle_Perform, Cycle_ProcessAndInferGoalEvents")])
