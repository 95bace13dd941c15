#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the file stays well formed)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": state} if state else {}),
            observe_at=observe or [], hook_needed=hook)))

H = "The existing unit test runs 50 fixed-seed rounds over 5 variables in a fresh, never collected, never reordered manager; "

p("C01", "Boolean operators compute exactly the Boolean function they name",
  "For all operand functions f, g, h (including constants, variables, complements and aliases of one another), NOT, AND, NAND, OR, NOR, XOR, XNOR, ITE and identity return a diagram whose value under every assignment is the named Boolean combination of the operands' values. 'Intersects' returns a function that implies f AND g and is false only if f AND g is false; 'Implies' does the same for f AND NOT g. The operands still denote the functions they denoted before the call.",
  ["inputs", "histories"],
  "every tuple of operand functions over any number of variables and any variable order, at every point of a history of earlier operations",
  H + "it never meets tables that had to grow, operand pairs found in the computed table after other operations used the slot, or managers with more than 5 variables.",
  ["src/calBddOp.c", "src/calTerminal.c", "src/calApplyReduce.c", "src/calBddITE.c", "src/cal.c", "src/calHashTable.c", "src/calCacheTableTwo.c"],
  [("breadth-first apply: per-level request queues, terminal rules, then a reduce sweep", "src/calApplyReduce.c CalHashTableApply/CalHashTableReduce; src/calBddOp.c"),
   ("terminal cases of each operator", "src/calTerminal.c CalOpAnd, CalOpNand, CalOpOr, CalOpXor, CalOpITE"),
   ("computed table keyed by operands and operation", "src/calCacheTableTwo.c")],
  ["value under every assignment, read by walking the returned diagram through the top-variable/then/else queries"])

p("C02", "Equal functions always share one handle; different functions never do",
  "Within one manager, two live results are the same handle (and compare equal) exactly when they denote the same Boolean function, and the handle of a function and of its complement always differ and are complements of each other. This holds whatever construction paths, operators, collections, reorderings or variable creations lie between the two computations.",
  ["histories", "inputs"],
  "every pair of live functions in every history of operations, collections and reorderings",
  H + "no test compares handles obtained before and after collection, repacking or reordering.",
  ["src/calHashTable.c", "src/calApplyReduce.c", "src/calGC.c", "src/calReorderBF.c", "src/calReorderDF.c", "src/calMemoryManagement.c", "src/cal.c"],
  [("unique table per variable and the normalised phase of the then-edge", "src/calHashTable.c CalUniqueTableForIdFindOrAdd"),
   ("unique table of external handles", "src/cal.c CalBddGetExternalBdd"),
   ("re-canonicalisation of moved nodes", "src/calGC.c repacking; src/calReorderUtil.c")],
  ["handle equality against equality of truth tables for all pairs of live handles"])

p("C03", "Multi-operand and pairwise operators equal folding the binary operator",
  "The n-ary AND, OR and XOR of any non-empty list of operands equal the fold of the binary operator over that list, for every length, order and repetition of operands. The pairwise operators return, for a list of operand pairs, exactly the results of the binary operator on each pair, in order.",
  ["inputs", "histories"],
  "every list length (1 to several hundred), every mixture of operands with different top variables, constants, duplicates and complements, in every manager state",
  H + "the multiway tests use the same two or three operands, and the pairwise tests use operands with the same top variable, so neither unequal starting levels nor deep operand trees are reached.",
  ["src/calBddOp.c", "src/calPipeline.c", "src/cal.c"],
  [("array operation seeded at the smallest top level of all pairs", "src/calBddOp.c BddArrayOpBF"),
   ("balanced multiway reduction through the pipeline machinery", "src/calBddOp.c BddMultiwayOp")],
  ["truth table of every returned handle"])

p("C04", "Quantification and relational product are exact for the current variables",
  "Existential (universal) quantification returns the disjunction (conjunction) of all cofactors of f with respect to the variables in the current association, and the relational product of f and g equals existential quantification of f AND g over the same variables. The result is the same function for small and for very large managers, for permanent and temporary associations, and whatever was quantified before under other associations.",
  ["inputs", "histories", "configurations"],
  "every f, g, variable set and variable order; every history of earlier quantifications under other associations; both evaluation strategies the manager chooses by its size",
  H + "the strategy used for large managers (more than half a million nodes) is never executed, and a single association is used at a time.",
  ["src/calQuant.c", "src/calAssociation.c", "src/calCacheTableTwo.c"],
  [("depth-first quantification for small managers", "src/calQuant.c BddExistsStep, BddRelProdStep"),
   ("breadth-first and mixed quantification for large managers", "src/calQuant.c BddExistsBFAux, BddRelProdBFPlusDF"),
   ("cache tags per association", "src/calAssociation.c, src/calCacheTableTwo.c")],
  ["truth table of the result"], hook="the size threshold that selects the evaluation strategy, made settable at run time")

p("C05", "Composition, substitution and variable swapping are exact",
  "Composing f with function h for variable g returns f with h's value in place of g; substitution replaces all associated variables simultaneously by their associated functions; variable substitution does so for associations mapping variables to variables; swapping exchanges two variables. Every result equals the mathematical simultaneous substitution for all assignments, for any variable order and any overlap between replaced variables and the supports of the replacements.",
  ["inputs", "histories"],
  "every f, every (partial) variable-to-function map, every pair of variables, every order",
  H + "substitutions are tried over 5 variables with one association; cyclic maps, maps to variables above and below, and maps after reordering or cache reuse are not explored.",
  ["src/calBddCompose.c", "src/calBddSubstitute.c", "src/calBddVarSubstitute.c", "src/calBddSwapVars.c", "src/calAssociation.c"],
  [("breadth-first composition", "src/calBddCompose.c"),
   ("substitution by ITE per level", "src/calBddSubstitute.c"),
   ("variable substitution with per-level request queues", "src/calBddVarSubstitute.c"),
   ("swap of two variables", "src/calBddSwapVars.c")],
  ["truth table of the result"])

p("C06", "Generalised cofactor, reduce and between meet their contracts",
  "For every f and every satisfiable care set c, the generalised cofactor equals the Coudert-Madre 'constrain' of f by c under the current variable order, and 'reduce' returns a function that agrees with f wherever c is true, depends on no variable f does not depend on and never has more nodes than f. 'Between' returns, for every lower and upper bound with lower implying upper, a function lying between them (both bounds constant included) with no more nodes than either.",
  ["inputs", "histories"],
  "every pair (f, c), every pair of nested bounds and every variable order",
  H + "reduce and between are only exercised on random 5-variable functions and never with constant bounds or degenerate care sets.",
  ["src/calReduce.c", "src/cal.c"],
  [("constrain with cached sub-results", "src/calReduce.c BddCofactorBF/CalOpCofactor"),
   ("restrict", "src/calReduce.c BddReduceBF")],
  ["truth table of the result; agreement on the care set; containment of bounds"])

p("C07", "Satisfying assignments and satisfying fraction are correct",
  "For every satisfiable f, 'satisfy' returns a satisfiable conjunction of literals that implies f, and 'satisfy-support' additionally mentions every variable of the current association. The satisfying fraction equals the number of satisfying assignments divided by the number of all assignments.",
  ["inputs", "histories"],
  "every f, every association, every order",
  H + "the returned cube is not checked against the associated variables for larger supports, nor is the fraction checked on skewed or many-variable functions.",
  ["src/calBddSatisfy.c", "src/calAssociation.c"],
  [("path descent", "src/calBddSatisfy.c BddSatisfyStep, BddSatisfySupportStep"),
   ("fraction accumulation with complement edges", "src/calBddSatisfy.c BddSatisfyingFractionStep")],
  ["truth table and support of the returned cube; the returned number"])

p("C08", "Structural queries report the reduced ordered diagram of the function",
  "Support, dependency, top variable, then/else cofactors, cube, constant and type queries, and the size, node profile and function profile (for one function or a set, counting shared nodes once), all report what the canonical reduced ordered diagram of the function under the current order has. In particular f equals 'if top variable then then-cofactor else else-cofactor', and the profile entries add up to the size.",
  ["inputs", "histories"],
  "every function and set of functions, every order, with and without complement edges counted",
  "The existing tests check size, profile and support of a handful of functions of 5 variables or not at all; shared nodes referenced from several roots and both phases are not covered.",
  ["src/calBddSize.c", "src/calBddSupport.c", "src/cal.c", "src/calUtil.c"],
  [("mark-and-count traversals", "src/calBddSize.c, src/calBddSupport.c"),
   ("top-variable and cofactor queries", "src/cal.c Cal_BddIf, Cal_BddThen, Cal_BddElse, Cal_BddType")],
  ["query results against a reduced diagram built from the truth table"])

p("C09", "Variable creation places variables exactly where asked, forever",
  "Creating a variable first, last, before or after another puts it exactly there in the order, leaves the relative order of all others and every existing function unchanged, and gives it a fresh identifier that never changes. At all times the lookups by identifier and by index, and the index/identifier queries on functions, describe one consistent permutation, and lookups outside the range return null.",
  ["histories", "inputs"],
  "every sequence of variable creations (up to a few hundred variables), interleaved with operations, associations, collections and reorderings",
  "Unit tests create a handful of variables once, at the start; growth of the internal arrays and creation in the middle of an order that is already in use are not exercised.",
  ["src/calBddManager.c", "src/cal.c", "src/calBlk.c", "src/calAssociation.c"],
  [("insertion into the order and growth of the per-variable arrays", "src/calBddManager.c CalBddManagerCreateNewVar"),
   ("shifting of associations and blocks", "src/calAssociation.c, src/calBlk.c CalBddShiftBlock")],
  ["lookups by id and index, index and id of every live function, values of live functions"])

p("C10", "Variable associations behave as a reference-counted map, independent of history",
  "An association keeps mapping exactly the variables it was created with to the functions given, until its last owner deletes it: creating an equivalent association returns the same identifier, deletion of one never affects another, selecting an association returns the previously selected one, and the temporary association can be replaced, extended and deleted at any time. Results of association-based operations depend only on the current association's contents, never on associations that existed earlier under the same identifier or on cached results.",
  ["histories"],
  "every history of creating, duplicating, selecting, deleting permanent and temporary associations, interleaved with quantification, substitution, collection, reordering and new variables",
  "Unit tests use one association per test and delete it; identifier reuse, shared associations, and stale cached results need histories.",
  ["src/calAssociation.c", "src/calCacheTableTwo.c", "src/calQuant.c", "src/calBddVarSubstitute.c"],
  [("association list with reference counts and identifiers", "src/calAssociation.c"),
   ("flushing cached results of a deleted association", "src/calCacheTableTwo.c CalCacheTableTwoFlushAssociationId")],
  ["identifiers returned; results of quantification/substitution against the modelled association"])

p("C11", "Collection frees exactly what is unreferenced and never changes a live function",
  "Garbage collection, explicit or automatic, never changes the function denoted by any handle that still has a reference, and reclaims everything else: after releasing references and collecting, the manager's node count depends only on what is still referenced, and releasing everything returns it to that of a manager with just the variables. Taking additional references any number of times, including beyond the counter's range (which then stays saturated), never makes a live function collectable.",
  ["histories", "configurations"],
  "every history of operations, duplicate references, releases and collections, at every collection and repacking threshold",
  "Tests never collect automatically (the limit is 10000 nodes) and do not check the node count; reference-count leaks and premature frees only show over histories.",
  ["src/calGC.c", "src/calHashTable.c", "src/calMemoryManagement.c", "src/cal.c", "src/calUtil.c"],
  [("saturating 8-bit reference counts", "src/calInt.h; src/cal.c Cal_BddFree, Cal_BddUnFree"),
   ("collection per variable and repacking of sparse tables", "src/calGC.c"),
   ("automatic collection after operations", "src/calUtil.c CalBddPostProcessing")],
  ["truth tables of live handles, node count after collection"], hook="the minimum collection limit and check period, made settable at run time")

p("C12", "Variable reordering never changes functions, handles or variable identity",
  "Any invocation of reordering, explicit or automatic, by either technique (sifting, window permutation) and either method (breadth-first, depth-first), leaves every live handle valid and denoting the same function, keeps every variable's identifier, keeps associations and pending results meaningful, and ends with a valid permutation of the variables. Operations after reordering are as exact as before it.",
  ["histories", "configurations", "inputs"],
  "every set of live functions, variable count, technique/method pair and tuning parameter, in every history",
  "The test suite only reorders a manager with few nodes; the explicit thresholds keep almost all swap, clean-up and packing code from running.",
  ["src/calReorderBF.c", "src/calReorderDF.c", "src/calReorderUtil.c", "src/calInteract.c", "src/calBlk.c", "src/calAssociation.c"],
  [("level swap with forwarding and later fix-up", "src/calReorderBF.c"),
   ("in-place level swap", "src/calReorderDF.c"),
   ("interaction matrix that lets independent variables be swapped for free", "src/calInteract.c")],
  ["truth tables, handle identity, id/index lookups, support and node counts of the live functions before and after"], hook="lowered thresholds (public parameter call)")

p("C13", "Variable blocks stay together and keep their order under reordering",
  "Under depth-first reordering the variables of a block remain consecutive in the order, blocks nested in it likewise, and the children of a block that is not marked reorderable keep their relative order. Later creation of variables next to or inside a block never breaks this.",
  ["histories", "configurations"],
  "every laminar family of blocks, every marking, every technique, every later creation of variables and repeated reordering",
  "No existing test reorders with user-defined blocks in a way that compares the order before and after.",
  ["src/calBlk.c", "src/calReorderDF.c", "src/calReorderUtil.c", "src/calBddManager.c"],
  [("block tree", "src/calBlk.c"), ("sifting and window permutation over block children", "src/calReorderDF.c")],
  ["indices of the block's variables before and after reordering"])

p("C14", "Exceeding the node limit is reported, harmless and recoverable",
  "When a node limit is set, every operation on valid operands either returns the exact result or returns the null diagram and reports the overflow (a report that is cleared by querying it); null operands always yield null results. All other handles keep their functions through any number of overflows, and once the limit is lifted or references are released every operation succeeds again.",
  ["fault_sequences", "histories"],
  "every limit value relative to the need, hence every point of every history at which the limit can strike, over all operations, including several overflows in a row",
  "No test sets a node limit, so no failure path of any operation is executed.",
  ["src/calUtil.c", "src/cal.c", "src/calBddOp.c", "src/calQuant.c", "src/calBddSubstitute.c", "src/calBddCompose.c", "src/calReduce.c", "src/calDump.c"],
  [("post-processing after each operation: collect, then declare overflow", "src/calUtil.c CalBddPostProcessing"),
   ("null propagation", "src/calUtil.c CalBddPreProcessing")],
  ["returned handle, overflow query, truth tables of all other handles"])

p("C15", "Dumping and reading back a diagram reproduces the function",
  "Reading back a dump with the same variable list returns the identical handle, and reading it with another list of distinct variables, in the same or another manager with any variable order, returns the function with the i-th variable of the second list in place of the i-th of the first. Dumps written one after the other to one file are read back one after the other. A dump that the file does not take completely is not reported as written.",
  ["inputs", "histories", "configurations"],
  "every function, every variable list containing its support, every variable order in the writing and the reading manager",
  "Existing tests dump a few 5-variable functions with the identical list and read them in the same manager.",
  ["src/calDump.c", "src/calPrint.c"],
  [("marking of shared nodes and the byte format", "src/calDump.c Cal_BddDumpBdd, Dump"),
   ("reconstruction by ITE", "src/calDump.c Cal_BddUndumpBdd, BddUndump")],
  ["handle/truth table of the function read back"])

p("C16", "Malformed dump files are rejected cleanly",
  "For every byte sequence, reading a dump returns either a valid diagram over the given variables with no error, or the null diagram with one of the documented error codes; it never crashes, hangs, touches memory out of bounds or changes any existing function. A valid dump that ends early or cannot be read to its end is reported as just that. After a failed read the manager works and accounts for its nodes as if the read had not happened.",
  ["inputs", "fault_sequences"],
  "every input file: truncations, bit flips, splices and structured corruptions of valid dumps and arbitrary bytes",
  "No test feeds a damaged file to the reader.",
  ["src/calDump.c"],
  [("header, label and node decoding with error codes", "src/calDump.c BddUndump, Cal_BddUndumpBdd")],
  ["return value, error code, sanitizer and signal reports, truth tables of live handles, node count"])

p("C17", "Pipelined operations give the same results as direct operations",
  "After a successful execution of a pipeline of AND, OR or XOR whose operands stay referenced until then, every provisional diagram created in it, including those whose operands were themselves provisional, updates to the same handle as the direct operation on the same operands; before that it is reported as provisional and after the update it is not. Collections, reorderings and other operations around executions, and any depth setting, do not change this, and quitting the pipeline leaves all other handles unchanged.",
  ["histories", "schedules", "configurations"],
  "every dependency graph of provisional results, every order of creation, execution, update and quit, every depth setting, interleaved with other API calls",
  "The test suite runs one fixed pipeline shape per operator.",
  ["src/calPipeline.c", "src/calBddOp.c", "src/calGC.c", "src/calReorderUtil.c"],
  [("request nodes ordered by dependency depth", "src/calPipeline.c"), ("fix-up of provisional handles on collection/reordering", "src/calReorderUtil.c CalBddReorderFixProvisionalNodes, src/calPipeline.c")],
  ["truth table/handle of the updated result, provisional query"])

p("C18", "Printed diagrams and profiles describe the function they print",
  "The human-readable print-out of a diagram, with default or user-supplied variable names, read as nested if/else text with labelled shared subformulas, denotes exactly the printed function and is no longer than the diagram requires. The one-line sum-of-products form printed for a function likewise denotes that function, and printed node and function profiles, for one diagram or several, show exactly the counts returned by the corresponding queries within the requested line length.",
  ["inputs", "histories", "configurations"],
  "every function or set of functions, naming function, line length and order",
  "No test reads any printed output.",
  ["src/calPrint.c", "src/calPrintProfile.c", "src/calUtil.c"],
  [("one-line form", "src/calUtil.c CalBddFunctionPrint"), ("marking of shared nodes", "src/calPrint.c CalBddMarkSharedNodes, CalBddNumberSharedNodes"),
   ("profile chart", "src/calPrintProfile.c")],
  ["the text written to the given file, parsed and evaluated"])

p("C19", "The C++ interface mirrors the C interface and balances references",
  "Every method and operator of the C++ classes returns the function (or number, or list) the corresponding C operation defines, for every way of passing operands (iterators and containers of diagrams or identifiers included). Copying, moving, assigning (also to itself) and destroying diagram objects in any order neither invalidates any other object nor leaks a reference: once all objects of a function are gone it is collectable.",
  ["programs", "histories", "inputs"],
  "every program over the C++ classes: all operators, temporaries, containers of diagrams, copies, moves and scopes",
  "No existing test includes the C++ header.",
  ["src/calObj.hh"],
  [("RAII wrapper over reference counts", "src/calObj.hh class BDD"), ("container conversions", "src/calObj.hh C_Bdd_vector, From_C_Array")],
  ["truth tables, reference counts, node count after all objects are destroyed"])

p("C20", "The memory manager hands out disjoint, aligned blocks that keep their contents",
  "Blocks and fixed-size records obtained from the memory manager are aligned, at least as large as requested, never overlap any other live block, and keep their contents until freed, through any sequence of allocation, resizing and release. Resizing preserves the common prefix, the fixed-size record managers reuse only released records, and blocks released are reused so that repeated allocate/free cycles do not grow memory without bound.",
  ["histories", "inputs"],
  "every sequence of block and record allocations, resizes and frees of every size from one byte to megabytes",
  "No unit test targets the memory manager directly.",
  ["src/calMem.c", "src/calMem.h"],
  [("buddy allocator over the program break", "src/calMem.c Cal_MemGetBlock, Cal_MemFreeBlock, Cal_MemResizeBlock"),
   ("record managers", "src/calMem.c Cal_MemNewRec, Cal_MemFreeRec")],
  ["addresses, contents and memory totals"])

p("C21", "Managers are isolated from one another and can be created and destroyed freely",
  "Operations, collections, reorderings, overflows and destruction of one manager never affect functions, variables, associations, parameters or user hooks of another. Any number of managers can be created, used and destroyed in any order, and destroying a manager in any state returns the memory it obtained.",
  ["histories"],
  "every interleaving of histories of several managers, including destruction at any point (pending pipelines, associations, after reordering, after overflow)",
  "Existing tests use one manager per process.",
  ["src/calBddManager.c", "src/calPipeline.c", "src/calMemoryManagement.c", "src/cal.c"],
  [("per-manager tables, page managers and record managers", "src/calBddManager.c"),
   ("tear-down", "src/calBddManager.c Cal_BddManagerQuit")],
  ["truth tables in all managers; outstanding allocations after destruction"])

p("C22", "Tuning parameters and automatic maintenance never change results",
  "For every setting of the tuning parameters (reordering technique, method and threshold, forwarding limit, repacking thresholds, collection mode and limits), running the same program yields the same functions, the same equalities between handles and the same answers to order-independent queries as under the default setting. With automatic collection switched off no collection happens until it is asked for or switched on again.",
  ["configurations", "histories"],
  "every combination of parameter settings, changed at every point of every history",
  "Tests run under the default parameters only, under which no automatic maintenance is triggered at their sizes.",
  ["src/cal.c", "src/calUtil.c", "src/calGC.c", "src/calReorderUtil.c", "src/calHashTable.c"],
  [("post-processing decides on collection, reordering and repacking", "src/calUtil.c CalBddPostProcessing"),
   ("parameters", "src/cal.c Cal_BddManagerSetParameters, Cal_BddSetGCMode")],
  ["truth tables and handle identity under random parameter changes"], hook="the minimum collection limit and check period, made settable at run time")

p("C23", "Any interleaving of the whole interface keeps every live function intact",
  "In any history mixing variable creation, Boolean and association-based operations, pipelines, references, collections, reorderings, limits, dumps and queries, every live handle denotes the function it was created with, every new result is exact, and no memory is read or written that the library does not own. No valid call ever terminates the process.",
  ["histories", "programs"],
  "every finite history of valid calls of the public interface",
  "Unit tests exercise each operation alone in a fresh manager; interactions between features (collection during a pipeline, reordering with associations, caches across new variables) are untested.",
  ["src/cal.c", "src/calUtil.c", "src/calGC.c", "src/calHashTable.c", "src/calCacheTableTwo.c", "src/calAssociation.c", "src/calPipeline.c", "src/calReorderBF.c", "src/calReorderDF.c"],
  [("shared unique tables, computed table and reference counts", "src/calHashTable.c, src/calCacheTableTwo.c"),
   ("post-processing after each call", "src/calUtil.c")],
  ["truth tables of all live handles after each global event"])

p("C24", "Requested reordering never grows the diagrams and merges separated pairs",
  "An explicitly requested reordering, by either technique and either method, with or without variable blocks, never leaves more nodes in use than were in use before it. For a function that combines n >= 3 pairs of variables (sum of products, equality, product of sums, inner product) whose partners are far apart in the order, without other functions alive, it always makes the diagram smaller and ends with a number of nodes linear in n although it started exponential in n.",
  ["histories", "configurations", "inputs"],
  "every set of live functions, order, block structure and history before the reordering; every pair family, matching and polarity",
  "No test looks at the number of nodes after a reordering: a variant that keeps every function but forgets to return to the best position found passes them all.",
  ["src/calReorderBF.c", "src/calReorderDF.c", "src/calInteract.c", "src/calReorderUtil.c"],
  [("moving a variable through all positions and back to the best", "src/calReorderDF.c BddSiftBlock; src/calReorderBF.c BddReorderSiftToBestPos"),
   ("best permutation of three neighbours, repeated until stable", "src/calReorderDF.c BddReorderWindow3; src/calReorderBF.c BddReorderWindow3"),
   ("cheap swap of variables that do not interact", "src/calInteract.c")],
  ["node count of the collected manager before and after", "the model's count of the referenced nodes in both orders"])

p("C25", "Effort follows the size of the diagrams, not the number of their paths",
  "On functions whose diagrams have few nodes but astronomically many paths (dozens of variables: parities, counters, ladders of pairs), every operation - Boolean operations of any arity, if-then-else, cofactor, reduction, witnesses of intersection and implication, quantification, relational product, composition, substitution, swapping, dependence and support, satisfying assignments and their fraction, sizes and profiles, dumping, printing as a graph - completes, with the exact result, in time bounded by the sizes of the diagrams involved. Only printing as a sum of products, which has to enumerate paths, is exempt.",
  ["inputs", "histories"],
  "every function with a small diagram, however many paths it has, in every operand position of every operation",
  "The tests' functions have a handful of variables: a recursion that forgets to remember what it has visited is as fast on them as one that does, and gives the same answers.",
  ["src/cal.c", "src/calCacheTableTwo.c", "src/calHashTable.c", "src/calQuant.c", "src/calBddCompose.c", "src/calBddITE.c", "src/calBddSwapVars.c", "src/calBddVarSubstitute.c", "src/calBddSubstitute.c", "src/calBddSupport.c", "src/calBddSatisfy.c", "src/calBddSize.c", "src/calReduce.c", "src/calDump.c", "src/calPrint.c", "src/calPrintProfile.c"],
  [("results of subproblems found in the computed table or in the request queue", "src/calCacheTableTwo.c; src/calHashTable.c CalHashTableFindOrAdd"),
   ("visited marks of the traversals", "src/calBddSupport.c, src/calBddSize.c, src/calDump.c"),
   ("remembered counts per node", "src/calBddSatisfy.c BddSatisfyingFractionStep"),
   ("pairs known to be disjoint", "src/cal.c BddIntersectsStep")],
  ["completion within 60 s of operations that need milliseconds", "the exact result against the reference diagrams"])

p("C26", "Repeating the same work gives the same results and needs no more memory",
  "A program that keeps repeating a sequence of operations in one manager - any mixture of operators, quantification, substitution, cofactors, queries, associations opened and closed, dumps and failed reads, pipelines completed or abandoned, operations that hit a node limit, collections, reorderings - and releases what each repetition obtained, gets from the thousandth repetition the same functions as from the first. Once everything has been used a few times the memory held stops growing, and after a collection exactly the nodes of the functions still held are in use.",
  ["histories"],
  "every sequence of operations repeated any number of times: the number of repetitions and collections between two points of a program does not matter",
  "The tests perform each operation a handful of times: a node lost per call, an identifier or operation code used up per association, or a reference count off by one shows only after thousands of repetitions.",
  ["src/calHashTable.c", "src/calApplyReduce.c", "src/calBddSubstitute.c", "src/calBddVarSubstitute.c", "src/calBddCompose.c", "src/calBddITE.c", "src/calQuant.c", "src/calReduce.c", "src/calReorderBF.c", "src/calReorderDF.c", "src/calAssociation.c", "src/calPipeline.c", "src/calGC.c", "src/calMemoryManagement.c", "src/calCacheTableTwo.c", "src/calDump.c"],
  [("request nodes return to the free list of their level", "src/calHashTable.c CalHashTableCleanUp; endNode in the reduce functions"),
   ("forwarded nodes are reclaimed", "src/calReorderUtil.c CalBddReorderReclaimForwardedNodes"),
   ("operation codes and association identifiers are reused", "src/calCacheTableTwo.c CalCacheTableTwoTempOpCode; src/calAssociation.c")],
  ["memory allocated by the library at regular looks, after collections", "the number of nodes in use", "a fingerprint of every result"])

p("C27", "Reported statistics and counters describe the manager truthfully",
  "After any history, the printed statistics show the node limit, collection, reordering and repacking settings as they were last set; exactly the number of nodes and variables the queries report; and a peak number of nodes at least as large as any number that was in use at once. The counts of collections, reorderings and collected nodes, and the sum of collected nodes and nodes in use, never go back; an explicit collection adds one collection and exactly as many collected nodes as the number in use falls by; an explicit reordering adds one reordering if a technique is selected and none otherwise. The number of locked nodes covers every variable and every diagram referenced too often to be counted; byte figures agree with node and page figures; printing changes nothing.",
  ["histories", "configurations"],
  "every history of operations, collections, reorderings, overflows and parameter changes, in any number of managers",
  "The tests print statistics but never read them: a counter updated on one path and not on another goes unnoticed, although limits and tuning decisions of a long-running program are taken from them.",
  ["src/cal.c", "src/calGC.c", "src/calHashTable.c", "src/calReorderBF.c", "src/calReorderDF.c", "src/calBddManager.c"],
  [("printing of the statistics", "src/cal.c Cal_BddStats"),
   ("node counters of the collection", "src/calGC.c Cal_BddManagerGC"),
   ("locked nodes", "src/calHashTable.c CalBddUniqueTableNumLockedNodes")],
  ["the text of Cal_BddStats", "Cal_BddManagerGetNumNodes, Cal_BddTotalSize, Cal_BddVars"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert x["statement"].count(". ") <= 3, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
