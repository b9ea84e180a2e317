import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=2,(id,statement.count('. '))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

add("C01","Concurrent evolution equals one-at-a-time evolution",
 "Whatever order fitness evaluations finish in, every challenger of a generation is built only from members that a run taking the targets one at a time in index order would have used: members at lower indices as already decided in this generation, members at higher indices as they were when the generation began. A member whose challenge is still undecided is never read by a later target, and the population left by each generation is the one the sequential run would leave given the same random choices and fitness results.",
 ["schedules","histories"],"every completion order of the outstanding evaluations, every choice of base and difference members, every pattern of wins, losses and failed constraints, over several generations",
 "The suite runs real timers and lets the operating system pick one completion order per run, then looks only at the final best fitness; a stale read changes which vectors are tried, not whether the optimiser converges.",
 ["ade/de.py","ade/population.py"],[("all four index locks requested before any wait; base and difference locks released once read; target lock held until decided","DifferentialEvolution.challenge"),("FIFO lock per index","Population.lock / Population.release"),("barrier between generations","DifferentialEvolution._run")],
 [("iList","member at each index","Population"),("dLocks","one lock per index","Population")],["arguments of the evaluation function","population contents after each evaluation finishes"])

add("C02","Challengers follow the DE recipe from four distinct members",
 "Each evaluated challenger takes every parameter either from its target or from base + F x (first - second), at least one parameter from the latter, where target, base, first and second are four different members and F is within the range in force; parameters outside the bounds are reflected at the bound and then clipped to it. The crossover rate is honoured at its extremes (0: exactly one mutated parameter, 1: all of them) and in between is the chance of taking the mutant's value. The base is the best member (or, when the target is itself the best, the best of the rest) for best-base runs and otherwise is drawn as the random-base setting says.",
 ["inputs","configurations","histories"],"every population content, bounds, crossover rate, F setting, base-selection setting, target index and random draw",
 "Tests check one crossover and one challenge on a smooth function; a wrong sign, a repeated index or a dropped mandatory gene still converges.",
 ["ade/de.py","ade/population.py","ade/individual.py"],[("distinct sampling with exclusions","Population.sample"),("mutation and crossover","DifferentialEvolution.challenge / crossover"),("reflection and clipping","ParameterManager.limit"),("base selection","DifferentialEvolution._run"),("vector arithmetic","Individual.__add__/__sub__/__mul__")],
 [],["arguments of the evaluation function","population contents when the evaluation starts"])

add("C03","A member is replaced only by a strictly better challenger",
 "During a run the member at an index changes exactly when a challenger to that index is evaluated with a strictly lower fitness than the member it challenges, and it then becomes that challenger. An equal, worse, missing, infinite or not-a-number result never displaces a member, and any valid result displaces a member whose own fitness is invalid. Every member's recorded fitness is the value the evaluation function returned for exactly its parameter values, so the best fitness never gets worse.",
 ["inputs","schedules","histories"],"every fitness result including ties, zero, None, infinity and NaN, in every completion order",
 "Tests assert that the final fitness is small; accepting ties, losing one improvement or recording a wrong fitness for a slot leaves that assertion true.",
 ["ade/de.py","ade/population.py","ade/individual.py"],[("strict comparison and slot assignment","DifferentialEvolution.challenge"),("item assignment","Population.__setitem__"),("fitness ordering","Individual.__lt__ / SSE / __float__")],
 [("iList","member at each index","Population")],["population contents before and after each evaluation finishes","results returned by the evaluation function"])

add("C04","Only in-bounds, constraint-satisfying vectors are evaluated or kept",
 "Every parameter vector handed to the evaluation function, in set-up or evolution, has each parameter within its bounds and is accepted by every constraint in force (those last set, and no others), and so has every member of the population. Constraints are consulted with the parameter names mapped to exactly the values to be evaluated; a challenger any constraint rejects is not evaluated and leaves its target unchanged. When no conforming initial vector can be found within the allowed number of tries, set-up ends as aborted without adding or evaluating a non-conforming one.",
 ["inputs","configurations"],"every bound (narrow, negative, one-sided far from zero), every constraint form (single callable, list, constraint object), changed constraints, uniform and Latin-hypercube set-up, and challengers arbitrarily far outside the bounds",
 "Tests use symmetrical bounds and one constraint with lenient checks of a few values; a violation needs a particular overshoot or a particular constraint position.",
 ["ade/population.py","ade/de.py","ade/constraints.py"],[("reflection and clipping","ParameterManager.limit"),("constraint evaluation","ParameterManager.passesConstraints"),("retry with limit on tries","Population.setup getIndividual"),("challenge gate","DifferentialEvolution.challenge")],
 [],["arguments of the evaluation function","arguments and results of the constraint callables","population contents"])

add("C05","Set-up yields a full valid population with bounded concurrency",
 "A set-up that reports success leaves exactly the configured number of members, each with a finite fitness equal to what the evaluation function returned for its values; candidates whose result is missing, infinite or not a number are dropped and replaced by fresh ones, and every other becomes a member while there is room. The number of evaluations in flight never exceeds the configured limit (placeholder set-up evaluates nothing and gives every member infinite fitness). Set-up reports success only if it was not aborted, and finishes once the outstanding evaluations do.",
 ["schedules","inputs","configurations"],"every completion order and every pattern of valid, invalid and fatal results, for every population size and set-up mode, including repeated set-up",
 "Tests set up with prompt, always-valid evaluations; over-filling, under-filling or exceeding the limit needs invalid results arriving out of order near the end.",
 ["ade/population.py","ade/individual.py"],[("fill loop, limiter and finite filter","Population.setup"),("concurrency limiter","asynqueue DeferredTracker as used by Population.setup")],
 [("iList","members so far","Population"),("running","None before, True after success, False after abort","Population")],["calls of the evaluation function","result of set-up","population contents"])

add("C06","Every run finishes and challenges every target once a generation",
 "As long as each evaluation eventually gives some result, a run finishes: it reports completion exactly once, with its population, for every completion order and every mix of results. In every generation that is not cut short each index is the target of exactly one challenge, generations do not overlap, and no more generations are run than allowed. Once a generation or the run is over, and for a run cut short once its outstanding evaluations have given results, no index stays locked.",
 ["schedules","inputs","configurations"],"every completion order, synchronous and asynchronous evaluations, full and non-full history, slow and fast report callbacks, every base-selection setting",
 "A deadlock or lost wake-up needs a particular overlap of index sets and completion order; the suite has a handful of orders with a generous timeout.",
 ["ade/de.py","ade/population.py","ade/history.py","ade/report.py"],[("atomic enqueueing on FIFO locks, release on every path","DifferentialEvolution.challenge"),("waiting for all challenges","DifferentialEvolution._run"),("history lock always released","History.add"),("callback run always concluded","Reporter.runCallbacks")],
 [("dLocks","one lock per index","Population")],["completion of the run","calls of the evaluation function","generation callback"])

add("C07","A run stops exactly when a stopping rule says so",
 "A run that is not aborted ends after the maximum number of generations, or after the first generation whose best fitness is better than the goal if a goal is set, or - unless told to go to the bitter end - when more than the configured number of no-improvement generations have passed, with no improvement generation among them, at which F could shrink no further; it ends for no other reason and never later. The generation callback is called once per generation, in order from zero, for every generation after which the run goes on and for the last one when the maximum is reached. The final best member is reported before the run completes.",
 ["configurations","histories"],"every setting of maximum, goal, bitter end, dwell length and F, and every sequence of improving and non-improving generations",
 "Tests run with default stopping settings and only check that something converged; no test sets a goal, and off-by-one dwell counts are invisible.",
 ["ade/de.py"],[("generation loop","DifferentialEvolution._run"),("limit detection","FManager.down/up"),("improvement inquiry","Population.replacement")],
 [("dwellCount","no-improvement generations at the limit","DifferentialEvolution"),("limited","F cannot shrink further","FManager")],["generation callback","completion of the run","number of evaluations"])

add("C08","Abort freezes the population and ends the run",
 "After an abort - Enter key, abort call, population abort, run shutdown, or a failing report callback - no member of the population is replaced, whatever evaluations later return, and any further call of the evaluation function once the population is aborted is given no parameter values. The run completes with its population (after a key, abort request or run shutdown without waiting for outstanding evaluations, after a population abort as soon as any evaluation gives a result), set-up completes reporting no success, later lock requests are granted at once, and later runs on the aborted population end immediately. Repeating an abort, or aborting after completion, changes nothing and raises nothing.",
 ["crash_points","schedules"],"an abort of any kind at every point of set-up or evolution, repeated, with any results (including finite ones) arriving afterwards",
 "Tests abort at one wall-clock moment and only look at elapsed time; damage needs an abort with challenges queued on locks and a particular late result.",
 ["ade/population.py","ade/de.py","ade/abort.py","ade/report.py"],[("running flags and lock release","Population.abort / DifferentialEvolution.shutdown"),("evaluator gets None once aborted","Population.evalFunc"),("abandoning the outstanding challenges","DifferentialEvolution.shutdown"),("callback failure aborts","Reporter.runCallbacks")],
 [("running","run status","Population and DifferentialEvolution")],["population contents","calls of the evaluation function","completion of run and set-up"])

add("C09","A fatal evaluation stops everything and never becomes a member",
 "If an evaluation returns a negative number, raises, or fails asynchronously, the individual concerned never becomes a member, is never reported as best, and is never recorded in the history. In set-up it aborts the population, and set-up does not report success; in a run it ends the run, which still completes with its population, and no challenge begun after it is evaluated. Members other than the failing challenger's target are unaffected.",
 ["fault_sequences","schedules"],"a fatal result of any kind at any evaluation, alone or several at once, with any other evaluations outstanding",
 "The suite injects one failure at one fixed evaluation; the damage depends on what else is outstanding then.",
 ["ade/individual.py","ade/de.py","ade/population.py"],[("failure mapped to negative fitness","Individual.evaluate"),("truth value of an individual","Individual.__bool__"),("shutdown on fatal challenger","DifferentialEvolution.challenge"),("abort on fatal initial evaluation","Population.setup evaluated")],
 [],["population contents","calls of the evaluation function","report callbacks","completion"])

add("C10","Abort handlers run exactly once, in order, however late",
 "On the first key press or abort request every handler registered so far is called exactly once, in registration order; handlers registered while that is going on are called as part of it, and ones registered afterwards are called on the next reactor turn. Further key presses call nothing again, ignoring the keyboard suppresses all of it, and starting over begins with no handlers and works again. Shutting the facility down is idempotent and releases the console exactly once.",
 ["histories"],"every sequence of registering, key presses, abort requests, ignoring, shutting down and starting over",
 "No test drives the abort facility beyond a single abort; the rules are about sequences.",
 ["ade/abort.py"],[("handler queue and one-shot trigger","Keyboard / KeyboardHolder"),("late registration","KeyboardHolder.callOnAbort")],
 [("callbacks","handlers not yet called","Keyboard"),("triggerID","None once shut down","Keyboard")],["calls of the registered handlers","console disconnection"])

add("C11","F adapts only within its limits and by the documented rule",
 "In adaptive mode a reduction lowers the single F or the lower limit by its scale while that stays above the critical value, then the upper limit while that stays above three times the lower limit, and otherwise changes nothing and marks F as limited; an increase unmarks it and raises first the upper limit back toward, and never above, its original value, then the lower limit likewise. F never leaves its original range upward nor falls to the critical value or below through adaptation, the lower limit never exceeds the upper, and every value drawn lies between them. In non-adaptive mode, including a lower limit given as zero (which means the critical value), F never changes and is never limited.",
 ["histories","configurations"],"every sequence of reductions and increases for every F, crossover rate and population size",
 "Tests walk two fixed sequences; the interplay of the two limits depends on the history of ups and downs.",
 ["ade/de.py"],[("adaptation rule","FManager.down / up / lowest / highest / get")],
 [("F","single value or lower and upper limit","FManager"),("limited","cannot shrink","FManager")],["lowest and highest F, drawn values, limited flag"])

add("C12","Improvements are scored and judged as documented",
 "Each reported improvement ratio adds its documented weight (0.1 for zero, otherwise ratio minus one half) to the score of the current generation only, and a challenger that also beats the best so far adds the weight of a ratio of one. Asking whether the status quo holds always says yes the first time ever, always says yes for a score above the target, always says no for a zero score, and may say either in between; asking resets the score. Setting a new target affects only later judgements, and failed challenges add nothing.",
 ["histories","configurations"],"every sequence of ratio reports, inquiries and target changes, for every population size and target fraction, driven directly and through reported challenges",
 "Tests try a few score values statistically; carry-over between generations or a missing bonus shifts adaptation without failing them.",
 ["ade/population.py","ade/report.py"],[("score keeping","Population.replacement / _keepStatusQuo / report"),("new-best bonus","Reporter.__call__")],
 [("replacementScore","score of the current generation, None before the first inquiry","Population"),("statusQuoScore","target","Population")],["result of the inquiry","score after each report"])

add("C13","Challenge outcomes are classified and shown consistently",
 "For every pair of fitness values the improvement ratio and the progress symbol agree with the documented table: nothing and X when the challenger lost, zero and 0 when it is better by less than the equivalence threshold, the rounded ratio and its digit (9 for nine or more) otherwise, and the documented special results when either fitness is missing, infinite, not a number or fatal. One symbol is shown per reported individual, + follows for a new best, * and ! mark the first and a better lone report, and no symbols are shown when progress is suppressed. Lines of symbols are broken at the line-length limit.",
 ["inputs","histories"],"every pair of fitness values including zero, ties, threshold boundaries and invalid ones, in every order of reports",
 "Tests cover about ten pairs; the classification has more than a dozen cases and boundaries.",
 ["ade/report.py"],[("classification","Reporter.msgRatio / isEquivSSE"),("symbols","Reporter.progressChar / __call__")],
 [],["returned ratio","characters written to the log"])

add("C14","Report callbacks run one at a time and end on the true best",
 "Callbacks are told only of individuals that were the best reported so far (or of the population's best on a forced report), with that individual's own values and fitness and the count of evaluations, never the same individual twice in a row, and not for a new best within the equivalence threshold of the last one told unless forced. All callbacks for one individual run in registration order, each after the previous finished, and runs never overlap; bests that arrive during a run are collapsed so that only the latest is told next. When waiting for reports completes nothing is pending, the last telling is of the latest best due to be told, and a callback that fails aborts the population and stops further callbacks.",
 ["schedules","histories"],"every sequence of reports interleaved with every order and delay of callback completion, including synchronous, deferred and failing callbacks",
 "Tests use fixed delays and a couple of reports; overlap, lost or stale tellings need reports landing at particular moments of a run.",
 ["ade/report.py","ade/population.py","ade/util.py"],[("one-slot schedule and in-progress flag","Reporter.runCallbacks"),("decision to report","Reporter.newBest"),("tracking","Reporter.waitForCallbacks / Population.waitForReports"),("holder","Bag")],
 [("iBest","best reported so far","Reporter"),("iLastReported","last one told","Reporter"),("cbrScheduled","next to tell","Reporter")],["calls of the report callbacks and their arguments","completion of waiting for reports"])

add("C15","A complaint blacklists the individual and restores the previous best",
 "When a callback complains about an individual by returning something other than None, the complaint handler is called once with that individual and the complaint, and the individual's fitness becomes infinite so that it is no longer the best, loses its rank, and can be displaced by any valid challenger. The best so far then is the better of the previous best and any best reported meanwhile, so later individuals are compared with that one. Other members and later reports are unaffected.",
 ["schedules","histories"],"every pattern of complaints, immediate or deferred, with reports of better, worse and equivalent individuals arriving before, during and after",
 "Tests have a single complaint with a mock individual whose blacklisting does nothing.",
 ["ade/report.py","ade/individual.py","ade/population.py"],[("complaint processing","Reporter.runCallbacks"),("blacklisting","Individual.blacklist"),("re-ranking","Population.KS")],
 [("iBest","best reported so far","Reporter")],["complaint handler calls","member ranks and fitness","which later reports are told"])

add("C16","The history is a faithful, sorted, bounded roster",
 "The history lists, in ascending order of fitness, exactly the finite-fitness individuals recorded and not since removed, each with its own parameter values, and never more than its maximum number; the lifetime count equals the number recorded since it was last cleared. When full, recording one removes exactly one record, and never one of a current member (nothing is recorded if all of them are); recording an invalid (infinite or missing) fitness changes nothing. Clearing empties it, and removing the current members removes exactly those.",
 ["histories","schedules"],"every sequence of recording (as member or as never a member), leaving the population, removing members and clearing, including while a removal decision is still being worked out, for every size limit",
 "Tests fill a roster in one way; a record overwritten through a row-allocation collision or a member evicted needs a particular gap pattern.",
 ["ade/history.py"],[("sorted insertion and row allocation","History.add / kkr"),("eviction choice","ClosestPairFinder"),("serialisation","History.dLock")],
 [("K","rows in ascending order of fitness","History"),("X","stored records","History")],["length, items and iteration of the history","value-versus-fitness queries","lifetime count"])

add("C17","History labels agree with the population at all times",
 "At any quiet moment the history records labelled as current members are exactly the records of the population's present finite-fitness members, one each; records of displaced members are labelled as former members, and records of losing challengers as never members. The three labels are disjoint and together cover the whole history. This holds for an individual put in at one index only, through replacement, ties and exact duplicates, blacklisting, set-up, and after saving and loading in another process (members whose values new bounds changed on loading have no record until evaluated again).",
 ["histories","configurations","crash_points"],"every run history, including duplicate individuals, complaints, and save/load at any point",
 "No test compares the labels with the population after evolution; the mapping drifts silently.",
 ["ade/history.py","ade/population.py","ade/individual.py"],[("individual-to-row map keyed by hash","History.kr / notInPop / add"),("item assignment","Population.__setitem__"),("stable hash","Individual.__hash__")],
 [("Kp","rows of current members","History"),("Kn","rows of never-members","History")],["value-versus-fitness queries by label","population contents"])

add("C18","Saving and loading preserves the population and lets it resume",
 "Loading a saved population gives the same members in the same order with the same values and fitness, the same ranking, bounds, names, settings, constraints and history, in the same or another process, whether it was saved fresh, mid-run, after an abort or after loading. A loaded population with an evaluation function supplied can be evolved at once, obeys aborts, and its history goes on being maintained; loading with new bounds confines all members' values to them. Saving does not alter the population saved.",
 ["crash_points","histories","configurations"],"a save at any point of a run's history, any number of save/load cycles, with and without new bounds, constraints and evaluation function",
 "One test round-trips a fresh population in one process and compares a few attributes.",
 ["ade/population.py","ade/history.py","ade/individual.py","ade/util.py"],[("pickling","Population.__getstate__/__setstate__/save/load, History.__getstate__/__setstate__, Individual.__getstate__, ParameterManager.__getstate__"),("array packing","seq2bytes / bytes2array")],
 [],["members, ranking and history after loading","behaviour of a resumed run"])

add("C19","Sampling gives distinct, permitted indices with the set bias",
 "A sample of N indices contains N different valid indices, none of them excluded. With base randomness off the single index is that of the best non-excluded member; with it fully on every non-excluded index can occur; for a setting of one half or less only the best fraction (twice the setting) of the ranked candidates can occur, and better-ranked candidates are never less likely by design than worse-ranked ones, the best being clearly likelier than the worst for a setting of five eighths or less. Impossible requests are refused with an error rather than answered wrongly.",
 ["inputs","configurations"],"every population size and ranking, exclusion set, sample size and randomness setting",
 "Tests sample a fixed population statistically; boundary settings and exclusions of the best are not covered.",
 ["ade/population.py"],[("candidate list by rank","Population.sample"),("biased pick","ProbabilitySampler")],
 [],["returned indices"])

add("C20","Rankings always reflect the current members",
 "Immediately after any change of the population - item assignment, pushing, blacklisting, set-up, loading - the best member, its index, the sorted list of members and the sorted index list all agree with each other and with the members' present fitness, with invalid fitness ranked last. Pushing an individual displaces exactly the worst member. Length, iteration, indexing, membership and truth value agree with the member list.",
 ["histories"],"every sequence of item assignments, pushes, blacklistings, re-evaluations with re-sorting, clears and queries in any order",
 "Tests query after one or two assignments; a stale cached ranking needs a query between two particular changes.",
 ["ade/population.py","ade/individual.py"],[("cached sort invalidated on change","Population.KS / iSorted / kBest / __setitem__ / push"),("blacklisting","Individual.blacklist")],
 [("_KS","cached ranking","Population")],["best, sorted views, indexing"])

add("C21","Index locks are exclusive, fair and never deadlock",
 "A set of indices requested together is granted only when no earlier-granted, unreleased request holds any of them; requests that share an index are granted in the order made; and as long as every holder releases, every request is eventually granted, whatever the overlap. Releasing grants at once whatever became possible; requesting one index twice in a request is refused; an aborting population grants every later request at once and releases what was held, so that what was already waiting is granted as holders go on releasing.",
 ["schedules"],"every pattern of overlapping requests and every order of releases",
 "Tests lock two overlapping pairs once.",
 ["ade/population.py"],[("per-index FIFO locks, all requested before waiting","Population.lock / release / abort")],
 [("dLocks","one lock per index","Population")],["when each lock request is granted"])

add("C22","Specification files parse to exactly what they say",
 "Loading a specification text yields one attribute per top-level entry and one dictionary per delimited region, nested where a key has colon-separated parts, with numbers, None, True, False, strings (in lower case) and lists of them as written, integer-like keys as integers, later entries overriding earlier ones, and blank lines, comment lines and trailing comments without effect. Lookup by a path of names returns the entry there or an empty dictionary if there is none. A region without a name and a colon key outside a region are rejected with an error, and an empty or comment-only file yields no attributes.",
 ["inputs"],"every sequence of lines: names, entries, delimiters, comments, blanks, in any order, with any value tokens",
 "Tests parse one file; the reader is a small state machine whose line sequences are not covered.",
 ["ade/specs.py"],[("line state machine","SpecsLoader.read"),("token parsing","SpecsLoader.parseName / parseValue"),("nesting","DictStacker"),("lookup","Specs.get")],
 [],["attributes of the loaded object","result of lookups","errors"])

add("C23","Constraint objects check each constraint with its own parameters",
 "Iterating a constraint object yields one check per registered method followed by the appended functions, in order, and its length and truth value agree. Each registered check, whether called at once or later, and in any order and any number of times, applies its own method to the parameters it names - linear ones as given, logarithmic ones converted to linear - and counts as satisfied when any of them is absent; appended functions see the parameters as given. A relations checker accepts exactly the combinations within the stated deviation from each stated line.",
 ["inputs","histories"],"every registry, every parameter dictionary with names present or absent, and every order of calling the yielded checks",
 "The constraint module has no tests.",
 ["ade/constraints.py","ade/population.py"],[("wrappers","Constraints.__iter__"),("relation check","RelationsChecker.__call__")],
 [],["arguments received by constraint methods","results of the checks"])

add("C24","The message log keeps line structure and handle state",
 "Text lines written to the log always start on a fresh line and end with a newline, even after progress characters (a newline more after such characters is fine when the handle was switched), and contain the formatted text with the requested leading and trailing blank lines and rules; nothing is written when logging is off. Switching handles closes the previous one unless it is standard output and returns the previous handle; a handle that fails to write turns logging off instead of raising. The line-written inquiry is true exactly when a line was written since it was last asked.",
 ["histories","fault_sequences"],"every sequence of lines, characters, blank lines, rules, handle switches, write failures and inquiries",
 "The messenger has no tests.",
 ["ade/util.py"],[("newline bookkeeping","Messenger.writeLine / writeChar"),("handle switching","Messenger._fhSet"),("call forms","Messenger.__call__"),("inquiry","Messenger.lineWritten")],
 [("newlineNeeded","characters since last newline","Messenger")],["text written to each handle","return values","handle closing"])

add("C25","Piecewise evaluation orders parts by average elapsed time",
 "Iterating the evaluation timer yields every part identifier timed so far exactly once, in ascending order of the average time its calls took from call to result, success or failure. An iteration in progress keeps the order it started with, and each part's result or failure is passed through unchanged.",
 ["schedules","histories"],"every interleaving of overlapping calls, durations, failures and iterations",
 "The timer has no tests.",
 ["ade/util.py"],[("time accumulation","EvalTimer.__call__"),("ordering","EvalTimer.__iter__")],
 [("times","total elapsed time per part","EvalTimer"),("Ns","calls per part","EvalTimer")],["iteration order","results passed through"])

add("C26","Partial evaluation gets the target's fitness as its limit",
 "With partial evaluation on, each challenger's evaluation is told the current fitness of exactly the target it challenges, and losing challengers are not recorded in the history; initial members are never given a limit. With it off no limit is ever passed, and every losing challenger with a finite fitness is recorded as never having been a member.",
 ["schedules","configurations"],"every completion order and pattern of results, with the option on and off",
 "One test turns the option on and checks only convergence.",
 ["ade/de.py","ade/individual.py","ade/population.py"],[("limit passed","DifferentialEvolution.challenge / Individual.evaluate / Population.evalFunc"),("history of losers","DifferentialEvolution.challenge")],
 [],["arguments of the evaluation function","history contents"])

add("C27","History queries select exactly the records asked for",
 "A value-versus-fitness query returns, in ascending order of fitness, the fitness and the named parameters' values of exactly the records with the label asked for and whose fitness is at most the ratio times the best, with the columns matching the names requested (all, sorted, when none are; a slice of them for integer arguments). Selection by fraction of the fitness span, and by portion of the ranked records, returns exactly the records in that interval. Queries never alter the history.",
 ["inputs","histories"],"every history content, label, ratio, name selection and interval",
 "Tests query a few fixed rosters.",
 ["ade/history.py"],[("subset selection","Analysis.value_vs_SSE / args2names / Kf12 / Kp12 / name2k")],
 [],["results of the queries"])

add("C28","Example extraction never overwrites the user's files",
 "Extracting the examples creates, in the user's example directory, every packaged example file (lower-case name ending in .py, .c, .txt or .specs) that is missing there, identical to the packaged one, and leaves every existing file untouched, however often it is run and whatever was edited or deleted in between. It creates nothing anywhere else.",
 ["histories"],"every sequence of extracting, editing, deleting and adding files",
 "The script has no tests.",
 ["ade/scripts/examples.py"],[("existence check before copying","extract")],
 [],["contents of the example directory"])

add("C29","Individuals order, compare, copy and combine by value",
 "Individuals are ordered solely by fitness, with missing, negative and not-a-number fitness equal to infinity; two are equal exactly when fitness and all values are equal, and equal ones have equal hashes, in any process. Copies are equal to and independent of their original; sums, differences and multiples are new individuals with element-wise values and no fitness, leaving the operands unchanged. Values are readable by position and by parameter name, consistently with the name-to-value mapping; a population makes one from values, or from fractions of the ranges, and a wrong number of values is refused.",
 ["inputs","histories"],"every pair of values and fitness, including zero of either sign, ties and invalid fitness, and every sequence of copying, updating and combining",
 "Tests cover a few pairs with ordinary numbers.",
 ["ade/individual.py","ade/population.py"],[("comparison and hash","Individual.__lt__ / __gt__ / __eq__ / __hash__ / SSE"),("arithmetic","Individual.__add__/__sub__/__mul__"),("copy","Individual.copy"),("access","Individual.__getitem__ / params / update")],
 [],["results of comparisons, hashing, arithmetic and access"])

add("C30","A full history gives up one of the two most alike records",
 "When a full history takes in another record, the one that goes is one of the two most alike among the records of individuals that are not current members. How alike two records are is judged by the sum of the squared differences of fitness and of each parameter, each relative to its variance among those records, divided by the mean fitness of the two, so that of pairs equally alike the one with the worse fitness is thinned out.",
 ["histories","inputs"],"every sequence of additions and departures of members and additions of non-members, with histories small enough for all pairs to be compared",
 "Tests compare the distances of a few given pairs; which record goes depends on the variance among whichever records are there after a sequence of additions, departures and removals.",
 ["ade/history.py"],[("closest pair","ClosestPairFinder.__call__ / calcerator / setRow / clearRow"),("removal of the record","History.add / purge / notInPop")],
 [],["records of the history before and after each addition"])

add("C31","The initial candidates form a Latin hypercube",
 "Unless uniform sampling was asked for, each batch of as many successive initial candidates as the population is to have members takes, in every parameter, exactly one from each of that many equal slices of the range between its bounds. That holds for the first batch and each following one, whether the candidates are evaluated, rejected by constraints, dropped for their result or just placeholders, and for every repeated set-up. With uniform sampling, too, every candidate is within the bounds.",
 ["inputs","histories","configurations"],"every random draw, number of members and parameters, bounds, pattern of rejected and dropped candidates, and repeated set-up",
 "Tests look at the number of members and at their bounds; a population from an incomplete hypercube is a valid population.",
 ["ade/population.py"],[("hypercube and its rows","Population.setup (refreshIV, getNextIV)"),("scaling to the bounds","ParameterManager.fromUnity")],
 [],["values given to constraints and the evaluation function","members of a placeholder population"])

add("C32","Printed values are complete, sorted and marked at the bounds",
 "Printing parameter values, by themselves or as part of an individual or population, shows each parameter exactly once, in order of the names, with its own value, and marks it with one star if it is less than 5% of the way from its lower to its upper bound and with two if more than 95%. A printed population names its size and range of fitness and has as columns its best individuals, best first and at most seven, with their fitness and values, followed by the best one. Conversion of values to fractions of their ranges and back is exact for every parameter.",
 ["inputs","configurations"],"every set of names and bounds, every vector of values, every population in whatever order its members are",
 "Tests compare one or two printed values with a text; a star or value at the wrong parameter, or a column missing, looks like a normal print-out.",
 ["ade/population.py","ade/individual.py"],[("names, bounds and scaling","ParameterManager (sortedNamerator, prettyValues, toUnity, fromUnity)"),("table","Population.__repr__"),("individual","Individual.__repr__")],
 [],["text printed for values, an individual and a population","values converted"])
add("C33","The log summary shows the best distinct entries, best last",
 "Summarising a log shows a column for each parameter that was asked for by name, wildcard or range, or, if none was, for each that is marked with stars in one of the four best entries. Its rows are, from the best entry to the ones of at most twice its fitness, those that differ by more than 1% in fitness or a shown parameter from the row before, at most the 40 best, each with the fitness, values and stars of its entry, and the best comes last. That holds however the log's entries were wrapped, ordered and mixed with other lines, and with the table of a final population, too.",
 ["inputs"],"every log of printed individuals and final population, and every list of patterns",
 "There is no test of it; a summary missing a row or a column still looks like a summary.",
 ["ade/scripts/lgg.py"],[("parsing of entries","Grepper.filerator, Grepper.load"),("selection of rows and columns","RowManager.trim, Grepper.globNames, Grepper.starredNames"),("print-out","Grepper.makeLines")],
 [],["printed summary"])

add("C34","Plots show every record's value of each parameter once",
 "Plotting parameter values makes one subplot for each parameter asked for, or for all in order of their names, titled with its name. Its points are, in distinct colours, exactly the fitness and that parameter's value of the records of members, of former members and of those that never were, or just of members if so asked, as far as their fitness is within the given ratio to the best. All figures get shown, or saved under the given name and, from the second on, that name with a number, in the size asked for.",
 ["inputs","histories","configurations"],"every history, choice of parameters, ratio and option, from the viewer script on a saved population, too",
 "Tests look at the array of values for one parameter; nobody looks at the figures, and one with points missing or swapped still looks fine.",
 ["ade/history.py","ade/scripts/pv.py"],[("selection of records","Analysis.value_vs_SSE"),("figures","Analysis.plot, Analysis.pick_N, Analysis.makePlotter"),("files","Analysis.filePath")],
 [],["lines, titles, labels and sizes of the figures","names of the files"])
add("C35","Correlation plots show the most correlated pairs",
 "Plotting correlations shows as many pairs of different parameters as asked for (or all there are), or pairs including the parameter named, in descending order of the absolute value of their correlation coefficient, none left out having a larger one, each with that coefficient. Each shows the line best fitting the best half of the records and the next one, with an error's weight in proportion to the reciprocal of the mean of the record's and the best fitness, and points only of records, those of the best 70% at least, none less prominent than one of a worse record. The line and coefficient printed or returned are those shown.",
 ["inputs","histories","configurations"],"every set of records, parameter named, and number of pairs",
 "Tests check the coefficient for one pair of columns; order, selection, fitted line and points are only to be seen in a figure.",
 ["ade/history.py","ade/scripts/pv.py"],[("coefficients and order","Analysis.corr, Analysis.correlator"),("fitted line","Analysis.lineFit"),("figure","Analysis.plotXY, Analysis.plotCorrelated")],
 [],["lines, texts and labels of the figures","printed lines","result of plotting one pair"])

add("C36","Script options have the values given on the command line",
 "An option declared with a letter, a long name and a default is found under its letter with the last value given for it, converted to the type of the default, or else the default; one declared without a default is true if given and false otherwise, and a name never declared has no value. Other arguments are found in their order as a sequence whose length and truth match, empty if none were declared or given. The command line is parsed at the first access only, a value of the wrong type or an argument not declared ends the program, help shows each description with its default, and a function supplied is run only in the main program.",
 ["inputs","histories","configurations"],"every set of declarations, every command line made of them, and every order of accesses",
 "There is no test of it, and the scripts' usual command lines use few of the options.",
 ["ade/args.py"],[("declarations","Args.__call__, Args.addDefault"),("access","Args.__getattr__, Args.__iter__, Args.__len__, Args.__getitem__")],
 [],["values of options","sequence of other arguments","text of the help","exit"])

add("C38","Settings are those given, or else the documented ones",
 "A run has each setting as given, even if that is zero or false; else as a subclass has it; else the documented default, and no setting affects another. A population has as many members as the size per parameter times the number of parameters, but at least the minimum and otherwise at most the maximum, and its target score is the target fraction of that. A crossover rate not from 0 to 1, an evaluation function or constraint that cannot be called, names and bounds of different number, and a member that is no individual are refused, and nothing has changed then.",
 ["inputs","configurations"],"every combination of settings given, of a subclass, and by default, and every kind of unusable argument",
 "Tests give the same few settings and rely on them in passing; a zero taken for a missing value gives a run that works, just with other settings.",
 ["ade/de.py","ade/population.py"],[("settings of a run","DifferentialEvolution.attributes, DifferentialEvolution.__init__"),("size and target","Population.__init__"),("refusals","ParameterManager.__init__, ParameterManager.setConstraints, Population.__setitem__")],
 [],["settings of the run","number of members and target score","exceptions"])

add("C39","Evaluations that need not wait for each other run at the same time",
 "In a generation a challenge is evaluated as soon as no earlier challenge stands in its way: one under evaluation stands in the way only of those that use the member it challenges, and one that is itself held up only of those that share a member with it. During set-up, until as many evaluations were begun as there are to be members, as many are in flight as the configured limit allows. A generation begins as soon as, and not before, the challenges of the previous one are decided and the report callbacks about them have finished.",
 ["interleavings","configurations"],"every choice of members used by the challenges of a generation, every order of results, and slow report callbacks",
 "Evaluating one after another, or holding members longer than needed, gives the same results, only slower; tests look at results and mostly evaluate at once.",
 ["ade/de.py","ade/population.py","ade/report.py"],[("release of members once read","DifferentialEvolution.challenge"),("challenges issued together","DifferentialEvolution._run"),("limit in set-up","Population.setup"),("waiting for reports","Population.waitForReports, Reporter.waitForCallbacks")],
 [("locks","who waits for which member","Population.dLocks")],["calls of the evaluation function","results given back","report callbacks under way"])

add("C40","An image is shown by one viewer at a time",
 "When a watched image file is written to, and neither has a viewer been started for it before by the same object nor is the one recorded by another still running, the first of the listed viewers that is installed is started, once however often the file is written to, in this program's environment, with its listed options, in which a placeholder stands for the image's file name, and the image's path, and gets recorded next to the image. If it ends and has printed an error, that is logged and the next one installed is started; that there is none is logged, too, unless complaints are off. A missing image file is made empty, an existing one is left alone, and watching stops when the program does.",
 ["histories","inputs","configurations"],"every sequence of writes and ends of viewers, records left by earlier runs, list of viewers installed or not, and several objects and images",
 "There is no test of it; viewers are not installed where tests run, and the second one started, or none, is only to be seen on a screen.",
 ["ade/image.py"],[("watching","ImageViewer._startNotifier, ImageViewer._stopNotifier"),("record of the process","ImageViewer.processRunning, ImageViewer.savePID"),("starting and trying the next one","ImageViewer.spawnViewer")],
 [("record","number of the viewer's process, in a file next to the image","ImageViewer.pidFilePath")],["programs started and their arguments","records","log"])

with open('/verif/properties.jsonl','w') as fh:
    for p in P: fh.write(json.dumps(p)+"\n")
print(len(P))
