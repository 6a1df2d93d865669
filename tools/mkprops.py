#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Option combinators depend only on the case and run callbacks only for it",
  "Every Option operation (map, map2, apply, starmap, bind, filter, or_else[_with], default_value/default_with, to_list/to_seq/to_optional/to_result[_with], of_optional/of_obj/of_result, is_some/is_none, value, equality) returns exactly what the Some/Nothing case and the wrapped value determine, whatever the wrapped value is (falsy values, None and nested options included). A callback is called exactly once, with the wrapped value(s), and only in the case that needs it, and an exception it raises propagates unchanged. The method, the module-level function and the piped form agree, and no operation changes its operands.",
  ["inputs", "programs"], "all options over all wrapped values, all callbacks (incl. raising ones), all chains of operations",
  "The tests try each operation on a handful of ints; they never combine falsy/None/nested payloads with every operation, never count callback calls, and cannot cover chains.",
  ["expression/core/option.py", "expression/core/tagged_union.py"],
  [("structural match on the tag in every method", "expression/core/option.py:Option"), ("module functions delegate to the methods through curry_flip", "expression/core/option.py")],
  [("tag", "which case is active", "expression/core/option.py:Option.tag")], ["return value, callback log and operands of every public Option call"])

p("C02", "Result operations follow the railway: Ok and Error tracks never mix",
  "Every Result operation (map, map2, apply, map_error, bind, filter[_with], or_else[_with], swap, merge, default_value/default_with, to_option, of_option[_with], is_ok/is_error, equality) acts on the track it names and passes the other track through with its payload unchanged; when several operands are errors the documented one wins (the left operand for map2, the function for apply). A callback runs exactly once and only on its own track, and an exception it raises propagates unchanged. Method, module-level function and piped form agree, also for Success/Failure (Try) values, and operands are never changed.",
  ["inputs", "programs"], "all results over all ok/error payloads, all callbacks (incl. raising ones), all chains of operations",
  "The tests check single calls on ints and strings; they do not cover falsy/None payloads on both tracks, error precedence in every combination, callback counts or chains.",
  ["expression/core/result.py", "expression/core/try_.py"],
  [("structural match on the tag in every method", "expression/core/result.py:Result"), ("Try is a Result pinned to Exception", "expression/core/try_.py:Try")],
  [("tag", "which track the value is on", "expression/core/result.py:Result.tag")], ["return value, callback log and operands of every public Result call"])

p("C03", "Effect builders run statements in order and stop at the first failing bind",
  "A function decorated with effect.option, effect.result, effect.try_ or effect.seq runs its statements in order, each at most once; `yield from` a success (or `yield` of a plain value) resumes the body with that value, and `yield from` Nothing or an Error ends the call at once with exactly that Nothing/Error while the remaining statements never run (finally blocks do). Otherwise the call returns the lifted return value, or, when the body ends without a value, the last yielded value (the empty case if nothing was yielded); effect.seq returns all yielded values followed by the returned one. Exceptions raised by the body propagate, and every call, nested or repeated, is independent of all others.",
  ["programs", "inputs", "histories"], "all bodies (sequences of binds, yields, returns, raises, loops, nested decorated calls, try/finally) and all values bound",
  "The tests contain a few dozen fixed bodies; the guarantee is over all programs and over repeated and nested calls of the same decorated function.",
  ["expression/core/builder.py", "expression/effect/option.py", "expression/effect/result.py", "expression/effect/seq.py", "expression/core/error.py"],
  [("generator driven by _send/bind/combine loop", "expression/core/builder.py:Builder"), ("EffectError raised by iterating Nothing/Error", "expression/core/option.py:Option.__iter__, expression/core/result.py:Result.__iter__")],
  [("is_done", "the body has finished or short-circuited", "expression/core/builder.py:BuilderState")], ["result of the decorated call and the side effects of the body"])

p("C04", "Async effect builders short-circuit per call under every interleaving",
  "A coroutine function decorated with effect.async_option, effect.async_result or effect.async_try runs its statements in order; awaiting Some/Ok gives the wrapped value, awaiting Nothing or an Error anywhere in the body (with or without `yield`) ends that call at once with exactly that Nothing/Error and no later statement runs. Otherwise the call returns the last yielded value, or for a body without `yield` the lifted return value (the empty case for None); exceptions propagate. Calls that run concurrently on one event loop do not influence each other, whatever the interleaving of their suspension points.",
  ["programs", "schedules", "inputs"], "all bodies and all interleavings of several running calls at their suspension points",
  "The tests run single calls to completion with a few fixed bodies; no test interleaves calls or uses awaits in a body without yield.",
  ["expression/core/async_builder.py", "expression/effect/async_option.py", "expression/effect/async_result.py"],
  [("async generator driven by _send/bind/combine loop", "expression/core/async_builder.py:AsyncBuilder"), ("__await__ of Option/Result raises EffectError", "expression/core/option.py, expression/core/result.py")],
  [("is_done", "the body has finished or short-circuited", "expression/core/async_builder.py:AsyncBuilderState")], ["result of each decorated call and the side effects of its body"])

p("C05", "pipeline, traverse, sequence and catch compose results leftmost-error-first",
  "result.pipeline and option.pipeline of f1..fn applied to x equal binding x through f1..fn left to right, stop calling functions after the first Error/Nothing, and with no functions lift x. traverse and sequence over a Block return Ok of the Block of all values in order when every item is Ok, and otherwise exactly the error of the leftmost failing item. catch returns Ok of the value, passes a returned Result through unwrapped, turns exactly the named exception class (and subclasses) into Error of that same exception, and lets every other exception propagate.",
  ["inputs", "programs"], "all function lists, all blocks and positions of failing items, all exception classes",
  "The tests use pipelines of up to a few functions and lists with a single failing item on small ints.",
  ["expression/extra/result/pipeline.py", "expression/extra/option/pipeline.py", "expression/extra/result/traversable.py", "expression/extra/result/catch.py"],
  [("Kleisli fold with bind", "expression/extra/result/pipeline.py:pipeline"), ("fold_back with an effect.result folder", "expression/extra/result/traversable.py:traverse"), ("try/except around the call", "expression/extra/result/catch.py:catch")], (),
  ["return values and which functions were called"])

p("C06", "Tagged unions hold exactly one case; eq, hash, order, copies agree with it",
  "A value of a @tagged_union class can only be built with exactly one declared case (any other construction, and a contradicting tag, raises TypeError) and from then on exposes exactly that tag and value, also to pattern matching and dataclasses.asdict. Two values are equal iff they are of the same union, have the same case and equal values; equal frozen values hash alike; with order=True values compare by declaration order of the case first and by value second. copy, deepcopy and pickling give an equal value of the same type and case, and a frozen union rejects assignment and deletion of its tag and cases (declared and active alike) leaving the value as it was.",
  ["inputs", "configurations", "histories"], "all union declarations (number of cases, frozen/eq/order/repr flags, subclasses), all construction arguments, payloads and sequences of attempted mutations and copies",
  "The tests exercise a few declarations and payloads; the agreement of eq, hash, order, copy and pickle is a statement over all pairs of values and all declarations.",
  ["expression/core/tagged_union.py", "expression/core/option.py", "expression/core/result.py", "expression/core/try_.py"],
  [("generated __init__, __eq__, __lt__, __hash__, __setattr__, __copy__, __getstate__", "expression/core/tagged_union.py:tagged_union")],
  [("tag / active case / _index", "the single active case", "expression/core/tagged_union.py:transform")], ["constructor outcome, attributes, ==, <, hash, copy, pickle, match"])

p("C07", "Block behaves as an immutable list for every operation and history",
  "Every Block operation, as method and as module-level function, returns what the same operation on the plain list of its elements returns (order, duplicates and element identity preserved; folds go left to right; filter/partition/choose keep order; sort and sort_with are stable, also reversed; indexed counts from `start`; skip/take/skip_last/take_last count elements, also when the count is 0 or exceeds the length; head/tail/reduce of an empty block raise ValueError and item outside the range raises IndexError). No operation ever changes an existing block, so every block obtained earlier in a history still holds the same elements later.",
  ["inputs", "histories"], "all element sequences (any element values), all arguments, all histories of operations over shared blocks",
  "Property tests cover single operations on int lists; they do not cover histories over shared blocks, falsy/None/nested elements, callbacks that raise or the empty/zero/oversized argument corners together.",
  ["expression/collections/block.py"],
  [("tuple-backed storage, every operation builds a new Block", "expression/collections/block.py:Block")],
  [("_value", "the elements, as a tuple", "expression/collections/block.py:Block.__init__")], ["result of each call and the contents of all blocks created so far"])

p("C08", "Map is a persistent sorted dictionary under every history of operations",
  "After any history of add, remove, change, filter, map, partition and of_* construction, a Map holds exactly the bindings a dictionary would hold (add replaces, remove of an absent key and change to Nothing of an absent key are no-ops, change passes Some of the current value or Nothing and stores or removes by the answer, later pairs win in of_*), lookups (find, try_find, [], contains, pick, try_pick, exists, for_all, try_get_value) and len agree with it, find and pick raise KeyError when there is nothing, and all traversals (iteration, items, to_list, to_seq, fold, fold_back reversed, iterate) visit each binding once in ascending key order. Earlier maps are never changed by later operations.",
  ["histories", "inputs"], "all histories of operations over any set of totally ordered keys and any values, hence all reachable tree shapes",
  "The tests build maps from one dictionary and check a single operation; deletion-driven rebalancing and change on interior/leaf/absent keys are reached only by particular histories.",
  ["expression/collections/map.py", "expression/collections/maptree.py"],
  [("AVL-style persistent tree", "expression/collections/maptree.py:add/remove/change/rebalance"), ("in-order traversals", "expression/collections/maptree.py:fold/iter/MkIterator")],
  [("_tree", "binary search tree of bindings with cached heights", "expression/collections/map.py:Map.__init__")], ["all public observers of every map in a history"])

p("C09", "Map equality and hash depend only on the bindings",
  "Two Maps are equal iff they hold the same keys with equal values, no matter by which operations and in which order they were built; maps with equal bindings have equal hashes and the same printed form, and a Map is never equal to a non-Map. Equality is symmetric and in particular distinguishes a map from one with additional bindings.",
  ["histories", "inputs"], "all pairs of histories leading to two maps",
  "The tests compare a map with itself or with one built the same way; they never compare maps whose trees differ in shape or where one is a prefix of the other.",
  ["expression/collections/map.py", "expression/collections/maptree.py"],
  [("element-wise comparison of the in-order traversals", "expression/collections/map.py:Map.__eq__"), ("hash folded over the in-order traversal", "expression/collections/map.py:Map.__hash__")], (), ["==, !=, hash, str on pairs of maps"])

p("C10", "Map stays balanced: lookups and updates take logarithmically many compares",
  "In a Map of n bindings built by any sequence of insertions (in any key order, sorted ones included) and after removing any of them, finding, adding or removing a key compares keys only O(log n) times, within the bound given by the tree's height tolerance. Building from arbitrarily long iterables and any such operation works without exhausting the recursion limit.",
  ["histories", "inputs"], "all insertion orders followed by all removal orders, and all sizes",
  "The tests build small maps and never measure cost; a lost rotation is invisible to functional tests until maps get large.",
  ["expression/collections/maptree.py"],
  [("rebalance with tolerance 2 and cached heights", "expression/collections/maptree.py:rebalance/mk"), ("iterative construction", "expression/collections/maptree.py:of_seq/of_list")],
  [("height", "cached height of a subtree", "expression/collections/maptree.py:MapTreeNode.height")], ["number of key comparisons made by each public call"])

p("C11", "Seq functions compute the same elements as the list operations they name",
  "Every function of the seq module and method of Seq (append, choose, collect, concat, filter, fold, fold_back, head, iter, length, map, starmap, map2/map3, mapi, max/min and max_by/min_by, pairwise, range, scan, skip, sum, sum_by, tail, take, to_list, try_find_index, try_pick, unfold, zip, delay, init_infinite, singleton) yields exactly the elements the corresponding list operation gives, in order, for any iterable source (list, tuple, generator, Seq, range) and any elements; fold_back goes right to left, scan starts with the initial state, zip stops at the shorter input, skip/take tolerate counts beyond the length, and head of an empty sequence raises ValueError. Fluent and piped forms agree.",
  ["inputs", "programs"], "all sources of all kinds, all elements, all arguments, all compositions of stages",
  "Property tests check single stages over int lists; element values that are falsy or None, other source kinds and compositions of stages are not covered.",
  ["expression/collections/seq.py"],
  [("generator-based stages", "expression/collections/seq.py")], (), ["elements produced by iterating the result"])

p("C12", "Seq pipelines are demand driven and repeatable",
  "Building a pipeline of seq stages consumes nothing from its source and calls no callback; pulling k elements consumes no more source elements and makes no more callback calls than are needed to produce those k elements (so pipelines over infinite sources make progress, and take(n) never touches the source after the n-th element). Pipelines made of map, choose, collect, concat/append, skip, take, pairwise, starmap and delay over a repeatable source can be traversed any number of times, also by several iterators advancing in any interleaving, each yielding the full sequence from the start. try_find_index, try_pick and head stop consuming at their answer.",
  ["programs", "schedules", "inputs"], "all pipelines, all numbers of pulls and all interleavings of several iterators over one pipeline",
  "Tests check laziness of take and pairwise on one source; the bound on demand and the independence of interleaved iterators quantify over all pipelines and pull schedules.",
  ["expression/collections/seq.py"],
  [("SeqGen re-creates the generator on each __iter__", "expression/collections/seq.py:SeqGen"), ("generators pull one element at a time", "expression/collections/seq.py")],
  [("gen", "factory of a fresh iterator", "expression/collections/seq.py:SeqGen.gen")], ["source pulls and callback calls observed between consumer pulls"])

p("C13", "AsyncSeq computes the same elements as the list operations, on demand",
  "Every AsyncSeq method and asyncseq function (map, choose, collect, concat, append, filter, fold, fold_back, scan, take, skip, head, tail, length, sum, max, min, empty, range, repeat with a count) yields exactly the elements or value the corresponding list operation gives for any asynchronous source, with callbacks called in order once per element, and head/max/min of an empty sequence raise ValueError. Pulling k elements from a result consumes no more source elements than needed for them, and take(n) never asks its source for more than n elements. Several sequences consumed concurrently do not disturb each other.",
  ["inputs", "programs", "schedules"], "all async sources, arguments, compositions of stages and interleavings of consumers",
  "The module has three tests (empty and range); no operator is exercised at all.",
  ["expression/collections/asyncseq.py"],
  [("async generators", "expression/collections/asyncseq.py")], (), ["elements produced, source pulls and callback calls"])

p("C14", "TypedArray is a mutable sequence whose functional operations do not alias",
  "Element access, assignment, deletion, insertion and the inherited mutable-sequence methods act on a TypedArray exactly as on a list of the same elements, and the functional operations (map, filter, choose, collect, fold, forall, head, tail, take, take_last, skip, skip_last, sort, sort_with, sum, sum_by, indexed counting from `start`, try_head, unfold, of/of_seq/of_option) return what they return on lists. A functional operation neither changes its operand nor shares storage with it, so later in-place changes to one array are never visible in another. The element type requested by a type code or by typed elements is enforced on construction and kept by filter.",
  ["histories", "inputs", "configurations"], "all histories of in-place and functional operations over several arrays, all type codes and element values",
  "The tests apply single operations to int arrays and never mutate a source after deriving another array from it.",
  ["expression/collections/array.py"],
  [("each functional operation builds a new TypedArray from a slice/iterator", "expression/collections/array.py:TypedArray")],
  [("value / typecode", "backing storage and its element type", "expression/collections/array.py:TypedArray.__init__")], ["contents of all arrays after each step"])

p("C15", "MailboxProcessor delivers every posted message once, in order, to its receiver",
  "Messages posted to a mailbox, from tasks of its event loop or from other threads and at any moment relative to receive calls, are each handed to exactly one receive, in posting order, and none is lost or duplicated; a waiting receive is resumed once a message is available. Cancelling a receive that is still waiting (for example by a timeout) loses no message and leaves the mailbox usable. After the mailbox's cancellation token is cancelled no further message is delivered and a waiting receive ends as cancelled; a second receive while one is pending is refused.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of posts from several threads/tasks with receives, receiver cancellation and token cancellation",
  "Tests post from the event-loop thread before the loop runs and drain everything; no test posts from another thread, interleaves posts with receives or cancels anything.",
  ["expression/core/mailbox.py", "expression/core/aiotools.py"],
  [("thread-safe queue plus call_soon_threadsafe wake-up", "expression/core/mailbox.py:MailboxProcessor.post"), ("single pending continuation", "expression/core/mailbox.py:MailboxProcessor.receive/__process_events")],
  [("messages", "FIFO of undelivered messages", "expression/core/mailbox.py"), ("continuation", "the pending receive", "expression/core/mailbox.py")], ["post calls and completed receives"])

p("C16", "Each post_and_async_reply is answered by the first reply to its own message",
  "Awaiting post_and_async_reply yields exactly the value given to the first reply on the channel of that message, whatever that value is (None and falsy values included), whether the reply comes before or after the caller starts waiting and in whatever order several outstanding requests are answered; further replies on the same channel change nothing. Requests are delivered to the processor in order with other posted messages, and a request never completes without a reply.",
  ["schedules", "histories", "inputs"], "all interleavings of several requests, posts and replies, all reply values",
  "One test posts a single request that is answered immediately with a string.",
  ["expression/core/mailbox.py", "expression/core/aiotools.py"],
  [("reply callback joined with the awaiting continuation", "expression/core/mailbox.py:MailboxProcessor.post_and_async_reply"), ("first continuation wins", "expression/core/aiotools.py:from_continuations")],
  [("result / continuation", "reply and waiter of one request", "expression/core/mailbox.py")], ["value of the awaited reply"])

p("C17", "Cancellation is sticky and fires every live registration exactly once",
  "Cancelling or disposing a CancellationTokenSource, also concurrently from several threads, makes is_cancellation_requested true for all its tokens for ever and calls every callback whose registration succeeded and was not disposed before, exactly once and in registration order, even when some callbacks raise or use the source themselves or wait for another thread that does. A registration attempted after cancellation is refused with ObjectDisposedException; one racing with cancellation is either refused or its callback is called, never silently lost. Disposing a registration removes that callback only, any number of times, and the `none` token is never cancelled and never calls a callback.",
  ["schedules", "histories"], "all interleavings of register, dispose-registration and cancel calls from several threads, all callback behaviours",
  "Tests register one callback and cancel on the same thread; races between register and cancel need a particular interleaving.",
  ["expression/system/cancellation.py", "expression/system/disposable.py"],
  [("lock around the disposed flag and the listener table", "expression/system/cancellation.py:CancellationTokenSource"), ("listeners called outside the lock, exceptions contained", "expression/system/cancellation.py:CancellationTokenSource.dispose")],
  [("_is_disposed", "cancellation was requested", "expression/system/cancellation.py"), ("_listeners", "live registrations by id", "expression/system/cancellation.py")], ["callback invocations, property values, raised errors"])

p("C18", "Disposables run their action exactly once under any concurrent disposal",
  "Disposing a Disposable or AsyncDisposable created from an action runs the action exactly once no matter how often and from how many threads or tasks, in whatever interleaving, dispose is called or its context is left; entering the context of a disposed object raises ObjectDisposedException and leaving a context disposes it without swallowing the body's exception. A composite async disposable disposes each member in order.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of dispose calls and context exits from several threads/tasks, with and without exceptions",
  "Tests dispose twice sequentially; simultaneous disposal needs a particular interleaving.",
  ["expression/system/disposable.py"],
  [("test-and-set of the disposed flag under a lock", "expression/system/disposable.py:AnonymousDisposable.dispose"), ("flag set before the first await", "expression/system/disposable.py:AsyncAnonymousDisposable.dispose_async")],
  [("_is_disposed", "the action has been claimed", "expression/system/disposable.py")], ["number and order of action runs, raised errors"])

p("C19", "Async starts run to completion once and obey their cancellation token",
  "from_continuations completes with the first continuation called (value, exception or cancellation), at once or later, and ignores all later calls. A computation given to aiotools.start or start_immediate is run exactly once in the event loop without being awaited; cancelling its token before it finishes cancels it at its current suspension point, cancelling afterwards has no effect, and without a token or with the `none` token it always runs to completion. run_synchronously, singleton, from_result, empty and sleep return what their names say and propagate exceptions.",
  ["schedules", "histories"], "all orders and numbers of continuation calls; all interleavings of starting, suspension points and token cancellation of several computations",
  "There are no tests of aiotools except through one mailbox test.",
  ["expression/core/aiotools.py", "expression/system/cancellation.py"],
  [("done() guard on the future", "expression/core/aiotools.py:from_continuations"), ("task.cancel registered on the token", "expression/core/aiotools.py:start/start_immediate")],
  [("__running_tasks", "strong references to started tasks", "expression/core/aiotools.py")], ["outcome of awaits, statements run by started computations"])

p("C20", "Parser combinators implement ordered choice over the exact remaining input",
  "For every parser built from the combinators (pchar, any_of, pstring, and_then, or_else, choice, map, starmap, bind, apply, lift2, sequence, many, many1, sep_by, sep_by1, opt, between, then_ignore, ignore_then, ignore, preturn, fail, pint, pfloat) and every input and start position, run succeeds or fails exactly as the grammar reading says: sequencing continues where the previous parser stopped, or_else tries the second alternative from the original position only after the first failed, repetition is greedy and backs off to the end of the last complete item. On success the value is the one the combinator composes and the reported position is the number of characters consumed from the unchanged input, also for inputs of thousands of characters; parsers are stateless and reusable.",
  ["inputs", "programs"], "all parser expressions, all input strings and start positions, all reuse histories of the same parser object",
  "The tests parse a few fixed strings with a few fixed parsers; backtracking and position bugs show only for particular combinations of combinators and inputs.",
  ["expression/extra/parser.py"],
  [("position-passing run functions", "expression/extra/parser.py:Parser"), ("backtracking by re-running on the same input", "expression/extra/parser.py:or_else")],
  [("Remaining", "input string and current position", "expression/extra/parser.py:Remaining")], ["run() and call results"])

p("C21", "pipe, compose and currying apply functions in order with independent partials",
  "pipe(x, f1..fn), compose(f1..fn)(x) and x.pipe(...) equal fn(...f1(x)...), calling each function once, left to right, and are the identity without functions; pipe2/pipe3 feed a tuple into a curried function and starpipe unpacks tuples. A function curried with curry(n), curry_flip(n) or pipeable gives, when supplied its arguments one group at a time, the same result as the direct call with those positional and keyword arguments; every partial application can be reused any number of times and is unaffected by other uses. flip, fst, snd and identity do what their names say.",
  ["programs", "inputs", "histories"], "all function lists and arities, all ways of reusing partial applications",
  "Tests apply each partial application once, with small arities and ints.",
  ["expression/core/pipe.py", "expression/core/compose.py", "expression/core/curry.py", "expression/core/misc.py"],
  [("left fold over the functions", "expression/core/compose.py:compose"), ("immutable argument tuples in _curry", "expression/core/curry.py:_curry")],
  [("args", "arguments collected so far by a partial application", "expression/core/curry.py:_curry")], ["results and call log of the functions"])

p("C22", "tailrec computes the recursion's result at any depth in constant stack",
  "A function decorated with tailrec or tailrec_async returns what the recursion described by its TailCall steps returns: each step receives exactly the positional and keyword arguments of the previous TailCall, the function runs once per step, the first value that is not a TailCall is returned unchanged, and an exception ends the recursion and propagates. This holds for any number of steps without growing the stack, for nested and mutually recursive use, and concurrently running async recursions do not affect each other.",
  ["programs", "inputs", "schedules"], "all step sequences of any length and, for the async form, all interleavings of several recursions",
  "Tests run a few factorial-style recursions; argument forms, nesting, exceptions and interleavings are not covered.",
  ["expression/core/fn.py"],
  [("trampoline loop", "expression/core/fn.py:tailrec/tailrec_async")],
  [("bouncer", "pending TailCall", "expression/core/fn.py")], ["results, arguments seen by each step, stack depth at each step"])

p("C23", "Option, Result and Block survive pydantic dump and validation unchanged",
  "For models with Option, Result and Block fields over any supported inner types (nested in each other and in models), dumping to Python data or JSON gives the plain representation (the value or null, a tagged ok/error object, a list) and validating that representation, from Python data or from JSON, gives back an equal model with the same cases and inner types. Values that do not fit the declared inner type are rejected with a ValidationError in both modes.",
  ["inputs", "configurations"], "all inner type combinations and values, both validation modes",
  "Tests validate a few int/str fields; Result is never validated from JSON, and nesting is not covered.",
  ["expression/core/option.py", "expression/core/result.py", "expression/collections/block.py"],
  [("__get_pydantic_core_schema__", "expression/core/option.py, expression/core/result.py, expression/collections/block.py"), ("dict()", "expression/core/option.py, expression/core/result.py, expression/collections/block.py")], (), ["model_dump, model_dump_json, model_validate, model_validate_json"])

# What the statements leave open (found while building the checks): the checks accept either behaviour.
p("C24", "Printed forms show the case and all elements in order and disturb nothing",
  "str of an Option, Result, Try, Block, TypedArray, Map or Seq is `Some x`/`Nothing`, `Ok x`/`Error e`, `Success x`/`Failure e`, `[a, b]`, `[|a, b|]`, `map [(k, v); (k, v)]` (string keys in double quotes, ascending) and `[a; b]`, with every payload printed by its own str, however deeply the values are nested and however long they are; a Seq shows its first 100 elements followed by `; ...` if there are more, and asks its source for at most one element beyond those, so infinite sequences can be printed. repr of the collections is the same text, and repr of a tagged union with repr=True is `Class(case=value)` with the value's repr. Printing changes and exhausts nothing, asks nothing of a payload but its text, and printing again gives the same text.",
  ["inputs"], "all values of these types, nested and of any length, over payloads of any kind",
  "The tests print one Some, Ok, Error, Success and Failure of a number; no collection, no nesting, no long or infinite sequence is ever printed.",
  ["expression/core/option.py", "expression/core/result.py", "expression/core/try_.py", "expression/core/tagged_union.py", "expression/collections/block.py", "expression/collections/array.py", "expression/collections/map.py", "expression/collections/seq.py"],
  [("__str__/__repr__ by pattern matching on the case", "expression/core/option.py:Option.__str__"), ("join over the elements", "expression/collections/block.py:Block.__str__"), ("enumeration cut at 100", "expression/collections/seq.py:Seq.__repr__")], (),
  ["str, repr and format of values; elements taken from the source"])

p("C25", "Casts return the value itself exactly when its class fits",
  "upcast returns its argument unchanged. downcast returns the very argument if it is an instance of the class (subclasses, registered classes, multiple inheritance included) and otherwise raises AssertionError; try_downcast returns the very argument under the same condition, where type arguments of a generic class are ignored, and otherwise None. All of them treat falsy values, values that compare equal to everything or to nothing and None like any other value, and failwith raises exactly Exception with the given message.",
  ["inputs", "configurations"], "all class hierarchies, classes and values",
  "The tests cast one instance within one three-class hierarchy.",
  ["expression/core/typing.py", "expression/core/error.py"],
  [("isinstance against the (origin of the) type", "expression/core/typing.py:try_downcast"), ("raise", "expression/core/error.py:failwith")], (),
  ["returned object and raised exception"])

OPEN = {
 "C03": "What a failing bind inside effect.seq does is not specified.",
 "C04": "A suspended call that is cancelled runs its finally blocks and no other statement, ends as cancelled, and leaves the other calls alone.",
 "C05": "Which items' functions traverse calls beyond the deciding ones, and in which order, is not prescribed; pipelines of up to several hundred functions are in scope.",
 "C07": "Block.zip is for blocks of equal length; negative counts are not specified.",
 "C08": "The sequence to_seq returns can be traversed repeatedly. The order in which choosers and predicates are called is not promised.",
 "C10": "After removals the bound is that of the largest size the map has had.",
 "C12": "append, zip and collect likewise touch their second source and the inner sequences only for the elements asked for, append its second source only after the first is exhausted. (zip, filter and scan may call iter() on their source when built, and a delayed generator runs when it is iterated.)",
 "C13": "append touches its second source only after the first is exhausted.",
 "C15": "For a mailbox that was not started with a body a token cancellation takes effect at the next use of the mailbox; a delivery already under way when another thread cancels may still finish; a message handed to a receive that is then cancelled goes back to the front of the queue.",
 "C16": "Replies are given on the event loop's thread.",
 "C17": "A callback whose registration is disposed while a cancellation is already calling callbacks may or may not be called.",
 "C18": "A dispose that loses the race need not wait for the action to end; what a composite does after a member fails is not specified.",
 "C19": "Starting with an already cancelled token is refused and the computation never runs. Tokens may be cancelled from other threads.",
 "C20": "Repeating a parser that can succeed without consuming is not specified.",
 "C21": "Keyword arguments may be given with any group to curry, with the first group to curry_flip and pipeable.",
 "C23": "Some of a value whose representation is null cannot be told from Nothing and is excepted; data with missing or contradictory tags is not specified.",
}
for x in P:
    if x["id"] in OPEN:
        x["statement"] += " " + OPEN[x["id"]]
import re
for x in P:  # at most three sentences
    parts = re.split(r"(?<=\.) (?=[A-Z(])", x["statement"])
    while len(parts) > 3:
        k = min(range(1, len(parts)), key=lambda i: len(parts[i - 1]) + len(parts[i]))
        b = parts[k]
        if b.split()[0] in ("A", "After", "The", "Tokens", "What"):
            b = b[0].lower() + b[1:]
        parts[k - 1:k + 1] = [parts[k - 1].rstrip(".") + "; " + b]
    x["statement"] = " ".join(parts)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P: assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
