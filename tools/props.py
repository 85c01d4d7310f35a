#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a, _technique=technique, _note=note))

SKL = "dsx/mapx/sklmapx/sklmapx.go"
MODEL = "online reference-model monitor over recorded histories"
STEPS = "a deterministic step counter woven into the code under test bounds every call, so hangs are verdicts and not timeouts"

prop("C01", "Skip-list map is a sorted map for every history",
 "After any sequence of Set, Get, Del and Clear calls on a skip-list map, every lookup, the reported length, and the full listings (Keys, Values, ToMap, String) agree with a map holding the last value set for each key, with keys strictly ascending. Del reports exactly whether the key was present, a re-set key is stored once, and the map works for every totally ordered key type (NaN keys excluded), at every size.",
 ["histories", "inputs"], "all operation sequences, all ordered key types, all sizes up to hundreds of thousands of entries and all random tower heights",
 "the one test uses at most six string keys in a fixed order; tower heights above 2, large maps, deletes inside tall towers, re-inserts and other key types are never reached",
 [SKL, "dsx/mapx/sklmapx/splitmix64.go"],
 [("search records the predecessor on every level, insert and delete relink all levels of the tower", SKL), ("random tower height from a per-map generator", "dsx/mapx/sklmapx/splitmix64.go")],
 ["return values of Set/Get/Del/Len/Keys/Values/ToMap/String"],
 MODEL + " (sorted-map model), exhaustive short histories plus random long ones",
 "Held on the executed histories: all short histories over a tiny key space and random ones up to 150k live keys; " + STEPS + ".",
 [("len", "number of live entries", SKL), ("next[0..15]", "tower links per level", SKL)])

prop("C02", "A skip-list traversal survives changes made while it runs",
 "A traversal never panics and always ends; the keys it yields are strictly ascending, it reaches every entry that stays in the map during the whole traversal exactly once with its current value, it never yields an entry that is not in the map at that step, and once it has reported the end it keeps reporting the end (as long as the map does not change). This holds when entries (including the current one) are inserted, overwritten, deleted or the map is cleared between two steps; seeking to a present key continues right after that key, and Rewind restarts at the smallest key.",
 ["histories"], "all interleavings of iterator steps, seeks and rewinds of several iterators with map modifications",
 "the test steps two iterators over three keys without modifying the map, and never steps past the end",
 [SKL],
 [("an iterator notices that the node it stands on was removed and goes on at the next larger key", SKL)],
 ["return values of Iterator.Next, Seek, Rewind"],
 "online trace monitor over interleaved iterator/modification histories",
 "Held on the executed histories; the monitor demands only what is promised for entries present throughout; " + STEPS + ".")

prop("C03", "Skip-list lookups and updates cost logarithmic work",
 "In a skip-list map with n entries, whatever the order in which they were inserted and deleted, the average work of Get, Set, Del and Seek grows logarithmically with n and not linearly; one step of an iterator costs constant work.",
 ["inputs", "histories"], "all sizes and insertion/deletion orders (ascending, descending, random, shrinking maps)",
 "no test measures work, and with six keys linear and logarithmic search look the same",
 [SKL, "dsx/mapx/sklmapx/splitmix64.go"],
 [("geometric tower heights, descent from the top level", SKL)],
 ["statements of the package executed per call, counted by instrumentation"],
 "instrumented step-count monitor (statement counters woven in at build time)",
 "Average executed statements per call at up to 2^16 entries against a bound more than four times above the expected logarithmic cost and far below a linear one; no wall-clock time is involved.")

prop("C04", "Ordered map agrees with a sorted map, in listings and in Range",
 "After any sequence of Set, Del and Clear, the ordered map's Get, Len, Keys, Values and Range describe the same set of entries with the last value set for each key, in ascending key order, and Values[i] belongs to Keys[i]. Range visits entries in ascending order until its callback asks to stop and not further, and callbacks may modify the map: Range never panics, always ends, visits every entry that stays present throughout exactly once, and every visit shows an entry that is in the map at that moment with its current value.",
 ["histories"], "all operation sequences and all modifications made from inside Range callbacks",
 "the package has no tests at all",
 ["dsx/mapx/ordmapx/ordmapx.go", SKL],
 [("hash map and skip list are updated together", "dsx/mapx/ordmapx/ordmapx.go")],
 ["return values and callback arguments"],
 MODEL + " (sorted-map model)", "Held on the executed histories, including re-entrant callbacks.",
 [("m / skl", "values by key / ordered key index; must hold the same key set", "dsx/mapx/ordmapx/ordmapx.go")])

prop("C05", "The goroutine-safe map is linearizable",
 "Under concurrent use from any number of goroutines, every Get, Has, Set, Delete, Size, Keys, Values and Clear of the goroutine-safe map appears to take effect atomically at one moment between its call and its return; in particular Size, Keys and Values describe one consistent moment, and no operation races, deadlocks or blocks others after it has returned or panicked because its key cannot be hashed (which leaves the map as it was); keys that differ from themselves (NaN) are counted, listed and cleared like others.",
 ["schedules", "histories"], "all interleavings of all operations, any key and value type",
 "the package has no tests at all, and no sequential test can show atomicity",
 ["dsx/mapx/syncmapx/syncmapx.go"],
 [("one RWMutex held over each operation", "dsx/mapx/syncmapx/syncmapx.go")],
 ["call/return history at the client boundary", "race detector reports"],
 "linearizability checking of recorded histories (porcupine) + race detector, with injected yields",
 "Held on thousands of short recorded histories and on race-detector runs; bounded by the interleavings that occurred (counted in the evidence).")

prop("C06", "Deque is a double-ended sequence for every history",
 "For every sequence of PushFront, PushBack, PopFront and PopBack on a deque, each pop and peek returns exactly the element at that end of the ideal sequence, and reports absence exactly when the sequence is empty; no element is lost, duplicated, reordered or invented, across any number of fill and drain cycles and whichever end they use.",
 ["histories"], "all operation sequences, element types and sizes, in particular around internal buffer boundaries and after draining",
 "the test pushes 1000 elements on both ends and pops the same number from both ends once; it never empties the deque and never reuses it",
 ["dsx/linkedx/dequex/dequex.go"],
 [("linked fixed-size buffers with start/end cursors, recycled through a pool", "dsx/linkedx/dequex/dequex.go")],
 ["return values of Push*/Pop*/Peek*"],
 MODEL + " (sequence model with unique element values)", "Exhaustive short histories and long random ones with phases that fill and drain across several buffers; " + STEPS + ".",
 [("start,end", "occupied range of one buffer", "dsx/linkedx/dequex/dequex.go")])

LIST_TXT = "all operation sequences including insertion and removal at both ends, removal of the only element, and out-of-range indices"
prop("C07", "Linked list is a positional sequence for every history",
 "For every sequence of Append, Insert, Remove and At calls, the linked list holds exactly the sequence an ideal list would: Insert places the element at its index (0..length), Remove takes out and returns the element at its index, At reads it, Len is the number of elements, and Iterate yields all of them in order until its callback returns false. A call with an out-of-range index changes nothing and reports no element.",
 ["histories", "inputs"], LIST_TXT,
 "the test inserts and removes in the middle of a 100-element list only; it never touches the last element, an empty list, Len or Iterate",
 ["dsx/linkedx/listx/listx.go"],
 [("head, tail and length maintained by Append/Insert/Remove", "dsx/linkedx/listx/listx.go")],
 ["return values, Iterate callbacks"],
 MODEL + " (sequence model)", "Exhaustive short histories over all indices and long random ones; " + STEPS + ".")

prop("C08", "Slice-backed list is a positional sequence for every history",
 "For every sequence of Append, Insert, Remove and At calls, the slice-backed list holds exactly the sequence an ideal list would: Insert (0..length) shifts later elements, Remove returns the element and closes the gap, At, Len and Iterate agree with it, and Iterate stops when its callback returns false. Remove and At with an out-of-range index report no element and change nothing; an Insert with an out-of-range index, however it reports the mistake, leaves the list unchanged.",
 ["histories", "inputs"], LIST_TXT,
 "the package has no tests at all",
 ["dsx/slicex/listx/listx.go"],
 [("append/copy shifting", "dsx/slicex/listx/listx.go")],
 ["return values, Iterate callbacks"],
 MODEL + " (sequence model)", "Exhaustive short histories over all indices and long random ones.")

prop("C09", "Linked queue is first-in first-out for every history",
 "For every sequence of Enqueue and Dequeue calls, the linked queue hands out each enqueued element exactly once and in the order of arrival; Dequeue and Peek report absence, and IsEmpty is true, exactly when every enqueued element has been dequeued, and Peek shows the next element without removing it.",
 ["histories"], "all operation sequences, including emptying and refilling",
 "the package has no tests at all",
 ["dsx/linkedx/queuex/queuex.go"],
 [("head/tail links with pooled nodes", "dsx/linkedx/queuex/queuex.go")],
 ["return values"],
 MODEL + " (FIFO model with unique values)", "Exhaustive short histories and long random ones; " + STEPS + ".")

prop("C10", "Both stacks are last-in first-out for every history",
 "For every sequence of Push and Pop calls, the linked stack and the slice-backed stack hand out each pushed element exactly once, most recent first; Pop and Peek report absence exactly when the stack is empty, Peek shows the top without removing it, and Len (and IsEmpty) is the number of elements still held.",
 ["histories"], "all operation sequences, including popping the last element and refilling",
 "the linked stack has no tests; the slice stack's test pushes at most three elements and never checks Peek, Len or an empty stack",
 ["dsx/linkedx/stackx/stackx.go", "dsx/slicex/stackx/stackx.go"],
 [("head link / slice end as the top", "dsx/linkedx/stackx/stackx.go")],
 ["return values"],
 MODEL + " (LIFO model with unique values)", "Exhaustive short histories and long random ones on both implementations.")

prop("C11", "Ring queue is a bounded FIFO of exactly its capacity",
 "A ring queue created with capacity n > 0 accepts an element exactly when it holds fewer than n, refuses it (changing nothing) when it is full, and hands out accepted elements exactly once in order of arrival, for any number of wrap-arounds. IsFull, IsEmpty, Cap, Peek, and Head on a non-empty ring agree with that at every moment.",
 ["histories", "inputs"], "all operation sequences and capacities, any number of wrap-arounds",
 "the test fills rings of capacity 1 to 3 once and drains them once; it never wraps, never overfills",
 ["dsx/slicex/queuex/queuex.go"],
 [("head/tail indices modulo capacity+1", "dsx/slicex/queuex/queuex.go")],
 ["return values"],
 MODEL + " (bounded FIFO model)", "Exhaustive short histories for capacities 1..4 and random ones for larger capacities, all wrapping many times.")

prop("C12", "Slice operations match the ideal sequence for all integer arguments",
 "Every operation of the extended slice (Set, Get, Slice, Splice, Expand, Insert, Cut, Delete, DeleteReplace, Push, Pop, Shift, UnShift, Reverse, Rotate, Filter, Extend, Clear, Repeat with count >= 0, searching and visiting) leaves and returns exactly what the ideal sequence operation would, with every index clamped to the valid range: Set, Get and DeleteReplace clamp to an existing element (and do nothing on an empty slice), range ends clamp to 0..length and are ordered, a negative end of Slice counts from the back, Delete at an index outside the slice removes nothing. No integer argument, however extreme, panics; Shuffle only permutes.",
 ["histories", "inputs"], "all operation sequences and all int arguments including the extreme ones, on slices with and without spare capacity",
 "the tests check each operation on a few literal slices of at most five elements built fresh, and indices up to 100 away; Filter, Repeat, Shuffle, DeleteReplace, IndexOf, Each and chains of operations are untested",
 ["dsx/slicex/slicex.go"],
 [("index clamping helper, Splice as the basis of the editing operations", "dsx/slicex/slicex.go")],
 ["slice contents and return values after each call"],
 MODEL + " (independent sequence model)", "Held on exhaustive small argument combinations and long random chains of operations.")

prop("C13", "Slice operations never write into other sequences the caller holds",
 "Editing an extended slice never changes any other sequence the caller holds: not the argument values passed to Splice/Expand (nor the array behind them), not a slice made by Copy or a slice it was copied from, and not, by growing one of them, the other pieces returned by Split or Batch. The inserted values are the ones the arguments had at the time of the call, even when the arguments are part of the slice itself.",
 ["inputs", "histories"], "all operations and argument shapes, spare capacities and self-insertions",
 "the tests build every slice from fresh literals without spare capacity, so shared arrays never occur",
 ["dsx/slicex/slicex.go"],
 [("append on clipped slices", "dsx/slicex/slicex.go")],
 ["canary elements around every argument and copy"],
 "canary monitor on backing arrays around every call", "Held on the executed operations with canaries before and behind every array involved.")

prop("C14", "Split and Batch cut a slice into its consecutive pieces",
 "For any non-negative piece lengths, Split returns consecutive pieces with the given lengths (cut short at the end of the slice) followed by the rest if it is not empty, so their concatenation is the original; Batch(n) returns pieces of exactly n elements (n below 1 counts as 1) and a shorter last one only if something remains. Neither changes the original, and Join renders every element once, in order, as fmt prints it, separated by the separator.",
 ["inputs"], "all slices, length lists and batch sizes, including zero, sums beyond the end, and extreme lengths",
 "the tests use slices of three or five elements and a handful of lengths",
 ["dsx/slicex/slicex.go"],
 [("running end position clamped to the slice", "dsx/slicex/slicex.go")],
 ["returned pieces"],
 "reference-model oracle over generated inputs", "Exhaustive for small slices and lengths, random and extreme values beyond.")

prop("C15", "Bit set behaves as a set of bit positions",
 "For every unsigned element type and every sequence of Set, Clear, Toggle, SetAll, ClearAll and ToggleAll, Test(i) is true exactly when position i is in the ideal set over 0..width-1, Test of several positions is true when at least one is in it, and IsEmpty and IsFull say whether the set is empty or complete. Positions at or beyond the width are ignored and read as absent.",
 ["histories", "inputs"], "all operation sequences, all unsigned types and positions",
 "the package has no tests at all",
 ["dsx/setx/bitsetx/bitsetx.go"],
 [("shift and mask on the element type", "dsx/setx/bitsetx/bitsetx.go")],
 ["return values of Test, IsEmpty, IsFull"],
 MODEL + " (set model)", "All 8-bit states exhaustively, random histories for the other widths and a named type.")

prop("C16", "Separate containers can be used from separate goroutines",
 "Containers (maps, lists, queues, stacks, deques, rings, slices, bit sets) that are created and used by different goroutines at the same time do not influence each other: each behaves as if it were alone, and their creation and use is free of data races.",
 ["schedules"], "all interleavings of goroutines that each own their containers",
 "no test creates containers from more than one goroutine",
 [SKL, "dsx/mapx/sklmapx/splitmix64.go", "dsx/linkedx/dequex/dequex.go", "dsx/linkedx/listx/listx.go", "dsx/linkedx/queuex/queuex.go", "dsx/linkedx/stackx/stackx.go", "dsx/slicex/slicex.go"],
 [("per-instance node pools; the shared seed is advanced atomically", "dsx/mapx/sklmapx/splitmix64.go")],
 ["per-goroutine model agreement", "race detector reports"],
 "race detector + per-instance reference models under parallel load", "Held on the executed parallel runs.")

prop("C17", "Work at the ends of queues, stacks, deques and lists is constant",
 "Pushing and popping at either end of the deque, enqueueing and dequeueing on both queues, pushing and popping on both stacks, and appending to both lists takes an amount of work that does not grow with the number of elements held.",
 ["inputs", "histories"], "all sizes and mixes of end operations",
 "no test measures work",
 ["dsx/linkedx/dequex/dequex.go", "dsx/linkedx/queuex/queuex.go", "dsx/linkedx/stackx/stackx.go", "dsx/linkedx/listx/listx.go", "dsx/slicex/queuex/queuex.go", "dsx/slicex/stackx/stackx.go", "dsx/slicex/listx/listx.go"],
 [("head/tail pointers, ring indices", "dsx/linkedx/dequex/dequex.go")],
 ["statements executed per call, counted by instrumentation", "bytes allocated per call"],
 "instrumented step-count monitor", "Worst executed statements per call (and average allocated bytes) at up to 200k elements against a constant bound; no wall-clock time is involved.")

prop("C18", "Lazy value is computed exactly once and shared by everyone",
 "However many goroutines call Get on a lazy value and however they interleave, its constructor runs exactly once, not before the first Get, every Get returns the value that one run produced (never a zero or partly built one), and what the constructor wrote is visible to every caller without data races.",
 ["schedules"], "all interleavings of concurrent first and later Gets, slow constructors, all value types",
 "the package has no tests at all",
 ["functionalx/lazyx/lazy.go"],
 [("sync.Once around the constructor", "functionalx/lazyx/lazy.go")],
 ["constructor invocations and Get results per goroutine", "race detector reports"],
 "exactly-once event monitor under concurrent load + race detector", "Held on the executed schedules, with delays injected into the constructor and yields into the code.")

prop("C19", "Option, result and parameter folding call exactly the matching function",
 "Match on an option (or result) calls exactly one of its two functions exactly once: the first with the stored value if there is one (success), otherwise the second (with the stored error), and returns that function's results unchanged; values equal to the zero value count as present. Parameter applies its functions once each, in order, each to the previous one's output starting from nil, and returns what the constructor makes of the last output.",
 ["inputs"], "all values, types and function lists",
 "the packages have no tests at all",
 ["functionalx/optionx/optionx.go", "functionalx/resultx/resultx.go", "configx/optionalx/optionalx.go"],
 [("presence flag decides, not the value", "functionalx/optionx/optionx.go")],
 ["callback invocations and results"],
 "callback trace monitor over generated inputs", "Held on the generated values, types and function chains.")

prop("C20", "An object taken from the typed pool belongs to one holder",
 "Under concurrent Get and Put, the typed pool never hands the same object to two holders at once: an object is either held by exactly one caller since its Get, or back in the pool; Get never returns nil and only returns objects made by the registered constructor. Handing an object over through the pool is free of data races and keeps the state it was put back with.",
 ["schedules"], "all interleavings of Get and Put from many goroutines, with garbage collections in between",
 "the package has no tests at all",
 ["syncx/syncpoolx/syncpoolx.go"],
 [("sync.Pool with a typed constructor", "syncx/syncpoolx/syncpoolx.go")],
 ["ownership mark in each object", "race detector reports"],
 "ownership monitor (per-object holder mark) + race detector", "Held on the executed schedules.")

prop("C21", "Pointer lock runs critical sections one at a time",
 "For a lockable cell (one whose first word holds its own address while it is free), Lock runs the given function exactly once with the cell's address, never while another goroutine is inside Lock on the same cell, makes the writes of earlier sections visible to later ones, leaves the cell lockable afterwards, and does not disturb or wait for other cells. A value that is not such a cell should be lockable as well (known finding: it waits forever).",
 ["schedules"], "all interleavings of any number of goroutines on shared and separate cells",
 "the package has no tests at all",
 ["syncx/lockx/lockx.go"],
 [("compare-and-swap of the cell's first word between its address and nil", "syncx/lockx/lockx.go")],
 ["enter/leave events of critical sections", "race detector reports"],
 "mutual-exclusion event monitor under a controlled random scheduler + race detector", "Held on the executed schedules; the hang on ordinary values is listed as a known finding.")

prop("C22", "Time truncation yields the start of the enclosing UTC unit",
 "Truncating a Unix time to second, minute, hour, day, week (starting Monday), month or year returns the first second of the UTC unit that contains it: never later than the input, less than one unit earlier, unchanged when applied twice, and non-decreasing in the input; Truncate(t, n) does the same for units of n seconds counted from the start of year 1 (1 <= n <= 9*10^9). The result does not depend on the local time zone of the process, also before 1970, across leap years and at century boundaries.",
 ["inputs", "configurations"], "all Unix seconds in years 1 to 9999 and beyond, all unit lengths, all local time zones",
 "the package has no tests at all",
 ["timex/truncatex/truncatex.go", "timex/timex.go"],
 [("UTC conversion before calendar arithmetic", "timex/timex.go")],
 ["return values"],
 "independent calendar oracle over generated instants, under several local zones", "Held on all unit boundaries +-1 s of every month in years 1..9999 sampled per run, plus random instants, under five local zones.")

prop("C23", "Sleeper sleeps exactly as long as asked, one sleeper at a time",
 "SleepFor(n) returns true after exactly n seconds and SleepUntil(t) at time t (at once if that is past, and sleeps of centuries do not end early), SleepForever only on a wakeup, and none of them returns earlier unless it is woken. While one goroutine sleeps, every other sleep call on the same sleeper returns false at once without disturbing it, and after a sleep ended, for whatever reason, the sleeper can be used again any number of times.",
 ["schedules", "histories"], "all sequences and overlaps of sleep and wakeup calls, all durations",
 "the only test sleeps once for one second and asserts nothing",
 ["timex/sleepx/sleepx.go"],
 [("slept flag claimed by compare-and-swap, timer and wakeup channel in one select", "timex/sleepx/sleepx.go")],
 ["return value and virtual time of every call"],
 "trace monitor under virtual time (testing/synctest)", "Held on the generated schedules; all times are virtual, so the verdict does not depend on machine speed.")

prop("C24", "A reported wakeup always wakes; no wakeup comes out of nowhere",
 "Wakeup returns true exactly when a sleep is in progress, and then that sleep ends at once, even if it was just starting; a Wakeup that returned false, or one that ended an earlier sleep, never cuts a later sleep short. Sleep and Wakeup may be called from any goroutines at any time without data races or lost wakeups.",
 ["schedules"], "all interleavings of Wakeup calls with starting, running and ending sleeps",
 "no test calls Wakeup",
 ["timex/sleepx/sleepx.go"],
 [("wakeup context replaced under the lock that starts a sleep", "timex/sleepx/sleepx.go")],
 ["Wakeup results, sleep returns, virtual time", "race detector reports"],
 "virtual-time trace monitor with injected yields + race detector", "Held on the executed schedules.")

prop("C25", "Interval intersection finds what a majority of sources agree on",
 "For intervals with non-negative half-width, Intersection of n >= 2 intervals succeeds when for some f < n/2 (rounded down) there are points lying in at least n-f intervals and at most f midpoints lie outside the span from the first to the last such point; it then returns that span, as (low, high), for the smallest such f. Whenever it succeeds the span is not empty and its ends lie in a strict majority of the intervals; one interval returns itself, none fails, and the result does not depend on the order of the arguments.",
 ["inputs"], "all lists of intervals (no int64 overflow), including touching, nested, zero-width, duplicate and disjoint ones in any order",
 "the tests check one, two and three overlapping intervals without falsetickers, ties or failures",
 ["timex/intersectionx/intersectionx.go"],
 [("sorted edge sweep from both sides with a growing number of allowed falsetickers", "timex/intersectionx/intersectionx.go")],
 ["return values"],
 "independent point-counting oracle over generated interval lists", "Exhaustive for small lists over a small grid, random lists up to 40 intervals beyond; odd n with exactly (n-1)/2 outliers is accepted either way as long as the answer is sound.")

prop("C26", "Stopwatch and clock helpers report UTC and true elapsed time",
 "The clock helpers return the current instant, respectively exactly the given one, in UTC whatever the local zone; the stopwatch's start and end are the instants of its last Start and End calls in UTC, and its difference is exactly the time that passed between them, unaffected by wall-clock adjustments, and zero or negative spans included.",
 ["histories", "configurations"], "all sequences of Start/End, all time zones and instants",
 "the only test prints a difference and asserts nothing",
 ["timex/timex.go", "timex/diffx/diffx.go"],
 [("instants kept with their monotonic reading and reported in UTC", "timex/timex.go")],
 ["returned instants and durations under virtual time"],
 "virtual-time trace monitor (testing/synctest)", "Held on the generated call sequences under several local zones.")

GP = "poolx/gopoolx/timedpool.go"
prop("C27", "Every task the goroutine pool accepts runs exactly once",
 "Every value for which Run returned true is passed to the handler exactly once, unchanged; a value for which Run returned false is never passed to it. This holds under concurrent Run calls, while idle workers are being collected, with preheated workers, and when the pool is stopped at any moment, without deadlock, crash or data race.",
 ["schedules", "histories"], "all interleavings of Run, worker completion, idle collection and Stop; all pool sizes, timeouts and preheats",
 "the tests submit from one goroutine and stop once; collection never coincides with submission, preheated workers are never used",
 [GP],
 [("idle workers are taken from the list under the lock before their channel is used or closed", GP)],
 ["Run results and handler invocations (unique task ids)", "race detector reports"],
 "exactly-once conservation monitor over recorded events, virtual time with injected yields + race detector", "Held on the executed schedules under virtual time and real parallel ones under the race detector.",
 [("dobby", "idle workers, most recent last", GP), ("workers", "live worker count", GP)])

prop("C28", "The pool never exceeds its worker limit and refuses only when busy",
 "At no moment do more than maxWorkers handlers run at once, nor does the pool report more than maxWorkers workers, whatever the preheat. When the pool is at rest apart from running handlers (no call, no collection and no completion in progress) and is not stopped, Run succeeds exactly when fewer than maxWorkers handlers are running, and of several Runs called at once in such a state exactly as many succeed as there are free places (callers never turn each other away); invalid construction arguments are rejected with an error and no pool.",
 ["schedules", "configurations"], "all limits, preheats, loads and interleavings",
 "all tests but one use an unlimited pool; none ever fills a pool, and none checks concurrency",
 [GP],
 [("worker count compared with the limit under the lock; preheat clamped", GP)],
 ["running handlers, Workers(), Run results at quiescent points"],
 "online invariant monitor at every handler entry and at quiescent points (virtual time)", "Held on the executed schedules; quiescence is established by the virtual-time runtime, not by waiting.")

prop("C29", "Idle workers live as long as the idle timeout and then go",
 "A worker that has been idle for less than the idle timeout is never collected and is reused before a new one is started; once it has been idle for the timeout plus one collection period (and two if due exactly at a collection), it is gone: the worker count drops and its goroutine ends. Workers that are busy are never collected, the count always equals the workers alive when the pool is at rest, and preheated workers count from the start.",
 ["schedules", "histories"], "all loads, timeouts, collection periods and their relative phases",
 "two tests check that all workers are gone after long waits; partial collection, reuse and early collection are untested",
 [GP],
 [("idle list ordered by last use, binary search for the expired prefix", GP)],
 ["Workers() and goroutine population over virtual time"],
 "virtual-time trace monitor against an idle-set model", "Held on the generated load patterns; times are virtual.")

prop("C30", "Stopping the pool is final, complete and repeatable",
 "Once Stop has returned, every Run is refused; tasks accepted before still finish, and after they have finished all workers and helper goroutines end and the worker count is zero. Stop may be called any number of times, from several goroutines at once and from inside a handler, without blocking, crashing or racing.",
 ["schedules"], "all moments and overlaps of Stop with Run, running handlers, idle collection and other Stops",
 "the tests call Stop once, from one goroutine, when no Run is in progress",
 [GP],
 [("stop state set under the lock by the first Stop", GP)],
 ["Run results after Stop, goroutine population, Workers()", "race detector reports"],
 "virtual-time trace monitor with goroutine-leak detection + race detector", "Held on the executed schedules; leaks are detected by the virtual-time runtime (bubble exit), not by waiting.")

prop("C31", "Shutdown signals run the handler once and then release waiters",
 "When the process receives an interrupt, quit or terminate signal, once or many times and in any mix, the registered handler runs exactly once, the channel is closed only after the handler has finished, and nothing panics; without a signal neither happens. Other signals do not trigger it.",
 ["fault_sequences", "schedules"], "all sequences and timings of signals, slow handlers, several registrations",
 "the package has no tests at all",
 ["osx/closex/closex.go"],
 [("signal channel served by one goroutine that stops after the first signal", "osx/closex/closex.go")],
 ["handler and channel events in child processes that signal themselves"],
 "fault injection (real signals in child processes) with an event-order monitor", "Held on the executed signal sequences; each runs in its own child process.")

DC = "iox/decouplex/decouple.go"
prop("C32", "Decoupler delivers every accepted write once, whole and in order",
 "With any number of concurrent writers and one reader, every non-empty message whose Write reported success without being dropped is passed to the reader exactly once, byte for byte as it was at the time of the call, and stays unchanged while the reader looks at it; messages of one writer arrive in the order written, and a message whose Write returned before another Write began arrives first. Nothing else is ever delivered.",
 ["schedules", "histories"], "all interleavings of writers and the reader, buffer sizes and message lengths",
 "the tests use one goroutine, buffers of size 1 and 2, and only count dropped messages",
 [DC],
 [("ticket and slot taken together by compare-and-swap; slot states empty/busy/ticket", DC)],
 ["write calls/results, dropped messages and delivered messages (unique ids)", "race detector reports"],
 "exactly-once/order monitor over recorded histories under a controlled random scheduler + race detector", "Held on thousands of controlled interleavings (distinct ones counted) and on race-detector runs.",
 [("locktab", "slot state: empty, busy or the ticket stored in it", DC), ("_len", "completed, unread messages", DC)])

prop("C33", "Decoupler drops only when full, never wedges, and hands over what it drops",
 "A non-empty Write is dropped only if the buffer was full at some moment during the call, and is never dropped when fewer than size messages are pending; a dropped (or empty) message is passed once and unchanged to the drop function, whose results Write returns; without a drop function it is discarded and Write reports it as written. When no write is in progress, Next delivers a message exactly when one is pending and otherwise returns false at once: no sequence of writes, drops and reads ever makes Write or Next wait forever.",
 ["schedules", "histories"], "all sequences and interleavings of writes, drops and reads, all buffer sizes",
 "the tests overfill buffers of size 1 and 2 and happen to drop an even number of messages, the one case in which the old ticket scheme recovered",
 [DC],
 [("pending count compared with the size when the slot is occupied", DC)],
 ["drop calls, Write results, Next results, statements executed per call"],
 MODEL + " + controlled random scheduler with a step bound (bounded progress)", "Exhaustive short sequential histories, controlled interleavings; non-termination is decided by a deterministic step bound under a fair scheduler.")

prop("C34", "Scoped close closes everything once, in order, whatever happens",
 "The scope helper runs the given function once and afterwards closes every closer exactly once per place in the list, in the order given, even if the function panics or exits the goroutine or earlier closers fail; it returns exactly the errors of the failing closers in that order, nil if there are none, and lets a panic of the function continue. A scope that is called again does all of this afresh.",
 ["fault_sequences", "inputs"], "all numbers of closers and all patterns of failing closers, with normal return, panic and goroutine exit",
 "the package has no tests at all",
 ["iox/usingx/using.go"],
 [("deferred loop over the closers", "iox/usingx/using.go")],
 ["close/function events and returned errors"],
 "exhaustive fault injection with an event-order monitor", "All failure patterns up to 6 closers with each exit kind, random longer ones.")

prop("C35", "Close manager closes everything registered and reports exactly the failures",
 "Closing a manager closes every closer registered before, exactly once per registration and in order of registration, even if some fail, and returns nil if none failed and otherwise an error that lists exactly their errors in that order (retrievable with AsErrs, also when wrapped). Registration from many goroutines loses and duplicates nothing and is free of data races, also on the default manager and while a Close is running.",
 ["fault_sequences", "schedules"], "all failure patterns and all interleavings of Append and Close",
 "the package has no tests at all",
 ["iox/managerx/closex/manager.go", "iox/managerx/closex/types.go", "iox/managerx/closex/default.go"],
 [("mutex around the list", "iox/managerx/closex/manager.go")],
 ["close events, returned errors", "race detector reports"],
 "fault injection with an event-order monitor + race detector", "All failure patterns up to 7 closers, concurrent registration runs.")

prop("C36", "Built-in numeric conversions equal the language's conversions",
 "For every pair of built-in integer and floating-point types, and between them and bool, the registered converter exists and returns exactly what the Go conversion between the two types returns (for float to integer: whenever the value is in range); true and false correspond to one and zero, and every non-zero number to true.",
 ["inputs"], "all ordered pairs of the 12 numeric types and bool, all values (exhaustive for 8 and 16 bit)",
 "the package has no tests at all",
 ["typex/convx/init.go", "typex/convx/converters.go"],
 [("generic converters instantiated per pair", "typex/convx/init.go")],
 ["return values of Into/IntoOr"],
 "independent conversion oracle (big-number arithmetic) over all type pairs", "Exhaustive over 8- and 16-bit sources for every pair, boundary and random values for the wider types.")

prop("C37", "Text conversions are exact and round-trip",
 "Every integer, float and bool converts to the text that strconv produces for it (decimal integers, shortest float notation without exponent, true/false), and converting that text back yields the same value, for every built-in type and value; strings convert to and from byte and rune slices as the language does, without sharing memory with the string. Decimal text in the range of the target type converts to exactly that number.",
 ["inputs"], "all values of all built-in types and all decimal strings",
 "the package has no tests at all",
 ["typex/convx/converters.go", "typex/convx/init.go"],
 [("strconv with base 10 and 64 bit", "typex/convx/converters.go")],
 ["return values of Into/IntoOr"],
 "round-trip and strconv oracle over generated values", "Exhaustive over 8- and 16-bit integers, boundary and random values beyond; float text is checked to parse back to the identical value.")

prop("C38", "Conversion registry maps each type pair to its latest converter, atomically",
 "Registering, unregistering and looking up converters affects exactly the given ordered pair of types, interface types and named types included: Exists and Into see the most recently registered converter for that pair and report absence (Into: zero value and false, IntoOr: the given default) when there is none. Concurrent registry operations appear atomic and are free of data races.",
 ["histories", "schedules"], "all operation sequences over many type pairs, all interleavings",
 "the package has no tests at all",
 ["typex/convx/convx.go"],
 [("two-level map keyed by static types under an RWMutex", "typex/convx/convx.go")],
 ["results of Exists/Into/IntoOr (converter version tags)", "race detector reports"],
 MODEL + " + linearizability checking (porcupine) + race detector", "Held on the executed sequential and concurrent histories.")

prop("C39", "Converters may use the registry themselves",
 "A converter may call Into, Exists, Register and Unregister while it runs, also when other goroutines are registering at the same time, and a converter that panics leaves the registry usable: no registry call ever deadlocks.",
 ["schedules"], "all nestings of registry calls inside converters and interleavings with writers",
 "the package has no tests at all",
 ["typex/convx/convx.go"],
 [("lock released before the converter runs", "typex/convx/convx.go")],
 ["completion of every call, decided by goroutine states"],
 "deadlock monitor over nested registry calls with concurrent writers", "Deadlock is decided from blocked goroutine states (nothing runnable), not from elapsed time alone.")

prop("C40", "Sorting permutes into the requested order; stable variants keep ties",
 "Every sorting function leaves a permutation of its input in the requested order (ascending, descending when reversed, or by the given comparison), the stable variants keep equal elements in their original order, and the IsSorted functions return true exactly for slices in that order, for all lengths and input patterns (NaN excluded). Sorting uses O(n log n) comparisons.",
 ["inputs"], "all slices, lengths, patterns (sorted, reversed, few distinct values, adversarial) and element types",
 "the package has no tests at all",
 ["algox/sortx/sortx.go"],
 [("delegation to pattern-defeating and stable sort with the right comparison", "algox/sortx/sortx.go")],
 ["slice contents and comparison callbacks"],
 "permutation/order/stability oracle with tagged elements and comparison counting", "Exhaustive for all small slices, random and patterned ones up to 20000 elements.")

prop("C41", "Binary search finds the first position of the target",
 "On a slice sorted by the comparison used, the search functions return the smallest position whose element is not less than the target (the length if there is none) and whether the element there equals it, using a logarithmic number of comparisons and without changing the slice.",
 ["inputs"], "all sorted slices (with duplicates), targets and element types",
 "the package has no tests at all",
 ["algox/searchx/searchx.go"],
 [("three-way comparison passed to binary search", "algox/searchx/searchx.go")],
 ["return values and comparison callbacks"],
 "linear-scan oracle over generated sorted slices", "Exhaustive for small sorted slices and all targets, random large ones.")

AES = ["cryptox/aesx/cbcx.go", "cryptox/aesx/ctrx.go", "cryptox/aesx/gcmx.go"]
prop("C42", "Decryption inverts encryption in every mode and stays compatible",
 "For every key (any length) and message (for CBC: whole 16-byte blocks), decrypting what was encrypted with the same key returns exactly the message, in CBC, CTR and GCM. The format is fixed: random IV or nonce followed by the AES-256 ciphertext under the SHA-256 of the key, so data interoperates with an independent implementation in both directions and with data stored by earlier versions; inputs are never modified and results share no memory with them.",
 ["inputs"], "all messages, lengths and keys",
 "the package has no tests at all",
 AES,
 [("IV/nonce prepended, key hashed with SHA-256", "cryptox/aesx/gcmx.go")],
 ["ciphertexts and plaintexts"],
 "differential oracle (independent implementation, stored vectors) over generated inputs", "All lengths 0..300 plus larger ones, many keys; the reference builds CBC and CTR from the raw block cipher.")

prop("C43", "GCM decryption rejects everything that was not encrypted with the key",
 "Decrypting in GCM mode returns a message only if the input is an unmodified result of encryption under the same key: any change, truncation or extension of the ciphertext, nonce or tag, and any other key, yields an error and no data.",
 ["inputs", "fault_sequences"], "all single-bit changes, truncations, extensions, splices and wrong keys",
 "the package has no tests at all",
 ["cryptox/aesx/gcmx.go"],
 [("authenticated decryption with the full 16-byte tag", "cryptox/aesx/gcmx.go")],
 ["returned error and data for tampered input"],
 "exhaustive tampering injection with an acceptance monitor", "Every single-bit flip and truncation of ciphertexts of many lengths, plus random multi-byte changes and splices.")

prop("C44", "Unusable input to encryption and decryption is reported, not fatal",
 "No input makes the encryption, decryption, password-hash verification or bcrypt functions panic: ciphertexts too short for their IV or nonce, CBC data that is not a whole number of blocks, and arbitrary bytes as stored hashes are answered with an error and no data.",
 ["inputs"], "all byte strings as ciphertext, key, stored hash and base64 text",
 "no test passes malformed input to any of these functions",
 AES + ["cryptox/bcryptx/bcryptx.go", "cryptox/passhashx/passhash.go", "cryptox/passhashx/internal/passhash.vstruct.go"],
 [("length checks before slicing, structure validation before access", "cryptox/aesx/cbcx.go")],
 ["panics and returned errors"],
 "structure-aware mutation fuzzing with a panic/acceptance monitor", "All lengths 0..100 exhaustively for each decryptor, thousands of mutated stored hashes.")

prop("C45", "Every encryption and hash uses fresh randomness",
 "Encrypting or hashing the same input again, from any goroutine, uses a new random IV, nonce or salt of full length: no value repeats, no byte position is constant, and results of equal inputs differ. This holds when the source of randomness hands out few bytes at a time; when it fails for good, no call succeeds.",
 ["schedules", "histories"], "all repeated and concurrent calls",
 "no test encrypts or hashes the same input twice",
 AES + ["cryptox/passhashx/passhash.go", "cryptox/bcryptx/bcryptx.go"],
 [("crypto/rand for every IV, nonce and salt", "cryptox/aesx/cbcx.go")],
 ["IV, nonce and salt bytes of many calls"],
 "uniqueness and byte-spread monitor over many (concurrent) calls + race detector", "Tens of thousands of IVs and nonces, hundreds of salts per run; statistical bounds have a false-alarm probability below 1e-12.")

prop("C46", "bcrypt verification accepts exactly the hashed password",
 "Verification against a stored bcrypt hash succeeds exactly for the password that was hashed and fails with an error for every other one, including ones that only share a long prefix or differ only in NUL bytes (except where bcrypt by its definition makes the same 72-byte key of two passwords); hashing a password of more than 72 bytes is refused and such a password never verifies. Hashes have at least the default cost and hashes stored by earlier versions keep verifying.",
 ["inputs"], "all passwords (lengths 0 to 72 and beyond, near misses), stored hashes",
 "the package has no tests at all",
 ["cryptox/bcryptx/bcryptx.go"],
 [("72-byte limit on both sides, library comparison", "cryptox/bcryptx/bcryptx.go")],
 ["verification results"],
 "acceptance oracle over password/near-miss pairs and stored vectors", "Around two hundred hash/verify pairs per quick run (each costs about 50 ms), boundary lengths always included.")

prop("C47", "Password verification accepts exactly the hashed password",
 "For every password and security level, a password hash (raw or base64) verifies with the password it was made from and reports a mismatch for every other password; changing any byte of the stored salt, hash or parameters, or truncating it, makes verification fail. Unknown security levels are refused, and the two encodings are interchangeable.",
 ["inputs", "fault_sequences"], "all passwords, levels, tampered stored hashes",
 "the tests verify one password with its own hash; a mismatch is never tested",
 ["cryptox/passhashx/passhash.go", "cryptox/passhashx/alg.go", "cryptox/passhashx/internal/passhash.vstruct.go"],
 [("Argon2id with stored parameters, constant-time comparison of the full hash", "cryptox/passhashx/passhash.go")],
 ["verification results"],
 "acceptance oracle over near misses and exhaustive byte tampering", "Every byte of a stored hash tampered on the cheapest level, boundary passwords on all levels.")

prop("C48", "Stored password hashes stay verifiable and as strong as their level says",
 "A stored hash is one parameter byte, two little-endian 64-bit end offsets, a 16-byte salt and a 32-byte Argon2id hash, and each security level always uses its own fixed cost parameters; so hashes stored by earlier versions or computed by an independent Argon2id keep verifying, and new hashes verify with such an implementation.",
 ["inputs", "histories"], "all levels, passwords and salts, hashes from earlier versions",
 "the tests only check that the current code agrees with itself, so a changed cost parameter or layout passes",
 ["cryptox/passhashx/alg.go", "cryptox/passhashx/passhash.go", "cryptox/passhashx/internal/passhash.vstruct.go", "cryptox/passhashx/internal/passhash.vstruct"],
 [("per-level Argon2id constants and generated (de)serialisation", "cryptox/passhashx/alg.go")],
 ["encoded bytes, verification of stored vectors"],
 "differential oracle (direct Argon2id, stored vectors, independent encoder)", "All four levels, stored vectors and independently built hashes in both directions.")

prop("C49", "Tidy and update tools run once in every directory of the tree",
 "Started in a directory, the tidy (update) tool runs the go command with 'mod tidy' ('get -u') exactly once in that directory and in every directory below it that it may enter, with that directory as its working directory, and never in or below a directory named vendor or .git; a failing go command does not stop the walk.",
 ["inputs", "fault_sequences"], "all directory trees and all patterns of failing commands",
 "the commands have no tests at all",
 ["cmd/autotidy/autotidy.go", "cmd/autoupdate/autoupdate.go"],
 [("directory walk that changes into each directory and back", "cmd/autotidy/autotidy.go")],
 ["log written by a stand-in go command (working directory and arguments)"],
 "event-log monitor with a recording stand-in for the go command, generated trees", "Generated scratch trees only; the go command is a stand-in that records and sometimes fails.")

prop("C50", "Reading one object from several goroutines is safe",
 "As long as nobody changes it, one object may be read from any number of goroutines at once without further synchronisation: lookups, listings, separate iterators, Range/Iterate/Each and size queries of all containers, Peek operations, bit tests, Split/Batch/Join/Copy/IndexOf on one slice, Match on one option or result, the texts of one error, and one slice given to searches, order tests, intersections, text conversions, encryption, decryption, password hashing and verification by several goroutines. Every reader sees what a lone reader would see, and the reads are free of data races (a read never writes to the object or to the arguments, spare capacity included).",
 ["schedules"], "all sets of concurrent readers, all read operations, all contents, including the first reads after a change",
 "no test reads an object from two goroutines, and a read that caches, sorts or pads in place gives the right answer to a lone reader",
 [SKL, "dsx/mapx/ordmapx/ordmapx.go", "dsx/mapx/syncmapx/syncmapx.go", "dsx/linkedx/listx/listx.go", "dsx/linkedx/dequex/dequex.go", "dsx/slicex/slicex.go", "dsx/slicex/queuex/queuex.go", "algox/searchx/searchx.go", "timex/intersectionx/intersectionx.go", "cryptox/aesx/cbcx.go", "cryptox/bcryptx/bcryptx.go", "cryptox/passhashx/passhash.go", "typex/convx/converters.go"],
 [("searches keep their path in a local array; an iterator keeps its own position", SKL), ("edges are sorted in a slice of its own", "timex/intersectionx/intersectionx.go")],
 ["race detector reports", "results of every reader against those of a lone reader of an identical object"],
 "race detector over unsynchronised concurrent readers + twin-object result monitor",
 "Held on the executed runs; objects are built identically twice and the second one is read alone to know the expected results.")

prop("C51", "Steady use accumulates neither memory nor goroutines",
 "Using any component over and over in a way that keeps bringing it back to the same size (a container whose elements come and go, a decoupler that is written and read or mostly full, a goroutine pool under bursts or pools that are created and stopped, a sleeper that is woken again and again, converters registered and withdrawn, managers, conversions, encryptions, hashes and verifications of ever new values) does not make the live heap or the number of goroutines grow with the number of rounds.",
 ["histories"], "all long-running uses of bounded size",
 "tests run each component for a moment and look at results only",
 [SKL, "dsx/linkedx/dequex/dequex.go", "dsx/linkedx/queuex/queuex.go", "dsx/slicex/slicex.go", "iox/decouplex/decouple.go", "poolx/gopoolx/timedpool.go", "timex/sleepx/sleepx.go", "typex/convx/convx.go", "cryptox/passhashx/passhash.go"],
 [("nodes are unlinked on removal and recycled through pools the collector may empty", "dsx/linkedx/dequex/dequex.go"), ("idle workers end", "poolx/gopoolx/timedpool.go")],
 ["live heap after collections", "number of goroutines"],
 "resource monitor: live heap and goroutines sampled between equal windows of steady use",
 "Growth must be far below one word per step; a leak slower than that, or one that only unusual use triggers, is not seen.")

prop("C52", "A caller's function that fails does no damage",
 "When a function supplied by the caller panics or ends its goroutine (runtime.Goexit) at any of its calls - a visitor of Range, Iterate, Each, ForEach, IndexOf or Contains, a comparison, a converter, a decoupler's view or drop function, a closer, an object pool's constructor, a critical section of the pointer lock, or (ending its goroutine) a goroutine-pool handler - the failure reaches whoever made the call unchanged, no lock or worker slot stays taken, and the object goes on working with what it held: containers and the registry keep their contents, a sorted slice still holds the same elements, a decoupler keeps all other messages and its capacity, registered closers stay registered.",
 ["fault_sequences", "inputs"], "all callbacks, all points at which they can fail, all ways to fail, all contents",
 "no test lets a callback fail",
 ["syncx/lockx/lockx.go", "typex/convx/convx.go", "iox/decouplex/decouple.go", "iox/managerx/closex/manager.go", "poolx/gopoolx/timedpool.go", "dsx/mapx/ordmapx/ordmapx.go", "algox/sortx/sortx.go", "syncx/syncpoolx/syncpoolx.go"],
 [("no registry lock is held while a converter runs", "typex/convx/convx.go"), ("deferred unlocking", "syncx/lockx/lockx.go"), ("deferred return of the worker slot", "poolx/gopoolx/timedpool.go")],
 ["panic value at the caller", "behaviour of the object afterwards"],
 "fault injection into callbacks with a reference-model monitor of the object afterwards",
 "Held for the injected faults; what a failing lazy constructor or a failing Filter predicate leaves behind is not demanded, and a panicking pool handler ends the process as in any goroutine.")

prop("C53", "Arguments are only read, and results belong to the caller",
 "Data a caller passes in to be read is never written, not even for a moment or behind its length: messages, ciphertexts, keys, passwords and stored hashes (encryption, bcrypt, passhashx), texts, byte and rune slices to convert, slices to search or to test for order, intervals, values and piece lengths for slice editing, positions for bit sets, messages written to a decoupler; sorting writes nothing outside the elements of its slice. Nothing of it is kept either: after the call the caller may overwrite or free it without changing an earlier result or stored message. What comes back as new data - ciphertexts, plaintexts, hashes, converted texts, byte and rune slices, slice copies, and the key, value and map listings of the maps - shares memory with no argument, no other result and no object: overwriting one (spare capacity included) changes nothing else and it never changes by itself. Not new data, by design: conversions to the same type, slicex.New and the pieces of Split and Batch; element values are copied by assignment.",
 ["inputs", "histories"], "all argument lengths and positions in memory, all orders of calls, overwriting and later use of results",
 "tests look at results right after the call and never at the arguments or at earlier results",
 ["cryptox/aesx/cbcx.go", "cryptox/aesx/ctrx.go", "cryptox/aesx/gcmx.go", "cryptox/bcryptx/bcryptx.go", "cryptox/passhashx/passhash.go", "typex/convx/converters.go", "dsx/slicex/slicex.go", "iox/decouplex/decouple.go", "timex/intersectionx/intersectionx.go", "algox/sortx/sortx.go", "algox/searchx/searchx.go", "dsx/mapx/sklmapx/sklmapx.go", "dsx/mapx/ordmapx/ordmapx.go", "dsx/mapx/syncmapx/syncmapx.go"],
 [("messages are copied into the decoupler's own buffers", "iox/decouplex/decouple.go"), ("conversions copy", "typex/convx/converters.go"), ("output buffers are allocated per call", "cryptox/aesx/gcmx.go")],
 ["memory accesses to arguments during and after the call", "contents of earlier results"],
 "memory-protection monitor (arguments read-only during the call, inaccessible afterwards, guard pages around them) and overwritten results",
 "Held for the executed calls; arguments that contain pointers (closer lists, function lists) cannot be sealed.")

prop("C54", "The guarantees do not depend on the machine",
 "What the other properties promise holds unchanged in a program built for a 32-bit processor (GOARCH=386) and on a machine with a single processor: the module builds there, results are the same for every input such a machine can hold (instants after 2038, 64-bit integers, offsets and limits beyond 32 bits, ciphertexts and stored hashes made on another machine), nothing crashes because a 64-bit atomic is misaligned or a number does not fit a machine word, and no call waits for somebody who needs its processor.",
 ["inputs", "histories", "schedules"], "all inputs, histories and schedules of the other properties, on 32-bit and single-processor machines",
 "the tests run on the developer's 64-bit multi-core machine only",
 ["iox/decouplex/decouple.go", "poolx/gopoolx/timedpool.go", "timex/truncatex/truncatex.go", "timex/intersectionx/intersectionx.go", "typex/convx/converters.go", "dsx/mapx/sklmapx/sklmapx.go", "dsx/slicex/slicex.go", "dsx/setx/bitsetx/bitsetx.go", "cryptox/passhashx/passhash.go", "cryptox/aesx/ctrx.go"],
 [("64-bit atomics at 64-bit aligned offsets", "iox/decouplex/decouple.go"), ("instants and offsets are int64 throughout", "timex/truncatex/truncatex.go"), ("waiting loops yield", "iox/decouplex/decouple.go")],
 ["the monitors of the other properties, inside 32-bit processes and processes confined to one processor"],
 "the monitors of the other properties in 386 builds and confined to one processor",
 "Held for the executed workloads; of 32-bit machines only 386 can run here (not ARM), big-endian machines cannot, and the race detector does not exist for 32-bit ones.")

prop("C55", "A caller's function may use the object that calls it",
 "While a function supplied by the caller runs - a visitor of Range, Iterate, Each, ForEach, IndexOf or Contains, a comparison, a filter, a converter, a closer or the function of a scope, a decoupler's view or drop function, a goroutine-pool handler, the constructor of an object pool or of a lazy value, a section of the pointer lock, a match or folding function, an element's String method - it may use the object that called it and others of its kind, and wait for other goroutines that do: nothing deadlocks or loops, the inner calls give what they give elsewhere, and the outer call goes on unharmed. A closer may register further closers, a drop function may read a message to make room and write again, a view may write, visitors may walk the same container again. (Not covered: what waits for itself by definition - a lazy value that reads itself, a section on its own cell, a closer that closes its own manager - and changing a slice while it is sorted or filtered.)",
 ["histories", "schedules", "inputs"], "all nests of calls and all ways of waiting for other goroutines inside them",
 "no test makes a call from inside a callback",
 ["iox/managerx/closex/manager.go", "iox/usingx/using.go", "iox/decouplex/decouple.go", "dsx/mapx/ordmapx/ordmapx.go", SKL, "dsx/linkedx/listx/listx.go", "dsx/slicex/slicex.go", "algox/sortx/sortx.go", "typex/convx/convx.go", "poolx/gopoolx/timedpool.go", "syncx/syncpoolx/syncpoolx.go", "functionalx/lazyx/lazy.go"],
 [("no lock is held and no shared scratch space is in use while a caller's function runs", "iox/managerx/closex/manager.go"), ("a walk keeps its place in a cursor of its own", "dsx/mapx/ordmapx/ordmapx.go")],
 ["results of the inner and outer calls", "completion of every call, decided by goroutine states and statement counts"],
 "recursive models of randomly built nests of calls, with a watchdog on goroutine states",
 "Held on the executed nests; " + STEPS + ".")

prop("C56", "The work of a call does not grow with what it is not concerned with",
 "A call that concerns one element takes an amount of work that does not grow with the rest of what its object holds (over many calls, growing included): Get, Len, Set and Del of the ordered map (Set and Del: logarithmic) and the start of its Range; Get, Has, Set, Delete and Size of the goroutine-safe map; Push, Pop, Get, Set, DeleteReplace, Slice and Clear of the extended slice, and Split and Batch beyond the number of pieces; looking at the ends, the length or the first element of any container, and a walk stopped at the first element; Write (accepted, dropped or empty) and Next of the decoupler, whatever its size and fill; registering with a close manager; Run and Workers of the goroutine pool, however many workers are idle or busy; Get and Put of an object pool; and every call of the conversion registry, however many types are registered.",
 ["inputs", "histories"], "all sizes and all ways of growing to them",
 "no test holds more than a few elements or measures work",
 ["dsx/mapx/ordmapx/ordmapx.go", "dsx/mapx/syncmapx/syncmapx.go", "dsx/slicex/slicex.go", "iox/decouplex/decouple.go", "iox/managerx/closex/manager.go", GP, "typex/convx/convx.go", "dsx/linkedx/listx/listx.go"],
 [("ordered map: a hash table beside a skip list", "dsx/mapx/ordmapx/ordmapx.go"), ("idle workers taken from the end of a list", GP), ("slot of a message computed from its number", "iox/decouplex/decouple.go")],
 ["executed statements, allocated bytes and time per call at growing sizes"],
 "cost monitor (statement counters inserted at build time, allocation meter, clock) at growing sizes", "Averages at three sizes up to 100 000 (thorough: 1 000 000); work inside the Go runtime is seen by the allocation and time meters only, the latter with a wide margin.")

prop("C57", "Callers can tell failures apart by their errors",
 "Every failing call reports the error value that stands for its cause (seen by errors.Is) and none that stands for another: passhashx an unknown level (ErrInvalidSecurityLevel), a malformed stored hash (ErrInvalidPassHash), an unknown algorithm (ErrUnknownAlgorithm), a wrong password or altered hash (ErrHashMismatch), and text that is not base64 by none of these but at most ErrInvalidPassHash; bcryptx a password of more than 72 bytes (ErrPasswordTooLong) and otherwise bcrypt's own errors; aesx data too short or not whole blocks (ErrInvalidCiphertext, when encrypting ErrNotFullBlocks); the goroutine pool's constructor the argument that is invalid. Where several causes apply any of them is right; a failing call returns no data or pool with its error, a succeeding one no error. The text of a close manager's error contains the text of every failure in order, and AsErrs finds a list exactly in errors that are or wrap one.",
 ["inputs"], "all arguments, stored hashes, levels and combinations of invalid arguments",
 "the tests compare with one or two errors, for one input each; most error paths are never taken",
 ["cryptox/passhashx/passhash.go", "cryptox/bcryptx/bcryptx.go", "cryptox/aesx/cbcx.go", "cryptox/aesx/gcmx.go", GP, "iox/managerx/closex/types.go"],
 [("one package-level error value per cause", "cryptox/passhashx/passhash.go"), ("arguments checked one after another before anything is made", GP)],
 ["returned errors, seen by errors.Is and errors.As"],
 "cause-to-error oracle over generated failing calls", "Exhaustive over security levels and combinations of constructor arguments, generated stored hashes, passwords and failures.")

prop("C58", "Shuffle is fair",
 "Shuffle puts the elements of a slice, of any length and element type, with or without spare capacity, into every order with the same probability, independently of the order they had, of earlier shuffles of the same or other slices, of slices other goroutines shuffle at the same time, and of other runs of the program; elements may stay where they are, and no element is favoured for any position.",
 ["inputs", "schedules", "histories"], "all lengths, element types and sequences of shuffles",
 "no test looks at the order Shuffle produces, let alone at its distribution",
 ["dsx/slicex/slicex.go"],
 [("math/rand's Shuffle with the shared generator", "dsx/slicex/slicex.go")],
 ["orders of slices after Shuffle"],
 "statistical monitor over recorded orders (chi-square over all orders of up to 6 elements, positions, parity, neighbours, repeats) + race detector", "Sample sizes bound the bias that is seen: a few per cent for single orders, less for positions; bounds at 7.5 standard deviations.")

prop("C59", "What has left an object is let go",
 "An object that lives on keeps alive only what it holds now, and at most a constant number (two hundred) of things it held before, however many there were: elements popped, dequeued, removed, replaced or cleared from the deque, the linked list, queue and stack, the slice-backed stack, the ring queue and the three maps (keys as well as values, whatever their type); tasks the goroutine pool has handled or refused, and what the handlers of stopped pools use; objects lying in an object pool; converters that were replaced or withdrawn; arguments and results of encryption, conversion and decoupler calls. An emptied deque, linked list, queue, stack or skip-list map also gives back the room itself. (Not covered: the extended slice and the slice-backed list, which are plain Go slices and keep what lies behind their length, and objects with iterators standing in them.)",
 ["histories"], "all sizes, element types and histories of growing and shrinking",
 "no test asks what the garbage collector can free",
 ["dsx/linkedx/dequex/dequex.go", "dsx/slicex/stackx/stackx.go", "dsx/slicex/queuex/queuex.go", "dsx/mapx/sklmapx/sklmapx.go", GP, "syncx/syncpoolx/syncpoolx.go"],
 [("nodes go back to a pool the collector empties", "dsx/linkedx/dequex/dequex.go"), ("vacated slots are zeroed", "dsx/slicex/stackx/stackx.go")],
 ["elements alive after collections (weak pointers)", "live heap bytes"],
 "weak-pointer liveness monitor over random histories against the set of held elements", "Histories up to 3000 elements with four waves; memory of emptied objects at 100 000 (thorough 1 000 000).")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        if not os.path.isdir(os.path.join(ROOT, "harness", "checks", p["id"].lower())):
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
                           thorough_cmd="python3 run.py %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique="runtime monitoring: " + p["_technique"], level="exploration", level_note=p["_note"]))
    man = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=[],
               notes="No hooks are committed to /repo: run.py instruments a build-time overlay of the current /repo sources (harness/cmd/instr), so /repo itself is never changed. Findings and repairs: known_findings.jsonl; design: DESIGN.md.")
    for p in P:
        if p["id"] not in {c["property"] for c in checks}:
            man["not_applicable"].append(dict(property=p["id"], reason="check not built yet (work in progress)"))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")

main()
