// Source of truth for properties.jsonl and MANIFEST.json.  node tools/props.mjs rewrites both.
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
const root = path.dirname(path.dirname(fileURLToPath(import.meta.url)));

const P = [];
const NA = [];
const prop = (id, title, statement, over, quant, why, files, mechanism, observe_at, level_note, extra = {}) =>
    P.push({ id, title, statement, over, quant, why, files, mechanism, observe_at, level_note, ...extra });
const na = (id, title, statement, quant, why, files, mechanism, reason) =>
    NA.push({ id, title, statement, over: ['inputs'], quant, why, files, mechanism, reason, observe_at: 'return value' });
const F = p => `packages/function/src/${p}`;
const S = p => `packages/fs/src/${p}`;
const R = p => `packages/request/src/${p}`;

/* ------------------------------------------------------------------ function */
prop('F01', 'The task pool bounds concurrency, starts each task once and keeps order',
    'Running a list of tasks through the parallel runner starts every task exactly once and in list order, never has more tasks unfinished than the configured concurrency, and starts the next task as soon as a slot is free without waiting for unrelated tasks. The call resolves only after every task finished, with each task\'s own result at its own index, and the start and data callbacks run exactly once per task with that task\'s index.',
    ['schedules', 'inputs', 'configurations'], 'all task durations, completion orders, list sizes and concurrency limits',
    'The tests use a few fixed delays; completion order and limits are not varied.',
    [F('control/parallel.ts'), F('promise/toPromise.ts')],
    [{ name: 'parallel', where: F('control/parallel.ts') }], 'start/finish events of the tasks, callbacks and the returned promise',
    'Seeded search over task latencies, completion orders, limits and task kinds against an exact reference model of the pool.');
prop('F02', 'The task pool\'s failure handling honours its retry budget and loses no error',
    'A failing pool task is attempted at most one time plus the retry budget, the retry callback is told about each failed retry and can end the retrying, and a task that succeeds within its budget contributes its value. A task whose budget is exhausted either gets the value its error handler returned (handler run exactly once for it, with its index) or, without a handler, makes the whole call reject with an error that identifies the failed index. No task failure ever surfaces as an unhandled rejection.',
    ['schedules', 'inputs', 'fault_sequences'], 'all failure patterns, failure times and retry settings',
    'Tests reject at one or two fixed places and never overlap several failures.',
    [F('control/parallel.ts'), F('catch/retry.ts')],
    [{ name: 'parallel', where: F('control/parallel.ts') }, { name: 'retry', where: F('catch/retry.ts') }], 'attempt log, callback log, settled result, process-level unhandled rejections',
    'Seeded search over per-attempt failure patterns and latencies, model of attempts per task.');
prop('F03', 'Retry runs attempts one at a time, within budget, and waits in between',
    'Retrying a task runs its attempts strictly one after another, stops at the first success and returns that value, and never makes more than one plus the maximum number of attempts. Between two attempts at least the configured wait elapses (a wait range is honoured inclusively), and a retry callback that returns true ends retrying at once. On exhaustion the call rejects with all attempt errors in order, or yields the error handler\'s value when a handler is given (also after the retry callback ended it).',
    ['schedules', 'inputs', 'fault_sequences'], 'all failure patterns, attempt durations, waits and clock behaviours',
    'Tests check three fixed failure patterns with a mocked timer.',
    [F('catch/retry.ts'), F('delay/delay.ts')],
    [{ name: 'retry', where: F('catch/retry.ts') }], 'attempt start/end times on the virtual clock, callbacks and the settled result',
    'Seeded search with late timers and wall-clock jumps against a reference model.');
prop('F04', 'Async memoisation is single-flight, never caches failures, can be invalidated',
    'While a computation for a key is in flight, concurrent calls with that key share it and get its outcome; a completed value is served without recomputing until it expires or is invalidated, and keys never mix. A failed computation is reported to every caller sharing it and is never cached, so the next call recomputes. After a key is deleted or everything is cleared, no later call is served a value whose computation started before the invalidation. Results are kept in the container the user chose, offered as the cache property; dropping one there makes the next call compute again.',
    ['schedules', 'histories', 'fault_sequences'], 'all interleavings of calls, completions, failures, deletes and clears',
    'The existing tests need jsdom and do not interleave invalidation with in-flight work.',
    [F('cache/memoizeWithAsync.ts')],
    [{ name: 'memoizeWithAsync', where: F('cache/memoizeWithAsync.ts') }], 'calls of the wrapped function, results of every caller',
    'Seeded histories of calls/deletes/clears with random computation latencies and failures, checked against a cache model.');
prop('F05', 'Memoised values are served until, and never after, their time-to-live',
    'A memoised function (synchronous or asynchronous) with a time-to-live serves a value without recomputing while the clock reads less than completion time plus that time-to-live, and recomputes once the clock reads more than it. Without a time-to-live a value never expires, and a call that threw leaves nothing cached. The container the user chose, offered as the cache property, holds the values.',
    ['schedules', 'histories', 'inputs'], 'all call times, computation durations and time-to-live values',
    'Expiry depends on the clock; the tests that exist use one fixed timeout.',
    [F('cache/memoizeWith.ts'), F('cache/memoizeWithAsync.ts')],
    [{ name: 'memoizeWith', where: F('cache/memoizeWith.ts') }, { name: 'memoizeWithAsync', where: F('cache/memoizeWithAsync.ts') }], 'calls of the wrapped function against the virtual clock',
    'Seeded call histories on the virtual clock, biased to expiry boundaries.');
prop('F06', 'The batch collector conserves items: each one is delivered exactly once',
    'Every promise pushed into a batch collector before its batch closes is part of exactly one delivered batch, in push order, even when further items are pushed while an earlier batch is still resolving; in accumulate mode each batch contains all items so far instead. With a size limit a batch closes exactly when the limit is reached, with a manual flag exactly on that call, a non-restarting collector delivers only one batch, and a rejected item rejects its batch only.',
    ['schedules', 'histories'], 'all interleavings of pushes and item completions, all modes',
    'Tests push sequentially and never while a batch is pending.',
    [F('control/collectItems.ts')],
    [{ name: 'collectItems', where: F('control/collectItems.ts') }], 'values delivered by each push',
    'Seeded interleavings of pushes and completions checked against a collector model.');
prop('F07', 'A timed call yields exactly one outcome and leaves no timer behind',
    'A call with a timeout settles with the callable\'s own outcome when that comes before the deadline, and otherwise at the deadline with the fallback\'s outcome; it never waits past the deadline for the callable. The fallback is run only if the deadline passed first, at most once, and with the caller\'s arguments. Once settled by the callable (success or failure) no timer stays armed.',
    ['schedules', 'inputs', 'fault_sequences'], 'all callable and fallback latencies and failures relative to the deadline, late timers',
    'Tests use a few fixed delays; failure before the deadline with a side-effecting fallback is not tested.',
    [F('timeout/timeoutOr.ts')],
    [{ name: 'timeoutOr', where: F('timeout/timeoutOr.ts') }], 'settled outcome, call log, armed timers',
    'Seeded latencies around the deadline on a virtual clock.');
prop('F08', 'A cancellable execution settles with whichever of task or cancel came first',
    'A cancellable execution settles with the task\'s outcome if that settles before cancel is invoked, and otherwise with the outcome of the cancel payload (a value, a promise, or a function called with the caller\'s arguments). The first cancel wins and later cancels or the task\'s late outcome change nothing, nor do they cause an unhandled rejection. The task runs once, with the caller\'s arguments.',
    ['schedules', 'fault_sequences'], 'all orders of task completion, failure and one or more cancels',
    'Tests cancel at one fixed time.',
    [F('control/cancelExec.ts')],
    [{ name: 'cancelExec', where: F('control/cancelExec.ts') }], 'settled outcome and call log',
    'Seeded orders of completion and cancels against a first-wins model.');
prop('F09', 'Delays never end early, whatever the clock does, and pass results through',
    'Delays, delayed runs and minimum-duration returns never complete before the requested duration, given as number, numeric string, function, inclusive range or list of choices, has elapsed, and with punctual timers and a steady clock they complete exactly then (the synchronous, busy-waiting delay counts on the wall clock). A delayed task runs once, after the delay, with its arguments, and its value or error is passed on; a minimum-duration return waits for the later of task and duration on success and on failure. A drawn duration can take every value of the range, both ends included, and never one outside.',
    ['schedules', 'inputs'], 'all durations, random draws, late timers and wall-clock jumps',
    'No tests for most of the delay functions; real timers cannot explore late firing or clock jumps.',
    [F('delay/delay.ts'), F('delay/delayRun.ts'), F('delay/delayReturn.ts'), F('delay/delaySync.ts'), F('timeout/setTimeout.ts'), F('timeout/timeoutMsResolve.ts'), F('timeout/constants/evaluateInt.ts'), 'packages/process/src/sleep.ts'],
    [{ name: 'delay family', where: F('delay/delay.ts') }, { name: 'duration evaluation', where: F('timeout/constants/evaluateInt.ts') }], 'virtual elapsed time between call and completion',
    'Seeded durations, task latencies, RNG draws, stalls and clock jumps.');
prop('F10', 'Error-capturing wrappers run the task once and never lose or invent an outcome',
    'Whatever a task does (returns, throws synchronously, resolves or rejects later), the error-pair wrapper never rejects and reports exactly the value or the error, the swallow wrapper never rejects, the fallback wrapper yields the task\'s value or else the fallback\'s outcome for that error, and conditional selection runs exactly the chosen branch. Each task, condition, fallback or branch runs at most once with the caller\'s arguments, the unchosen one never, and no unhandled rejection remains.',
    ['schedules', 'inputs', 'fault_sequences'], 'all combinations of sync/async outcomes, settle times and argument lists',
    'Tests cover a handful of immediate outcomes.',
    [F('control/padding.ts'), F('catch/ifThrow.ts'), F('catch/noCatch.ts'), F('catch/tryCatch.ts'), F('select/select.ts'), F('promise/executeToPromise.ts'), F('promise/toPromise.ts')],
    [{ name: 'wrappers', where: F('promise/executeToPromise.ts') }], 'settled outcome, call log, unhandled rejections',
    'Seeded settle times and outcome kinds against a direct model.');
prop('F11', 'Next-tick callbacks run asynchronously, once each, in order, on any platform',
    'A callback scheduled for the next tick never runs synchronously, runs exactly once, and callbacks run in the order they were scheduled, including callbacks scheduled from inside other callbacks and when a callback throws. This holds whichever primitive the environment offers, and no error other than a callback\'s own ever surfaces.',
    ['schedules', 'configurations', 'histories'], 'all nesting patterns, throwing callbacks and environments (tick queue, microtasks, mutation observer, immediates, timers)',
    'Tests run in one environment with one pattern.',
    [F('timeout/nextTick.ts')],
    [{ name: 'nextTick', where: F('timeout/nextTick.ts') }], 'order of callback execution',
    'Seeded nested schedules in five simulated environments.');
prop('F12', 'Cancel-all stops every pending numeric timer and only those',
    'In an environment whose timers are identified by increasing numbers, cancelling all timeouts prevents every timeout scheduled before the call from running and leaves none pending, while timeouts scheduled afterwards still run.',
    ['schedules', 'histories'], 'all interleavings of scheduling, firing and cancel-all',
    'Tests need fake timers and cover one pattern.',
    [F('timeout/clearTimeoutAll.ts')],
    [{ name: 'clearTimeoutAll', where: F('timeout/clearTimeoutAll.ts') }], 'which timers fire',
    'Seeded timer histories in a simulated browser timer environment.');
prop('F13', 'Call wrappers keep their promise in every history of calls and failures',
    'However calls are interleaved and whichever of them throw: a run-once wrapper completes its function once and then always returns that result (a call that threw does not count); a first-N wrapper runs its function on exactly the first N calls, re-entrant ones included; an after-N wrapper never before the Nth call and on each call from then on. The before/after family runs both functions once, in order, with the documented arguments and result, and never the second when the first threw; a composition runs left to right; a curried function takes its arguments in any grouping without partial applications influencing each other; a toggle alternates between exactly its two values; a singleton class has one instance per class (a subclass its own); a deferred promise keeps its first settlement.',
    ['histories', 'fault_sequences', 'inputs'], 'all sequences of calls by interleaved callers, with throwing, re-entrant and asynchronous functions',
    'The tests call each wrapper a few times in one fixed order with functions that do not fail.',
    [F('limit/once.ts'), F('limit/runOnlyNTimes.ts'), F('limit/runAfterTimes.ts'), F('chain'), F('currying.ts'), F('select/toggle.ts'), F('class/singletonClass.ts'), F('control/deferred.ts'), F('bind.ts')],
    [{ name: 'once', where: F('limit/once.ts') }, { name: 'currying', where: F('currying.ts') }, { name: 'singletonClass', where: F('class/singletonClass.ts') }], 'runs of the wrapped functions, results and errors of the calls',
    'Seeded call histories with injected failures and re-entrant calls against a small model of each wrapper.');

prop('F14', 'A logged wait shows its duration, whatever the time zone and the clock',
    'Logging how long a wait takes writes exactly one line: the template with every placeholder replaced by one and the same text, and that text, read as days, hours, minutes, seconds and milliseconds, is exactly the duration, whatever time zone the process is in, however that zone\'s rules changed, whether the zone changed since the module was loaded and wherever the clock is. A duration no timer can wait for is refused and nothing is logged.',
    ['histories', 'inputs'], 'all durations and templates, all time zones and changes of the zone, all clock positions',
    'There is no test that runs in another time zone than the machine\'s own or changes it.',
    [F('timeout/timeoutLog.ts')],
    [{ name: 'timeoutLog', where: F('timeout/timeoutLog.ts') }], 'the lines logged, read back as durations',
    'Seeded histories of waits with zone changes and clock jumps injected; the logged text is read back as a duration.');

/* ------------------------------------------------------------------ array */
prop('A01', 'Serial async iteration visits one element at a time, in direction order',
    'Serial asynchronous iteration and mapping call the callback once per element with element, index and array, in forward (or, for the right-hand variants, backward) order, and never start one callback before the previous one settled. Returning true stops the each-variants early; a failure stops the iteration and rejects with that error; mapping yields the results in visiting order.',
    ['schedules', 'inputs', 'fault_sequences'], 'all callback latencies, outcomes and stop positions',
    'Tests use fixed small arrays with immediate callbacks.',
    ['packages/array/src/each/eachAsync.ts', 'packages/array/src/each/eachRightAsync.ts', 'packages/array/src/map/mapAsync.ts', 'packages/array/src/map/mapRightAsync.ts'],
    [{ name: 'eachAsync', where: 'packages/array/src/each/eachAsync.ts' }, { name: 'mapAsync', where: 'packages/array/src/map/mapAsync.ts' }], 'callback log and settled result',
    'Seeded latencies/outcomes against a sequential model.');
prop('A02', 'Parallel iteration starts everything at once and waits for all of it',
    'Parallel asynchronous iteration and mapping call the callback once per element without waiting for earlier ones, in forward (or backward) order, and resolve only when all callbacks settled; mapping yields each result at its visiting position whatever the completion order. Any failure rejects the call with the first failure and never leaves an unhandled rejection.',
    ['schedules', 'inputs', 'fault_sequences'], 'all completion orders and failure combinations, sync and async',
    'Tests use fixed small arrays with immediate callbacks.',
    ['packages/array/src/each/eachParallel.ts', 'packages/array/src/each/eachRightParallel.ts', 'packages/array/src/map/mapParallel.ts', 'packages/array/src/map/mapRightParallel.ts'],
    [{ name: 'eachParallel', where: 'packages/array/src/each/eachParallel.ts' }, { name: 'mapParallel', where: 'packages/array/src/map/mapParallel.ts' }], 'callback log, settled result, unhandled rejections',
    'Seeded completion orders and failures against a model.');
prop('A03', 'Random helpers stay in bounds and can reach every value, for any random draw',
    'Whatever the random source returns, drawing a number stays within its range with both ends reachable, picking an element returns an element of the array, shuffling returns a permutation in a new array leaving the input untouched with every arrangement reachable, and random letters, digits and colours have their documented alphabet and length and can reach all of it.',
    ['inputs', 'fault_sequences'], 'all outputs of the random sources including the extreme ones',
    'Tests sample the real random source and cannot force its extreme values.',
    ['packages/number/src/range.ts', 'packages/number/src/rangeSafe.ts', 'packages/number/src/random.ts', 'packages/number/src/randomSafe.ts', 'packages/array/src/shuffle.ts', 'packages/array/src/random.ts', 'packages/string/src/random/randomNumber.ts', 'packages/string/src/random/randomHexColor.ts'],
    [{ name: 'range', where: 'packages/number/src/range.ts' }, { name: 'shuffle', where: 'packages/array/src/shuffle.ts' }], 'returned values',
    'The random sources are behind the simulator; seeded draws are biased to the extremes and coverage of outcomes is counted.');
/* ------------------------------------------------------------------ fs */
prop('S01', 'A completed copy reproduces the source tree and leaves the source untouched',
    'When copying a file, directory tree or symbolic link succeeds with overwriting allowed, every source entry exists at the corresponding destination with the same kind and the same bytes (a link is copied as a link that points to the same entry). Copying never modifies or removes any source entry, nor any destination entry that has no counterpart in the source, whether it succeeds or fails; a directory is not copied into itself. Without faults and conflicts it succeeds.',
    ['inputs', 'fault_sequences', 'schedules'], 'all source/destination trees, all I/O error positions, concurrent copies',
    'The package has no runnable tests.',
    [S('copy.ts'), S('copySymbolicLink.ts'), S('mkdir.ts')],
    [{ name: 'copy', where: S('copy.ts') }, { name: 'copySymbolicLink', where: S('copySymbolicLink.ts') }], 'state of the simulated file system before and after',
    'Seeded trees, I/O latencies, faults on a simulated file system; tree-equality oracle.');
prop('S02', 'Copying with overwriting disabled never changes an existing destination file',
    'With overwriting disabled, copying a file or a tree never modifies, truncates or replaces a file that already exists at the destination at any depth, even if another process creates it while the copy runs or reading its state fails. Files missing at the destination are still copied completely.',
    ['inputs', 'schedules', 'fault_sequences'], 'all trees, nesting depths, concurrent creations and I/O errors',
    'No runnable tests.',
    [S('copy.ts')],
    [{ name: 'copy', where: S('copy.ts') }], 'content of pre-existing destination files at every step',
    'Seeded trees, concurrent creators and faults; per-step invariant.');
prop('S03', 'Synchronising one file never destroys the source and re-running completes it',
    'Synchronising a file into another directory tree writes only its mapped destination path and never modifies or deletes the source file or any other file, even when the copy fails or the process crashes midway. When it reports success the destination has exactly the source\'s bytes, and after any crash or transient failure running it again without faults succeeds and reaches that state.',
    ['inputs', 'fault_sequences', 'crash_points'], 'all contents, all fault and crash positions',
    'No runnable tests; copying errors and crashes cannot be produced by unit tests.',
    [S('copyFile.ts'), S('destPath.ts'), S('diffFile.ts'), S('deleteOne.ts')],
    [{ name: 'copyFile', where: S('copyFile.ts') }], 'simulated disk state after each run, crash and re-run',
    'Seeded fault/crash points with restart; durable-state oracle.');
prop('S04', 'Deleting removes exactly the named tree and never follows links out of it',
    'Deleting a path removes that entry and everything below it, and clearing a directory removes everything below it but keeps the directory; a symbolic link is removed itself and its target is never touched. No entry outside the named tree is ever removed or changed, whether the call succeeds or fails, and success means that nothing of the named content is left.',
    ['inputs', 'fault_sequences', 'schedules'], 'all trees with links of every kind, all I/O error positions, concurrent changes',
    'No runnable tests.',
    [S('deleteOne.ts'), S('clearDir.ts')],
    [{ name: 'deleteOne', where: S('deleteOne.ts') }, { name: 'clearDir', where: S('clearDir.ts') }], 'simulated file-system state at every step',
    'Seeded trees, link shapes, faults and mutators; containment invariant checked after every file-system step.');
prop('S05', 'File comparison reports equal exactly when the bytes are equal',
    'Comparing two files that do not change reports true exactly if both can be read and have the same bytes, no matter how many bytes each read call returns. An I/O failure is never reported as equality, and the files\' descriptors are closed again whatever happens.',
    ['inputs', 'fault_sequences', 'schedules'], 'all contents and sizes, short reads, read and open errors',
    'No runnable tests; short reads and errors need fault injection.',
    [S('diffFile.ts')],
    [{ name: 'diffFile', where: S('diffFile.ts') }], 'returned boolean, open descriptors',
    'Seeded near-equal contents, short reads and faults against byte equality.');
prop('S06', 'An acknowledged write is complete and a read returns exactly the stored bytes',
    'When writing a file reports success, reading it back gives exactly the data written (objects and arrays as their serialised text, unless serialising is switched off) and, in append mode, preceded by the former content; requested parent directories are created, none that were not asked for, and a new file gets the requested permissions. A failed or short underlying write is never acknowledged as success unless completed, reading never returns partial content as success, and every failure is reported as a rejection.',
    ['inputs', 'fault_sequences', 'schedules'], 'all data, flags, short writes/reads and error positions',
    'No runnable tests.',
    [S('writeFile.ts'), S('readFile.ts'), S('mkdir.ts')],
    [{ name: 'writeFile', where: S('writeFile.ts') }, { name: 'readFile', where: S('readFile.ts') }], 'simulated file content, settled results',
    'Seeded data and options, short I/O and faults against a content model.');
prop('S07', 'Listings contain every matching entry exactly once, or fail',
    'Listing files below a directory returns the path of every non-directory entry at any depth exactly once and nothing else (in shallow mode the names of all direct entries); searching for directories by name returns every outermost directory with one of the names exactly once. An unreadable directory makes a listing fail instead of being silently dropped, while a search skips it; links to directories are not followed. On Windows a shortcut is listed as what it points to, or as an ordinary file where it cannot be resolved; one that leads back into a folder being listed is not followed.',
    ['inputs', 'fault_sequences', 'schedules'], 'all trees, directory orders, I/O latencies and error positions',
    'No runnable tests.',
    [S('fileList.ts'), S('findDir.ts')],
    [{ name: 'fileList', where: S('fileList.ts') }, { name: 'findDir', where: S('findDir.ts') }], 'returned lists against the simulated tree',
    'Seeded trees, shuffled directory orders and faults against a tree walk.');
prop('S08', 'Streaming a file by lines is independent of chunking and always settles',
    'Reading a file line by line yields the file\'s lines in order, each exactly once and with multi-byte characters intact, independent of how reads are split or delayed; without a callback the promise resolves with the array of lines once the file is finished, with a callback with true after the last line. An I/O failure at any point rejects the promise; it never crashes the process, hangs, or reports success. Splitting the same content in memory, given as text or as bytes, yields the same lines (and one empty line more after a final line end).',
    ['inputs', 'schedules', 'fault_sequences'], 'all contents, chunk boundaries, chunk delays and error positions',
    'No runnable tests; chunk boundaries, delays and stream errors need a controlled stream.',
    [S('readlineStream.ts'), S('readline.ts'), S('readlineFromCode.ts')],
    [{ name: 'readlineStream', where: S('readlineStream.ts') }], 'delivered lines, settled result, uncaught errors',
    'Seeded contents, read sizes, latencies and faults against a line-splitting model.');
prop('S09', 'Reading a byte range returns exactly that range, or fails',
    'Reading a fragment of a file resolves with exactly the text of the requested inclusive byte range (clipped at the end of the file), or of the first line of that range, without its line break, when only the first line is asked for, independent of how reads are split; an end of 0 asks for nothing and an invalid range is refused. Any I/O failure rejects, and the call always settles and releases its descriptor.',
    ['inputs', 'schedules', 'fault_sequences'], 'all contents, ranges, chunk sizes and error positions',
    'No runnable tests.',
    [S('readFragment.ts')],
    [{ name: 'readFragment', where: S('readFragment.ts') }], 'settled result, open descriptors',
    'Seeded contents and ranges, short reads and faults.');
prop('S10', 'Path queries never fail and reflect the disk; concurrent use leaks nothing',
    'Asking whether a path is a file, a directory or a symbolic link answers according to the file system (links followed for the first two) and answers no instead of failing when the path cannot be examined; creating a directory (with its parents, the default) succeeds exactly when the whole path is a directory afterwards and changes nothing else. Any mix of concurrent file operations under any I/O errors settles every call, leaves no descriptor open and never crashes the process.',
    ['inputs', 'schedules', 'fault_sequences'], 'all concurrent mixes of operations, all I/O error positions',
    'No runnable tests.',
    [S('isFile.ts'), S('isDir.ts'), S('isSymbolicLink.ts'), S('symbolicLink.ts'), S('mkdir.ts')],
    [{ name: 'queries', where: S('isFile.ts') }], 'answers, descriptor table, process-level errors',
    'Seeded concurrent operation mixes with faults.');
prop('S11', 'Resolving a shortcut asks for exactly that path and executes nothing else',
    'Resolving a Windows shortcut asks the system, once per call, for exactly the given (normalised) path, whatever characters it contains, and nothing in the path is ever interpreted by the command shell or by the script that resolves it. It resolves with the complete target reported for that path, also when several shortcuts are resolved at once, and rejects when the resolver fails, reports an error, is killed or cannot be started; on another system it rejects and runs nothing.',
    ['inputs', 'fault_sequences', 'schedules'], 'all Windows paths, all output splits and failures of the resolver',
    'The fs package has no test that runs, and none could on another system.',
    [S('readLnk.ts')], [{ name: 'readLnk', where: S('readLnk.ts') }], 'command lines and arguments of started processes, settled results',
    'Seeded paths, output chunking and process failures against independent readers of cmd.exe, argument and PowerShell quoting.');

/* ------------------------------------------------------------------ request */
prop('S12', 'A destination keeps the place a file has below the source folder',
    'The destination of a file below the source folder is the same relative path below the destination folder. On Windows a file below the target of a shortcut in the source folder is placed below a folder named like that shortcut, whatever other shortcuts there are, on whichever drive, however alike the paths begin, and with unresolvable shortcuts skipped; a file that cannot be placed keeps its own path. When asked to, the folder of the destination is created, otherwise nothing changes; copying puts the file exactly there.',
    ['inputs', 'fault_sequences', 'schedules'], 'all trees, shortcut targets, resolver failures and I/O error positions',
    'No runnable tests; shortcuts need Windows.',
    [S('destPath.ts'), S('copyFile.ts')],
    [{ name: 'destPath', where: S('destPath.ts') }], 'returned paths, created folders and file contents on the simulated disk',
    'Seeded trees and shortcuts on a simulated disk against the place each file was generated for.');
prop('R01', 'A delivered response is exactly what the server sent, however it was transported',
    'When a request resolves without error, status, headers and body are those the server sent for it: the body bytes are complete and in order, decompressed according to the declared content encoding (gzip, deflate with or without header, br, or none), independent of packet boundaries, delays and transfer framing; a content encoding still announced in the headers is one the body still has. A response cut off before its declared end (length, chunked framing, compressed stream, or a connection reset), or corrupted so that it cannot be decoded, is never delivered as a complete successful result.',
    ['inputs', 'schedules', 'fault_sequences'], 'all bodies, encodings, framings, segmentations, cut-off positions',
    'The package has no runnable tests and needs a network.',
    [R('request/request.ts'), R('request/content.ts')],
    [{ name: 'request', where: R('request/request.ts') }, { name: 'pipeDecompressStream', where: R('request/content.ts') }], 'settled result against the bytes the simulated server sent',
    'Real HTTP client code over a simulated socket; seeded segmentation, encodings, cut-offs.');
prop('R02', 'Every request settles exactly once and never takes the process down',
    'Under any connection failure, reset, early close, malformed response, bad redirect or stall (given a timeout), a request settles: with a response, or by rejecting with an Error; it never crashes the process, leaves an unhandled rejection, or hangs after the faults are over. After it settled its connection is released.',
    ['schedules', 'fault_sequences', 'inputs'], 'all network fault kinds and positions',
    'No runnable tests; network faults cannot be produced by unit tests.',
    [R('request/request.ts')],
    [{ name: 'request', where: R('request/request.ts') }], 'settlement, uncaught errors, open simulated sockets, virtual time',
    'Seeded network faults at random byte positions, liveness within a virtual-time bound.');
prop('R03', 'Redirects are followed correctly and at most the configured number of times',
    'A redirect response with a location is followed, with absolute and relative locations resolved against the current address, until a non-redirect response arrives or the configured maximum number of redirects was followed, after which the redirect response itself is returned. A POST redirected with 301 or 302, and any method but HEAD redirected with 303, becomes a GET without body; other redirects keep method and body; each hop is addressed to the host of its own location. A location that is not a valid http or https address makes the request reject; otherwise the final response is the one delivered.',
    ['inputs', 'histories', 'fault_sequences'], 'all redirect chains, loops, status codes and location forms',
    'No runnable tests.',
    [R('request/request.ts'), R('request/options.ts')],
    [{ name: 'redirect handling', where: R('request/request.ts') }], 'requests received by the simulated servers, settled result',
    'Seeded redirect graphs over simulated servers against a redirect model.');
prop('R04', 'Credentials never travel to another host through a redirect',
    'After following a redirect to a different host, no request to that host or to any later host in the chain carries the caller\'s cookies, authorization header or basic credentials, while redirects within the same host name (any port or scheme) keep them; credentials written in the address given by the caller count as well. This holds whatever letter case the caller used for header names.',
    ['inputs', 'histories'], 'all redirect chains across hosts, header spellings and ways of giving credentials',
    'No runnable tests.',
    [R('request/request.ts')],
    [{ name: 'redirect handling', where: R('request/request.ts') }], 'headers received by each simulated host',
    'Seeded multi-host redirect chains; taint tracking of credential strings at every simulated server.');
prop('R05', 'Requests are isolated: options stay unmodified, concurrent calls do not mix',
    'A request never modifies the options object, headers or query given by the caller, so the same options can be used again and concurrently. Any number of concurrent requests, including redirected and failing ones, each deliver the response to their own request and none of them influences what another one sends.',
    ['schedules', 'histories', 'inputs'], 'all interleavings of concurrent requests sharing options',
    'No runnable tests.',
    [R('request/request.ts'), R('request/options.ts')],
    [{ name: 'request', where: R('request/request.ts') }, { name: 'optionsHandler', where: R('request/options.ts') }], 'caller\'s options before/after, requests received, responses delivered',
    'Seeded concurrent workloads with shared option objects.');
prop('R06', 'What goes on the wire is what the caller asked for',
    'The request the server receives has the caller\'s method, path, query parameters, headers and host, with defaults only where the caller gave none, and its body is the caller\'s body serialised for its content type (JSON, URL-encoded, multipart form, text or raw bytes) with a content length equal to its byte length. Credentials in the address are sent decoded as basic authorisation, host and port (also IPv6) are those of the address, and the caller\'s agent and abort signal are used as given. A configured start delay elapses before anything is sent. Without a usable address nothing is sent and the promise rejects.',
    ['inputs', 'schedules'], 'all methods, paths, queries, header spellings and bodies, partial socket writes and late timers',
    'No runnable tests.',
    [R('request/options.ts'), R('request/body.ts'), R('request/content.ts'), R('request/headers.ts')],
    [{ name: 'optionsHandler', where: R('request/options.ts') }, { name: 'handleBody', where: R('request/body.ts') }], 'bytes received by the simulated server',
    'Seeded requests over simulated sockets parsed by an independent server-side parser.');
prop('R07', 'Response handlers see the response once, in order, and can stop it early',
    'The header handler runs exactly once before any body data, the data handler then sees the decoded body chunks in order; both are used for the final response also after redirects. As soon as one of them asks to stop, the request resolves with what was received before, no handler runs again, and the connection is released. A handler that throws makes the request reject, and no handler runs after the request failed.',
    ['schedules', 'inputs', 'fault_sequences'], 'all chunkings, stop positions and redirects',
    'No runnable tests.',
    [R('request/request.ts')],
    [{ name: 'handlers', where: R('request/request.ts') }], 'handler call log, settled result, socket state',
    'Seeded chunkings and stop positions over simulated sockets.');
prop('R08', 'Lookups attribute answers to the right name and reject malformed replies',
    'A name query returns an entry for every requested name, holding exactly the addresses the resolver returned for that name and none when its lookup was answered with an error status (text that is not an IP address is not an address); a public-address query resolves only with the address of a well-formed success reply and otherwise rejects, and nothing in a reply is ever executed.',
    ['inputs', 'fault_sequences', 'schedules'], 'all name lists, replies, statuses and network faults',
    'No runnable tests.',
    [R('dns/queryDNS.ts'), R('ip/publicIP.ts')],
    [{ name: 'queryDNS', where: R('dns/queryDNS.ts') }, { name: 'publicIP', where: R('ip/publicIP.ts') }], 'result object against the simulated resolver\'s replies',
    'Seeded replies and faults from simulated services.');
/* ------------------------------------------------------------------ process / os / term */
prop('P01', 'Running a command reports its complete output and status exactly once',
    'Running a child process resolves, once it and its output streams closed, with its exit status or signal and all bytes it wrote to each piped stream, in order and with multi-byte characters intact however they were chunked (as trimmed text, or as exact bytes on request); an inherited or ignored stream yields null. If the process cannot be started or a stream fails, the promise rejects with the command, the output so far and the error; it always settles exactly once and never crashes the process. When a shell is used (a POSIX shell or cmd.exe), every argument reaches the command as exactly one unchanged word, with nothing in it interpreted by the shell.',
    ['schedules', 'inputs', 'fault_sequences'], 'all interleavings of output, exit, close and error events; all spawn failures',
    'The package has no runnable tests; real children cannot be interleaved at will.',
    ['packages/process/src/spawn.ts'],
    [{ name: 'spawn', where: 'packages/process/src/spawn.ts' }], 'settled result against the simulated child\'s script',
    'Seeded event interleavings of simulated children.');
prop('P02', 'Killing a process tree signals every process once and reports once',
    'Killing a process delivers the requested signal exactly once to the process and to every descendant found, and to nothing else, with processes that already exited tolerated; the callback runs exactly once, after all signals were sent, or with the error as soon as the system refused one. A failing, silent or unavailable process lister never crashes the caller, prevents the call from completing, or makes it signal a process it did not find. Anything but a positive integer id is refused and signals nothing; on Windows the one tree-kill command is run instead.',
    ['schedules', 'inputs', 'fault_sequences'], 'all process trees, lister completion orders, exits during the walk and lister failures',
    'The package has no runnable tests.',
    ['packages/os/src/kill.ts'],
    [{ name: 'kill', where: 'packages/os/src/kill.ts' }], 'signals recorded by the simulated kernel, callback log',
    'Seeded process trees and lister timings; all signals go to a recorder, never to a real process.');
prop('P03', 'Windows task helpers report exactly the listed tasks and true kill outcomes',
    'The Windows task helpers return one record per listed process with its complete name, pid, session and memory use, finding by name returns exactly the matching ones, and killing by name reports true exactly if the kill command succeeded. The locale query returns the reported language, null when none is reported or on another system. A failing command rejects the queries and never crashes the process.',
    ['inputs', 'fault_sequences', 'schedules'], 'all task tables, command outcomes and output chunkings',
    'No runnable tests; Windows only.',
    ['packages/os/src/windows/taskList.ts', 'packages/os/src/windows/findTask.ts', 'packages/os/src/windows/killTask.ts', 'packages/process/src/exec.ts'],
    [{ name: 'task helpers', where: 'packages/os/src/windows/taskList.ts' }], 'results against the simulated command output',
    'Seeded command outputs and failures on a simulated Windows.');
prop('P04', 'Opening targets and making shortcuts pass exactly what was given',
    'Opening a target runs the opener of the platform (or the given command) exactly once with exactly the given targets as its arguments, resolves with the outcome of that command and rejects if it cannot be started. Creating a Windows shortcut runs the script host exactly once with exactly the given settings and defaults, and is refused with an error, running nothing, on another system or for a missing source or folder unless forced. Caller objects are never modified.',
    ['inputs', 'configurations', 'fault_sequences'], 'all targets, settings, platforms and start failures',
    'The packages have no runnable tests and the commands exist on three platforms.',
    ['packages/process/src/open.ts', 'packages/process/src/spawn.ts', 'packages/os/src/windows/makeShortcut.ts'],
    [{ name: 'open', where: 'packages/process/src/open.ts' }, { name: 'windowsMakeShortcut', where: 'packages/os/src/windows/makeShortcut.ts' }], 'commands started in the simulated system, settled results',
    'Seeded targets, settings, platforms and start failures in a simulated system.');
prop('T01', 'Asking a question returns the first line typed and always settles',
    'Asking a question prints it once and resolves with the first line entered, trimmed, however the input arrives in pieces, and then releases the input. If the input ends, an unfinished line counts as the answer (on a terminal it may be dropped) and no line at all as an empty one; if it fails the promise rejects. It always settles and never crashes the process.',
    ['schedules', 'inputs', 'fault_sequences'], 'all input chunkings, delays and end-of-input positions',
    'No runnable tests; needs a terminal.',
    ['packages/term/src/readByQuestion.ts'],
    [{ name: 'readByQuestion', where: 'packages/term/src/readByQuestion.ts' }], 'settled answer, output written, input listeners',
    'Seeded chunkings of a simulated terminal.');
prop('T02', 'A progress bar shows exactly the progress made and leaves a clean terminal',
    'After every push or write the terminal line shows exactly the bar, percentage and count of the pushes made so far (as far as they are switched on) and the given text, with nothing of an earlier, longer text left and no other line changed. Completion is reported by exactly the push that reaches the total (and writes after it), never without a total. Once complete or ended, the line is empty and the cursor visible; while running the cursor is hidden unless that is switched off.',
    ['histories', 'configurations'], 'all settings and all sequences of pushes, writes and ends',
    'The package has no test that runs, and needs a terminal.',
    ['packages/term/src/progressBar.ts', 'packages/term/src/sequence'],
    [{ name: 'ProgressBar', where: 'packages/term/src/progressBar.ts' }], 'screen contents and cursor of a simulated terminal, return values',
    'Seeded histories of operations on a simulated terminal that interprets the control sequences.');

prop('U01', 'A value\'s text shows each promise as it is, without waiting for it',
    'Turning a value into text asynchronously always settles, however many promises in it never do: a promise that has settled by the time it is reached is shown with its outcome and what is inside it, one that takes longer than a timer turn is shown as pending, and one and the same promise is shown the same way wherever it occurs in the text. The text is that of the value as it is when the text is delivered. An asynchronous serialiser is called at most once per call; one that fails or is late is as if it were not there. Overlapping calls on the same value do not influence each other, no timer is left behind and no failure of a promise or serialiser surfaces anywhere else.',
    ['schedules', 'histories', 'fault_sequences', 'inputs'], 'all nestings of values, promises and serialisers, all settle times, late timers, owners who change the value meanwhile, clock jumps and overlapping calls',
    'There is no test of it.',
    ['packages/util/src/stringify.ts'],
    [{ name: 'possiblyAsyncStringify', where: 'packages/util/src/stringify.ts' }, { name: 'asyncStringify', where: 'packages/util/src/stringify.ts' }], 'the text delivered, read against the value and the settle times; timers, serialiser calls',
    'Seeded search over settle times and values; the text is read back against the value and every promise state checked against what could be seen.');
/* ------------------------------------------------------------------ histories of calls to helpers without state */
prop('H01', 'Text helpers remember nothing between calls and leave what they are given alone',
    'What a text, regular-expression, cookie, path, number, or terminal colour or cursor helper returns or throws for given arguments is what it would have returned as the first call after loading, whatever was called before: whoever shares the same regular expressions, arrays and option objects, whichever callbacks threw in the middle, called the library again or were called again, and whatever callers did to earlier results. A call changes none of its arguments (also not the position of a regular expression with the g flag) and no other object, and always returns.',
    ['histories', 'inputs', 'fault_sequences'], 'all sequences of calls by clients that share arguments, with throwing and re-entrant callbacks',
    'Each test makes one call with fresh arguments; what a call leaves behind for the next one is not looked at.',
    ['packages/string/src', 'packages/regexp/src', 'packages/cookie/src', 'packages/path/src', 'packages/number/src', 'packages/term/src'],
    [{ name: 'execAll', where: 'packages/regexp/src/execAll.ts' }, { name: 'mapReplace', where: 'packages/regexp/src/mapReplace.ts' }, { name: 'splitSetCookie', where: 'packages/cookie/src/setCookie/split.ts' }], 'results, errors and the state of every shared argument after each call',
    'Seeded histories of calls by several clients sharing arguments; every call is compared with the same call on a freshly loaded instance.');
prop('H02', 'Array, object and copying helpers keep nothing and touch no argument',
    'What an array, object or attribute helper returns or throws for given arguments is what it would have returned as the first call after loading, whatever was called before on the same arrays and objects (as they are now: changes made in between count), whichever callbacks threw or called the library again, and whatever callers did to earlier results. A call changes no object, except where that is what the helper is for: move and the sorting helpers change the given array, deleteAttrs its object, copyAttrs its destination, and toTree its items when told to assign (a generator or iterator can only be read by using it up). Text it is given, such as a property path, is never run as code. A list or object a helper derives from its argument is a new one, never the argument itself. A deep copy shares no changeable part with its source: a later change to one never shows in the other.',
    ['histories', 'inputs', 'fault_sequences'], 'all sequences of calls by clients that share arguments and change them in between, with throwing and re-entrant callbacks',
    'Each test makes one call with fresh arguments and does not look at them afterwards.',
    ['packages/array/src', 'packages/object/src', 'packages/util/src'],
    [{ name: 'copy', where: 'packages/util/src/copy.ts' }, { name: 'toTree', where: 'packages/array/src/toTree.ts' }, { name: 'deleteAttrs', where: 'packages/object/src/deleteAttrs.ts' }], 'results, errors and the state of every shared argument after each call',
    'Seeded histories of calls by several clients sharing arguments; every call is compared with the same call on a freshly loaded instance.');
prop('H03', 'Type checks and assertions only look, remember nothing and agree',
    'A type check or assertion answers for a value as it is now what it would have answered as the first call after loading, whatever was asked before, also about the same object before it was changed. It changes nothing: a generator, iterator or stream it looked at is still at its start, and a function, class or thenable has not been called. An assertion throws exactly when the type check of the same name, given the same value and further arguments, does not hold; where it takes a variable name, it throws a TypeError naming it.',
    ['histories', 'inputs', 'fault_sequences'], 'all sequences of checks and assertions by clients that share values and change them in between',
    'The assertions have no test that runs; the tests of the type checks ask once about fresh values.',
    ['packages/types/src', 'packages/asserts/src'],
    [{ name: 'getTag', where: 'packages/types/src/type/getTag.ts' }, { name: 'typeGuard', where: 'packages/asserts/src/constants/typeGuard.ts' }], 'answers, errors and the state of every shared value after each call',
    'Seeded histories of checks and assertions over shared values; every call is compared with the same call on a freshly loaded instance, and assertions with the type checks.');

/* ------------------------------------------------------------------ not applicable: pure functions */
const W = 'Example-based tests cannot cover all inputs.';
na('N01', 'Cookie headers survive a parse/serialise round trip', 'Parsing a cookie or set-cookie header and joining it again preserves every name, value and attribute.', 'all header strings', W, ['packages/cookie/src'], [{ name: 'parse/join', where: 'packages/cookie/src' }],
    'Which text a single call gives is a pure function of its input: no schedule, clock, I/O, fault or interleaving for a simulator to own (histories of calls: H01).');
na('N02', 'Type predicates agree with the language\'s own classification', 'Every type predicate returns true exactly for values of its type.', 'all values', W, ['packages/types/src', 'packages/asserts/src'], [{ name: 'predicates', where: 'packages/types/src' }],
    'The classification of a single value is a pure function of it: no schedule, clock, I/O, fault or interleaving for a simulator to own (histories of calls, and agreement with the assertions: H03).');
na('N03', 'String, regexp and number formatting helpers match their documentation', 'Formatting, padding, casing and numeric conversion helpers return the documented text for every input.', 'all inputs', W, ['packages/string/src', 'packages/number/src', 'packages/regexp/src'], [{ name: 'helpers', where: 'packages/string/src' }],
    'Pure functions of their input (the random helpers are covered by A03, histories of calls by H01).');
na('N04', 'Deep copy and serialisation preserve structure', 'Deep copies are structurally equal to the original; serialisation handles cycles.', 'all object graphs', W, ['packages/util/src', 'packages/object/src'], [{ name: 'copy', where: 'packages/util/src/copy.ts' }],
    'Pure function of an in-memory object graph: nothing nondeterministic to simulate (its use on request options is observed under R05; that it shares nothing, and histories of calls, under H02).');
na('N08', 'Synchronous array helpers match their documentation', 'Array conversion, sorting and splitting helpers return the documented results.', 'all inputs', W, ['packages/array/src'], [{ name: 'helpers', where: 'packages/array/src' }],
    'Pure functions of their input (histories of calls: H02).');
na('N09', 'Terminal colouring emits the documented sequences', 'Colour and format helpers emit the documented escape sequences.', 'all inputs', W, ['packages/term/src'], [{ name: 'format', where: 'packages/term/src/format.ts' }],
    'Pure string building; no clock, schedule or fault influences the sequences (histories of calls: H01).');

const all = [...P, ...NA];
fs.writeFileSync(path.join(root, 'properties.jsonl'), all.map(p => JSON.stringify({
    id: p.id, title: p.title, statement: p.statement, quantifier: { over: p.over, text: p.quant },
    why_tests_cant: p.why, anchors: { files: p.files, mechanism: p.mechanism, observe_at: [p.observe_at], hook_needed: null }
})).join('\n') + '\n');

const have = id => fs.existsSync(path.join(root, 'sim/scenarios', id + '.js'));
const manifest = {
    version: 1,
    setup_cmd: 'node sim/setup.js',
    checks: P.filter(p => have(p.id)).map(p => ({
        property: p.id,
        quick_cmd: `node sim/check.js ${p.id}`,
        thorough_cmd: `node sim/check.js ${p.id} --tier thorough`,
        evidence_file: `evidence/${p.id}.json`,
        technique: 'deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracle)',
        level: 'exploration',
        level_note: p.level_note + ' Sampling, not proof: it trusts the simulator stubs named in the evidence file.'
    })),
    not_applicable: [
        ...NA.map(p => ({ property: p.id, reason: p.reason })),
        ...P.filter(p => !have(p.id)).map(p => ({ property: p.id, reason: 'Check not built yet.' }))
    ],
    notes: 'No hooks in /repo: every nondeterministic primitive is shadowed when the sources are bundled and loaded into the simulator (see DESIGN.md). Genuine defects and their fixes are in known-findings.txt.'
};
fs.writeFileSync(path.join(root, 'MANIFEST.json'), JSON.stringify(manifest, null, 1) + '\n');
const long = all.filter(p => p.title.length > 80);
if (long.length) { console.error('title too long', long.map(p => p.id + ':' + p.title.length)); process.exit(1); }
console.log(`${P.length} simulated (${manifest.checks.length} built), ${NA.length} not applicable`);
