#!/usr/bin/env python3
"""The properties; writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level="model_checking", note="", observe="", technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               **({"observe_at": observe} if observe else {})),
                  _level=level, _note=note, _tech=technique))
EX = "framework/core/include/plain/concurrency/executor/"
EXS = "framework/core/src/concurrency/executor/"
RS = "framework/core/include/plain/concurrency/result/"
RSS = "framework/core/src/concurrency/result/"

prop("C01", "An accepted task runs exactly once",
     "A task handed to any executor (inline, manual, thread, worker thread, thread pool; one at a time or in bulk, from outside or from a running task) and accepted is executed exactly once; it is never lost, duplicated or run after having been refused. The only exception is a task discarded because its executor was shut down, and then the result of a submitted task reports the interruption. The result of a submitted task otherwise delivers exactly the value or exception the task ended with.",
     ["schedules", "programs", "configurations"],
     "for every number and kind of executors, every mix of post/submit/bulk operations from client threads and from tasks, every idle time-out and every interleaving of submitters, workers, idle time-outs and shutdown",
     "The unit tests submit batches to freshly made executors and only see the interleavings the machine happens to produce; a lost task needs a worker that times out or is shut down exactly while a task arrives.",
     [EXS + "thread_pool.cc", EXS + "worker_thread.cc", EXS + "thread.cc", EXS + "manual.cc", EX + "inline.h", EX + "derivable.h", EX + "basic.h", "framework/core/include/plain/concurrency/task.h"],
     [("pool worker sleep/wake protocol", EXS + "thread_pool.cc: wait_for_task, ensure_worker_active, enqueue_foreign"),
      ("private/public queue hand-over", EXS + "thread_pool.cc: drain_queue, balance_work; worker_thread.cc: drain_queue"),
      ("outcome delivery", EX + "derivable.h: submit, bulk_submit")],
     observe="task bodies, submission calls and the results of submitted tasks")
prop("C02", "Tasks run in the promised order and place",
     "Each executor runs its tasks where it promises: inline in the submitting call before it returns, manual only inside a looping call, thread on a new thread per task, worker thread on its one thread, thread pool on at most its number of threads - and a task never runs on another executor's threads. Tasks of one submitter to a worker thread, and all tasks of a manual executor driven by one thread, start in submission order, bulk submissions keeping their internal order. A worker thread never runs two tasks at once and a pool never runs more tasks at once than it has workers.",
     ["schedules", "programs", "configurations"],
     "for every program of submissions, including from tasks of the same or another executor, and every interleaving",
     "Tests check thread ids of a handful of tasks submitted from the main thread; nested and cross-executor submissions and work redistribution between pool workers are not sampled.",
     [EXS + "thread_pool.cc", EXS + "worker_thread.cc", EXS + "thread.cc", EXS + "manual.cc", EX + "inline.h"],
     [("local versus foreign enqueue", EXS + "thread_pool.cc: ThreadPool::enqueue; worker_thread.cc: enqueue"),
      ("one new thread per task", EXS + "thread.cc: enqueue_impl")],
     observe="thread identity and order of task bodies")
prop("C03", "Shutting an executor down is final, complete and safe at any moment",
     "Shutting an executor down may be requested at any time, from several threads and repeatedly: every call returns, afterwards the executor reports being shut down, none of its own threads is still running tasks and it never starts another one. Submissions made after that are refused (an exception, or an interrupted result), submissions are refused only if a shutdown was requested, and no combination of shutdown with submissions or running tasks hangs or crashes the process.",
     ["schedules", "programs"],
     "for every point at which shutdown is requested relative to submissions, running tasks, nested submissions and other shutdown calls",
     "The tests shut executors down at one or two fixed points; the failing windows are a few instructions wide (a worker leaving while it is being handed a task).",
     [EXS + "thread_pool.cc", EXS + "worker_thread.cc", EXS + "thread.cc", EXS + "manual.cc", EX + "inline.h"],
     [("abort flags and joins", EXS + "thread_pool.cc: ThreadPoolWorker::shutdown; worker_thread.cc: shutdown; thread.cc: shutdown, retire_worker; manual.cc: shutdown")],
     observe="return of shutdown calls, later submissions, running task bodies")
prop("C04", "The manual executor's queue operations are linearizable",
     "Every operation of the manual executor (post and bulk post, size/empty, clear, running one or several queued tasks with or without a time limit, waiting for one or several tasks with or without a time limit, shutdown) behaves as if it took effect at one moment (each task taken, for the looping calls) between its call and its return, on a single first-in first-out queue. In particular counts returned are exact, no task is lost or run twice, waits return as soon as enough tasks are queued and never report a time-out before the limit, and a shutdown releases every waiter with an error.",
     ["schedules", "programs"],
     "for every concurrent program over the manual executor's operations and every interleaving",
     "Tests use one or two threads with sleeps and generous margins; concurrent waiters, loopers and clear are not combined.",
     [EXS + "manual.cc", EX + "manual.h"],
     [("queue, condition variable and abort flag", EXS + "manual.cc: loop_impl, loop_until_impl, wait_for_tasks_impl, clear, shutdown")],
     observe="return values and durations of the calls, task bodies")
prop("C05", "A result delivers its producer's outcome exactly once",
     "Whatever order a producer (setting a value or an exception, or being dropped) and the consumer of a result (polling, waiting with or without a limit, getting, awaiting, resolving, or abandoning it) act in, the consumer observes no outcome before it was produced and then exactly that outcome: the value or exception, or a broken-promise error if the producer was dropped. Every blocked or suspended consumer goes on once the outcome exists, a timed wait reports 'not ready' only after its limit, a consumed or empty result is reported as empty, and abandoning either side is always safe.",
     ["schedules", "programs"],
     "for every program of one producer and one consumer (thread and coroutine) over the result operations and every interleaving at the granularity of atomic steps",
     "Tests produce either before or well after the consumer waits; the outcome is decided by compare-and-swap races between await, timed wait, drop and publication.",
     [RS + "basic.h", RS + "promise.h", RS + "detail/state.h", RSS + "detail/state.cc", RSS + "detail/consumer_context.cc"],
     [("producer/consumer state machine", RSS + "detail/state.cc and " + RS + "detail/state.h"),
      ("waking the consumer", RSS + "detail/consumer_context.cc: resume_consumer")],
     observe="return values of the consumer's operations")
prop("C06", "Every holder of a shared result sees the same outcome",
     "All copies of a shared result, used concurrently from any threads and coroutines, observe no outcome before the producer made one and then all observe that same outcome, any number of times; a waiter of any kind goes on once it exists and timed waits report 'not ready' only after their limit. Dropping copies at any moment, even all of them while the producer is still working, is safe.",
     ["schedules", "programs"],
     "for every set of concurrent holders, operations and drops, and every interleaving with the producer",
     "Tests share between threads after or long before completion; the window in which the producer notifies holders that are being registered or dropped is not exercised.",
     [RS + "shared.h", RS + "detail/shared_state.h", RSS + "detail/shared_state.cc"],
     [("list of awaiting coroutines and notification", RSS + "detail/shared_state.cc; " + RS + "detail/shared_state.h")],
     observe="return values of the holders' operations")
prop("C07", "Waiting for all or any of several results is exact",
     "Waiting for all of several results completes exactly when every one of them is complete and hands them all back; waiting for any completes as soon as one is complete, names a complete one and hands all results back, the others still usable. The waiter goes on on the executor it asked for, exactly once, whichever results complete before, during or after the call, and however many.",
     ["schedules", "programs"],
     "for every number of results, every order of completion relative to the registration, tuple and range forms, and repeated use on the remaining results",
     "Tests complete the results from a delayed executor; completion racing with the registration itself decides whether the waiter is woken zero, one or two times.",
     [RS + "when.h", RSS + "detail/consumer_context.cc", RSS + "detail/state.cc"],
     [("counting and first-wins contexts", RS + "when.h"),
      ("registration against completion", RSS + "detail/state.cc")],
     observe="the coroutine that waits, the handed back results")
prop("C08", "Coroutines go on where and when they ask to",
     "A coroutine that asks to continue on an executor goes on exactly once, on that executor's thread, or is told by an error that the executor was shut down; its outcome always reaches its result. A lazy result's body runs nothing before it is awaited, resolved or run, then runs exactly once, completing before the caller goes on, and its outcome is delivered once. A generator computes one value per step, in order, ends or throws as its body does, and dropping it releases the suspended body exactly once.",
     ["schedules", "programs"],
     "for every program of hops between executors (including ones being shut down), nested lazy results, and generators stopped at any step, and every interleaving",
     "Tests hop to running executors one at a time, and check generators and lazy results on one or two shapes.",
     [RS + "resume_on.h", RS + "lazy.h", RS + "generator.h", RS + "make.h"],
     [("hand-over to the executor, interruption on discard", RS + "resume_on.h; framework/core/include/plain/concurrency/task.h"),
      ("lazy chaining", RS + "lazy.h, detail/lazy_state.h"), ("generator state", RS + "generator.h, detail/generator_state.h")],
     observe="thread identity and order of coroutine steps, outcomes")

TM = "framework/core/include/plain/engine/"
prop("C09", "Timers and delays fire when due, as often as asked, and stop",
     "A one-shot timer runs its task once and a periodic one again and again until it is stopped, on the executor it was given, never before it is due and with at least the period between firings on average; a delayed coroutine goes on exactly once, after its delay. Cancelling or dropping a timer stops it except for firings already handed to its executor, changing the period takes effect, and every timer that is due does fire however many others are added, cancelled or stopped. Shutting down the timer queue or an executor at any moment refuses or drops the timers concerned, tells waiting coroutines with an error, and never hangs or crashes.",
     ["schedules", "programs", "configurations"],
     "for every set of timers and delays, due times and periods, every executor kind, and every interleaving of creation, cancellation, period changes, firing and shutdowns",
     "Tests use generous sleeps on a few timers and never stop the queue or an executor while a timer fires or is cancelled.",
     [TM + "timer_queue.h", TM + "timer.h", "framework/core/src/engine/timer_queue.cc", "framework/core/src/engine/timer.cc"],
     [("timer thread and request queue", "framework/core/src/engine/timer_queue.cc: work_loop, add_timer, remove_timer, shutdown"),
      ("firing and cancellation flags", "framework/core/src/engine/timer.cc: State::fire, cancel")],
     observe="timer task bodies and their times, delayed coroutines")

prop("C10", "A task object runs its callable at most once and releases it once",
     "A task object holds at most one callable of any size and kind (function objects that are large, move-only, or may throw when moved, and suspended coroutines). Moving, swapping and assigning task objects hands the callable on unchanged, calling a task runs it exactly once and leaves the object empty, and the callable is released exactly once: after it ran, or when its object is cleared, overwritten or destroyed without running it.",
     ["inputs", "histories"],
     "for every kind and size of callable and every sequence of creation, moves, swaps, assignments, clearing, calls and destruction",
     "Tests move and call single tasks of a few sizes; the combinations of sizes, kinds and operations, and releases that come twice or never, need every sequence.",
     ["framework/core/include/plain/concurrency/task.h", "framework/core/src/concurrency/task.cc"],
     [("callable storage", "framework/core/include/plain/concurrency/task.h: CallableVtable, Task"), ("moves, calls and clearing", "framework/core/src/concurrency/task.cc")],
     observe="runs and destruction of the callables")

prop("F01", "A configuration file is read back exactly, whatever its content",
     "What an Ini object answers follows from the lines of the file it opened last and from nothing else: sections may be empty, repeated or many, notes, blanks at the end of a line and line ends of either kind do not count, the first value of a key stays, lines and values may have any length. Numbers, texts, variables and defaults are returned as written, a text never exceeds the given buffer and is always terminated, a missing key yields the default, a file that cannot be opened and a closed object know no key, and no content makes the program read or write outside its memory.",
     ["inputs", "histories"],
     "for every content of the file, every section, key and buffer size, and every sequence of opening, closing and asking",
     "Tests read one well-formed file; empty, long, repeated and broken lines, tiny buffers and reopened objects decide whether answers are right and memory is safe.",
     ["framework/core/include/plain/file/ini.h", "framework/core/src/file/ini.cc", "framework/core/src/sys/assert.cc"],
     [("lines, sections and keys", "framework/core/src/file/ini.cc: Ini::open, _trimstring, _parsesection, _parsekey"), ("answers", "framework/core/src/file/ini.cc: getint32, getfloat, getstring, get; ini.h: get<T>")],
     observe="answers of the getters and memory safety (address sanitizer)")

prop("F02", "A table holds the rows and columns of its file, as text and as binary",
     "A Tab object shows exactly the rows of the text it opened last: comments, empty lines and rows without a first cell do not count, short rows are completed, surplus cells are dropped, cells have the type of their column. Searches by position, name, index and value find the first row that fits and nothing outside the table; a table written as text reads the same, one written as binary and read back is the same table; a file that is not a table is refused, and neither broken text nor a changed binary file makes the program read or write outside its memory.",
     ["inputs", "histories"],
     "for every text and binary content and every sequence of opening, searching, indexing and saving",
     "Tests read one small well-formed table; ragged rows, several opens, out-of-range searches, binary round trips and broken binary files need every content.",
     ["framework/core/include/plain/file/tab.h", "framework/core/src/file/tab.cc"],
     [("reading text", "framework/core/src/file/tab.cc: open_from_memory_text"), ("binary form", "framework/core/src/file/tab.cc: open_from_memory_binary, save_tobinary"), ("searches", "framework/core/src/file/tab.cc: search_position, search_index_equal, search_first_column_equal")],
     observe="answers of the searches, the written files and memory safety (address sanitizer)")

NT = "framework/core/include/plain/net/"
NS = "framework/core/src/net/"
prop("N01", "Streams and ring buffers are lossless first-in first-out queues",
     "Whatever sequence of writes, reads, peeks, removals and moves from or to a socket is made, in whatever sizes, the elements read from a ring buffer or stream are exactly the elements written, in order, none lost, duplicated or altered, however often the buffer wraps around or grows. Sizes, free space and the counts returned are exact, a partial transfer takes exactly the reported number, and an operation that fails takes nothing. One thread may write a fixed ring while another reads it.",
     ["inputs", "histories", "schedules"],
     "for every sequence of operations and sizes on fixed and growing buffers, every pattern of partial socket reads and writes, and every interleaving of one producer with one consumer",
     "Tests write and read a few short strings that neither wrap around nor make the buffer grow while it is wrapped, and use one thread.",
     ["framework/core/include/plain/basic/ring.h", NT + "stream/basic.h", NS + "stream/basic.cc"],
     [("read/write positions, wrapping, growing", "framework/core/include/plain/basic/ring.h"),
      ("moving bytes between buffer and socket", NS + "stream/basic.cc: pull, push")],
     observe="values and counts returned by the operations")
prop("N02", "A packet gives back what was written into it",
     "Values written into a packet - numbers of every width, strings and byte strings including empty ones, raw bytes - are read back in the same order exactly as written, and their bytes are in network order so that another machine reads the same. A read for which too little is left, or while reading is off, takes nothing and gives zero or nothing; a write while writing is off adds nothing; marks and identifier are independent of each other and of the data.",
     ["inputs", "histories"],
     "for every sequence of writes, reads, removals and mark changes with every value",
     "Tests write two or three values and read them back; empty values, refused operations and combinations of marks are not sampled.",
     [NT + "packet/basic.h", NS + "packet/basic.cc", "framework/core/include/plain/basic/endian.h"],
     [("append and read position, marks", NS + "packet/basic.cc"), ("byte order", "framework/core/include/plain/basic/endian.h")],
     observe="values read, data, size and position of the packet")
prop("N03", "Packets survive the wire whatever the fragmentation",
     "Packets encoded one after another and received in any portions are decoded one by one, each with the identifier, kind and data it was sent with, in order, and nothing else is taken from the stream; in the line form the same holds for data without line ends, with either kind of line end. An incomplete packet is left untouched until the rest has come, and a header or line outside the limits is refused without taking anything.",
     ["inputs", "histories"],
     "for every sequence of packets, every way of cutting the bytes into portions, every limit, and arbitrary bytes in between",
     "Tests send a few small packets over the loopback, which arrive whole.",
     [NS + "stream/codec.cc", NT + "stream/codec.h"],
     [("header and length", NS + "stream/codec.cc: encode, decode"), ("line form", NS + "stream/codec.cc: line_encode, line_decode")],
     observe="packets decoded and bytes left in the stream")

prop("N04", "Packets sent over a connection arrive once, whole and in order",
     "A packet that a send on a standing connection (from either side, from any thread, also from a packet handler) or a broadcast took is handed to the packet handler of the other side exactly once, with its identifier and data unaltered, and the packets of one sender in the order sent; packets of one connection are handled one at a time, and never reach another connection. This holds for any number of connections served at the same time and however the sockets cut the bytes; while a connection stands nothing taken is left behind, unsent, unread or unhandled, once the threads have come to rest. The counts of bytes sent and received are exact.",
     ["schedules", "inputs", "histories"],
     "for every number of connections and threads, every size of packets and portions, every interleaving of senders, readiness notices and the threads that serve the connections",
     "The connection test exchanges a few packets over quick local sockets; input or output that becomes ready exactly while a connection is being served, and partial transfers, are not sampled.",
     [NS + "connection/basic.cc", NS + "connection/manager.cc", NS + "connection/epoll.cc", NS + "connection/select.cc", NS + "stream/basic.cc", NS + "connector.cc", NS + "listener.cc"],
     [("serving a connection: input, output, commands", NS + "connection/basic.cc: work, process_input, process_output, process_command, send"),
      ("hand-over of ready connections to the executor", NS + "connection/manager.cc; epoll.cc, select.cc: handle_input, handle_output"),
      ("broadcast", NS + "connection/manager.cc: broadcast")],
     observe="packet handlers, results of sends, byte counts")
prop("N05", "Connections begin and end once, within the limits",
     "Each established connection is announced once on either side before its end is, and its end is announced exactly once and only if a side asked for it, a manager was stopped, or the listener had no place for it; when one side ends, the other learns of it and ends too. A listener or connector never has more connections at once than its limit, a place is free again after its connection has ended, and a connection carries nothing over (name, handlers, unread data) from the one that had its place before. Stopping a manager returns, whatever its connections are doing, after which it calls no handler; connecting while it runs either gives a working connection or fails for lack of a place.",
     ["schedules", "histories", "configurations"],
     "for every sequence of connecting, ending from either side or from handlers, stopping and reconnecting, every limit, both ways of waiting for sockets, and every interleaving",
     "The tests connect one or two clients and end the process; endings that meet sending, stopping that meets new connections, and reuse of places are not sampled.",
     [NS + "connection/basic.cc", NS + "connection/manager.cc", NS + "listener.cc", NS + "connector.cc", NS + "connection/epoll.cc", NS + "connection/select.cc"],
     [("life of a connection", NS + "connection/basic.cc: init, shutdown, close, on_connect, on_disconnect"),
      ("pool of places, limits", NS + "connection/manager.cc: new_conn, accept, remove, release, is_full"),
      ("start and stop", NS + "connection/manager.cc: start, stop, wait_work")],
     observe="connect and disconnect handlers, results of connect and stop")

prop("N06", "A remote call is carried out once and answered with its own result",
     "A remote call - waiting, asynchronous or a mere notice - made on a standing connection by any thread runs the named function on the other side exactly once, with exactly the arguments given, in the order in which the calls on that connection were made, and its caller gets exactly the result of that run, never the one of another call, and can read it whenever it likes. A call to a function that does not exist, that throws, or with arguments missing, fails for its caller only and never runs a function without its arguments. A call whose connection ends or whose manager is stopped fails instead of waiting forever, a call with a time limit gives up in time, and late answers harm nothing.",
     ["schedules", "histories", "inputs"],
     "for every mix of calls, asynchronous calls and notices from any number of threads over several connections, every function shape and size of values, every order of answers, endings, stops and time-outs",
     "The tests make single calls one after another on one connection; concurrent calls, failing functions and connections that end under a call are not sampled.",
     [NT + "connection/basic.h", NS + "connection/basic.cc", NS + "rpc/dispatcher.cc", NT + "rpc/dispatcher.h", NT + "rpc/unpacker.h", NS + "connection/manager.cc"],
     [("asking and the table of calls", NT + "connection/basic.h: call, async_call, send; " + NS + "connection/basic.cc: send_call, handle_rpc_response"),
      ("running and answering", NS + "connection/basic.cc: handle_rpc_request; " + NS + "rpc/dispatcher.cc: dispatch"),
      ("ending", NS + "connection/basic.cc: close, init; " + NS + "connection/manager.cc: stop")],
     observe="bound functions, outcomes of calls")

prop("N07", "Packed call arguments and results are unpacked as they were packed",
     "Whatever values are packed for a remote call - numbers of every width and sign, floating point numbers, booleans, strings, byte strings, time points, empty values, lists, arrays, tuples, maps and objects, nested in any way - unpacking the bytes into the same types gives equal values in the same order without an error. Bytes that are cut off, do not fit the types asked for, or are arbitrary are unpacked without reading or writing outside their bounds, end in finite time, and an item that is missing is reported as an error that later items do not hide.",
     ["inputs", "histories"],
     "for every value of every supported type, every nesting, every place of truncation and arbitrary bytes",
     "Tests pack a few typical values; values at the borders of each width, truncated and hostile data are not sampled.",
     [NT + "rpc/packer.h", NT + "rpc/unpacker.h", NS + "rpc/packer.cc", NS + "rpc/unpacker.cc"],
     [("encoding of values", NS + "rpc/packer.cc"), ("decoding and error state", NS + "rpc/unpacker.cc")],
     observe="values unpacked and the reported error")

prop("N08", "An address text means the address it names, and is shown as it reads",
     "A network address made from a text - host and port, IPv4 or IPv6, with or without a port, the local spellings meaning every interface for a listener and this machine otherwise - has exactly the family, host and port the text names; a text that names none (a number out of range, a group too many, a port that is none) is refused. An address shows itself as a text that names the same address and reads back as it, an address made from raw bytes shows those bytes, and no text, however long, makes it read or write outside its own storage.",
     ["inputs"],
     "for every text given as host, as host and port, or as both in one, and every raw address and port",
     "Tests use two or three common spellings; borders of numbers and ports, shortened IPv6 forms, malformed and overlong texts are not sampled.",
     [NT + "address.h", NS + "address.cc"],
     [("reading a text", NS + "address.cc: Address::init, from_ip_port"), ("showing an address", NS + "address.cc: host, text, port")],
     observe="family, host bytes, port and text of the address")

EK = "framework/core/src/engine/kernel.cc"
prop("E01", "Ending the engine ends everything it gave out, and its options are followed",
     "The thread pool, the background executor and the timer queue of an engine have the thread counts and waiting times of the options it was made with, and its thread callbacks are called once as each of their threads starts and once as it ends. It always gives out the same standard executors, and a new worker thread or manual executor on each request. Until the engine is destroyed all of them take on tasks; destroying it, at any moment and with any tasks or timers under way, shuts down the timer queue and every executor it ever gave out, those made on request included, waits until their threads have ended and returns: afterwards no task runs on them, each reports that it is shut down, and every task or timer given to them is refused.",
     ["schedules", "histories", "inputs"],
     "for every choice of options, every set of executors made, every set of tasks and timers on them, and every interleaving with the end of the engine",
     "Tests make one engine with default options; options that differ from each other, executors made on request and tasks posted while the engine ends are not sampled.",
     [EK, "framework/core/include/plain/engine/kernel.h", "framework/core/include/plain/engine/config.h"],
     [("options", EK + ": Kernel::Kernel"), ("executors given out", EK + ": executor_collection, make_worker_thread_executor, make_manual_executor"), ("the end", EK + ": Kernel::~Kernel, shutdown_all")],
     observe="which tasks run and when, what is refused, thread callbacks, levels and waiting times reported")
prop("E02", "The engine lists the networks that run, and its console answers",
     "A network is in the engine's list, under its name, from its start to its stop; a second one with the name of one that runs is refused, one without a name is given a name no other has, and a name is free again after the stop. The console, once enabled, answers every command line with what the handler registered last for its first word returns for the other words, in every division of the lines into segments: list shows each network with its number of connections, limit and mode; kill stops the named networks and tells which names it does not know; killall stops all; help shows the descriptions. Neither stops the console itself, a word without a handler gets no answer, enabling the console fails rather than ending the process, and may be tried again. This holds while networks start and stop and handlers are registered in other threads.",
     ["schedules", "histories", "inputs"],
     "for every sequence of starts, stops, registrations and command lines, from several threads at once",
     "There is no test of the list or the console; replaced handlers, name clashes and commands that stop networks meanwhile need histories of several operations.",
     [EK, "framework/core/src/net/connection/manager.cc", "framework/core/src/net/listener.cc"],
     [("list of networks", EK + ": Kernel::add, remove_net; framework/core/src/net/connection/manager.cc: start, stop"), ("commands", EK + ": enable_console, console_cmd_list, console_cmd_kill, console_cmd_help, register_console_handler")],
     observe="answers of the console, results of start, whether networks run")

BI = "framework/core/include/plain/basic/"
BS = "framework/core/src/basic/"
prop("B01", "What is logged reaches the log files, once, whole and in order",
     "Every record appended to the asynchronous logger by any thread, directly or with the log statements of a level that is turned on, before it is stopped or destroyed, is in its log files after that: exactly once, whole and unaltered, and not before a record whose append had returned earlier - whatever the sizes of the records (up to the size of a buffer), the number of files and the time of the stop. While the logger runs its files hold the first records logged and, once the flush interval has passed with nothing new, all of them. Records of levels turned off are not written, and starting, stopping or destroying a logger at any moment neither hangs nor crashes.",
     ["schedules", "inputs", "histories"],
     "for every number of threads, size and level of records, flush interval and file size limit, and every interleaving of appends, the writing thread and stop",
     "The unit test logs from one thread and only looks whether it crashes; a record is lost when the stop comes while the writing thread is between two waits.",
     [BS + "async_logger.cc", BS + "logger.cc", BI + "logger.h", BI + "async_logger.h", "framework/core/src/file/utility.cc"],
     [("hand-over of buffers to the writing thread", BS + "async_logger.cc: append, thread_handle, stop"), ("files", BS + "async_logger.cc: File; framework/core/src/file/utility.cc: FileAppend"),
      ("composing a record", BS + "logger.cc")],
     observe="contents of the log files")
prop("B02", "A memory pool hands out memory to one user at a time and gets it back",
     "Blocks allocated from a pool by any threads never overlap while they are in use, are as large as asked for, aligned for every type, and keep what was written into them until they are returned, by whichever thread. A pool refuses a request, or turns to the system, only if every leaf has blocks in use or the request does not fit a leaf (requests beyond what it can count fail), so memory that was returned is used again and none is lost. Whether an access lies inside a block is answered exactly, and memory that is not a pool's own or was already returned is refused without effect.",
     ["schedules", "inputs", "histories"],
     "for every sequence of requests and returns of any sizes by any threads, every leaf size and count, and every interleaving",
     "The unit test allocates and frees in one thread; two threads must allocate and return around the moment a leaf starts anew to be given the same memory.",
     ["framework/core/include/plain/sys/memory/pool.h"],
     [("leaf counters and header of a block", "framework/core/include/plain/sys/memory/pool.h: malloc, free"), ("bounds", "framework/core/include/plain/sys/memory/pool.h: check_access")],
     observe="addresses, contents, answers of check_access")
prop("B03", "A task queue runs its tasks once, in order, and delivers their results",
     "Tasks put into a task queue by any threads are taken first in first out, each run exactly once by a thread that works on the queue, and the future of a task delivers exactly the value or exception the task ended with. Working on all tasks returns only when the queue was empty, destroying the queue runs what is left, and a task put in while it is being destroyed is refused with an exception and never run.",
     ["schedules", "programs"],
     "for every program of putting in and working on tasks by several threads, tasks that put in tasks included, and every interleaving",
     "There is no test of it at all; the order and the end of working under concurrent use cannot be sampled by a few calls.",
     [BI + "task_queue.h"],
     [("queue and lock", BI + "task_queue.h: enqueue, work_one, work_all, destructor")],
     observe="task bodies, futures")

prop("B04", "A variable computes, converts and compares as its value does",
     "A variable holds the value it was given or was copied from, of the kind it was given as, and gives it back only as that kind; arithmetic and stepping, in front and behind, with numbers or other variables, give the value the numbers give and leave other variables alone; conversions give the number a text begins with and the text of a number. Of two variables of one kind exactly one of less, equal and greater holds, and it is the one that holds for the values; not-equal, at-most and at-least agree with them.",
     ["inputs", "histories"],
     "for every sequence of assignments, copies, arithmetic, steps, conversions and comparisons of variables of every kind",
     "There is a test of two assignments; the operators are written out one by one and each can be wrong alone.",
     [BI + "type/variable.h"],
     [("value and conversions", BI + "type/variable.h"), ("operators", BI + "type/variable.h: operator++ to operator>=")],
     observe="kind and value of the variables, answers of the comparisons")
prop("B05", "Text and path helpers return what they promise, for every text",
     "Trimming removes exactly the characters of the mask at the ends; replacing changes exactly the first occurrences asked for, from the left and never inside what was put in; splitting returns the pieces between the separators, joined by them the text again; escaping and adding slashes give a text of which the original can be read back, no longer than the room there is; letter case, numbers in and out of text, sizes with a unit, dates, directory names and path separators come out as defined. Making a directory makes all that is missing along its path, removes and replaces nothing, and fails below or at a file. No helper reads or writes outside the texts and buffers it was given, and each ends.",
     ["inputs", "histories"],
     "for every text, mask, separator, count and buffer size, empty ones included, and every order of making directories",
     "Tests call each helper with one typical text; empty arguments, masks in any order, text that reappears in its replacement, and buffers just large enough are not sampled.",
     [BI + "utility.h", BS + "utility.cc", BI + "time.h", BS + "time.cc"],
     [("text", BS + "utility.cc: trim, str_replace, explode, getescape, add_slashes"), ("paths", BS + "utility.cc: makedir, complementpath, path_tounix")],
     observe="returned texts, contents of buffers, the directory tree")
prop("B06", "Encodings are exact and reversible, digests are the standard ones",
     "Base64 of a byte sequence is the standard one and decodes to it; a hexadecimal text of bytes is the standard one and turns back into them within the room there is; MD5 of a text, in one piece or several, is the digest of the standard; a password that is accepted for encryption is not shown by its encryption and decrypts to itself, and so does a tagged number; changing the byte order twice gives the value again and once gives its bytes reversed. Hostile input to decoding reads and writes nothing outside its bounds.",
     ["inputs"],
     "for every byte sequence of every length, every room to write to, every number and width",
     "Tests compare a few known results; lengths around a block, bytes of zero and above 127, and full buffers are not sampled.",
     [BI + "base64.h", BI + "md5.h", BI + "utility.h", BI + "endian.h", BS + "base64.cc", BS + "md5.cc", BS + "utility.cc"],
     [("base64", BS + "base64.cc"), ("digest", BS + "md5.cc"), ("passwords, numbers, hexadecimal", BS + "utility.cc: encrypt, decrypt, binary_tostring")],
     observe="the encoded, decoded and digested texts")

def main():
    sys.path.insert(0, os.path.join(V, "tools"))
    import checks
    pid = [p["id"] for p in P]
    assert len(set(pid)) == len(pid)
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
    with open(os.path.join(V, "properties.jsonl"), "w") as h:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            h.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
            if p["id"] in checks.CHECKS:
                c = checks.CHECKS[p["id"]]
                specs = sorted({j.spec for j in c.jobs})
                models = sorted({m["module"] for m in c.models})
                man["checks"].append({
                    "property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
                    "thorough_cmd": f"python3 check.py {p['id']} thorough",
                    "technique": p["_tech"] or f"TLA+ specification model-checked with TLC ({', '.join(models)}); histories of the real code, explored over programs and schedules, validated against it by TLC ({', '.join(specs)})",
                    "level": p["_level"],
                    "level_note": p["_note"] or "Specification explored exhaustively within its constants; the implementation is bound to it by trace validation of sampled programs x schedules."})
            else:
                man["not_applicable"].append({"property": p["id"], "reason": "no check yet"})
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
